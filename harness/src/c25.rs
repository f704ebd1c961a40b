//! the comparison tool run on pairs of generated files; expected rows from the library
use crate::media::{self, R};
use crate::utils::DurationExt;
use rusty_chromaprint::{match_fingerprints, Configuration, Fingerprinter};
use std::process::Command;
pub fn case(i: u64, seed: u64) -> Result<(), String> {
    let bin = match std::env::var("VC_COMPARE") { Ok(b) => b, Err(_) => return Ok(()) };
    let mut r = R(seed.wrapping_mul(79).wrapping_add(i * 1000003));
    let cfg = Configuration::preset_test1();
    let rate = if [2, 3].contains(&i) || i % 30 == 9 { 1101 } else if r.r(0, 3) == 0 { 11025 } else { r.r(1001, 6000) as u32 };
    let ch = if r.r(0, 9) == 0 { r.r(3, 8) } else { r.r(1, 2) } as u16;
    let c = ch as usize;
    // parts shared by the two files, with other audio between them
    let (mut a, mut b) = (vec![], vec![]);
    // now and then many parts at one alignment, so many rows
    let many = [2, 3].contains(&i) || i % 30 == 9;
    if many {
        for _ in 0..r.r(13, 22) {
            let n = rate as usize * r.r(7, 10) as usize;
            a.extend(media::audio(&mut r, rate, ch, n)); b.extend(media::audio(&mut r, rate, ch, n));
            let n = rate as usize * r.r(8, 12) as usize; let s = media::audio(&mut r, rate, ch, n);
            a.extend(&s); b.extend(&s);
        }
    }
    for _ in 0..if many { 0 } else { r.r(1, 3) } {
        let n = rate as usize * r.r(0, 12) as usize; a.extend(media::audio(&mut r, rate, ch, n));
        let n = rate as usize * r.r(0, 12) as usize; b.extend(media::audio(&mut r, rate, ch, n));
        let n = rate as usize * r.r(4, 25) as usize; let s = media::audio(&mut r, rate, ch, n);
        a.extend(&s); b.extend(&s);
    }
    let bad = r.r(0, 2) > 0;
    let mut fps = vec![];
    let mut paths = vec![];
    let mut notes = vec![];
    for (k, x) in [&a, &b].iter().enumerate() {
        let (bytes, ext, want, note) = media::file(&mut r, rate, ch, x, bad);
        let path = std::env::temp_dir().join(format!("vharness-{}-{}-{}-{}.{}", std::process::id(), seed, i, k, ext));
        std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
        paths.push(path.to_str().unwrap().to_string());
        notes.push(note);
        let mut p = Fingerprinter::new(&cfg);
        p.start(rate, ch as u32).map_err(|e| format!("{:?}", e))?;
        for y in want.chunks(c * 5000) { p.consume(y); }
        p.finish();
        fps.push(p.fingerprint().to_vec());
    }
    let what = format!("{} Hz, {} channels, files [{}] and [{}]", rate, ch, notes[0], notes[1]);
    let mut args = paths.clone();
    if i % 20 == 0 { if r.r(0, 1) == 0 { args.pop(); } else { args.push(paths[0].clone()); } }
    let out = Command::new(&bin).args(&args).output();
    for p in &paths { let _ = std::fs::remove_file(p); }
    let out = out.map_err(|e| format!("cannot run compare: {}", e))?;
    let got = String::from_utf8_lossy(&out.stdout).to_string();
    if args.len() != 2 { return if got.is_empty() { Ok(()) } else { Err(format!("with {} paths compare prints {:.100}", args.len(), got)) }; }
    let segs = match match_fingerprints(&fps[0], &fps[1], &cfg) { Ok(s) => s, Err(_) => { return if out.status.success() { Err(format!("{}: compare succeeds although the fingerprints cannot be matched", what)) } else { Ok(()) }; } };
    if !out.status.success() { return Err(format!("compare fails on {}: {}", what, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())); }
    let mut want = String::from("  #  |          File 1          |          File 2          |  Duration  |  Score  \n-----+--------------------------+--------------------------+------------+---------\n");
    for (k, s) in segs.iter().enumerate() {
        want += &format!("{:>4} | {} -- {} | {} -- {} | {} | {:>6.2}\n", k + 1, s.start1(&cfg).display_duration(), s.end1(&cfg).display_duration(), s.start2(&cfg).display_duration(), s.end2(&cfg).display_duration(), s.duration(&cfg).display_duration(), s.score);
    }
    if got != want {
        let (g, w): (Vec<_>, Vec<_>) = (got.lines().collect(), want.lines().collect());
        let k = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        return Err(format!("{}: {} lines printed, {} expected; line {}: got {:?}, expected {:?}", what, g.len(), w.len(), k, g.get(k).unwrap_or(&"nothing"), w.get(k).unwrap_or(&"nothing")));
    }
    Ok(())
}
