//! fpcalc run on generated files; the expected fingerprints come from the library fed with each chunk alone.
use rusty_chromaprint::{Configuration, FingerprintCompressor, Fingerprinter};
use crate::media::{self, R};
use std::process::Command;
fn base64(d: &[u8]) -> String {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() { s.push(t[(v >> (18 - 6 * k)) as usize & 63] as char); }
    }
    s
}
pub fn case(i: u64, seed: u64, prop: &str) -> Result<(), String> {
    let bin = match std::env::var("VC_FPCALC") { Ok(b) => b, Err(_) => return Ok(()) };
    let mut r = R(seed.wrapping_mul(77).wrapping_add(i * 1000003));
    if prop == "C23" && i % 9 == 0 { return options(&bin, &mut r); }
    let rate = match r.r(0, 5) { 0 => 1001, 1 => r.r(1001, 1200), 2 => 11025, 3 => 8000, _ => r.r(1001, 6000) } as u32;
    let ch = match r.r(0, 8) { 0..=2 => 1, 3 => r.r(3, 8) as u16, _ => 2u16 };
    let algo = r.r(0, 4);
    let cfg = match algo { 0 => Configuration::preset_test1(), 1 => Configuration::preset_test2(), 2 => Configuration::preset_test3(), 3 => Configuration::preset_test4(), _ => Configuration::preset_test5() };
    // a few long files: many results, long chunks, the default length
    let big = [3, 4, 5, 6].contains(&i) || i % 50 == 7;
    let rate = if big { r.r(1001, 1300) as u32 } else { rate };
    let length = if big { [0, 120, 0, 2_000_000_000, 4_295_000, 600][r.r(0, 5) as usize] } else { match r.r(0, 4) { 0 => 0, 1 => r.r(1, 4), _ => r.r(3, 24) } } as usize;
    let chunk = if big { [None, Some(1), Some(45), Some(119), Some(121), Some(200), Some(1_000_000_000)][if i == 3 { 1 } else if i == 4 { 3 } else { r.r(0, 6) as usize }] } else { match r.r(0, 5) { 0 | 1 => None, 2 => Some(r.r(0, 1) as usize), _ => Some(r.r(1, 9) as usize) } };
    let overlap = prop != "C24" && r.r(0, 3) == 0;
    let base = match r.r(0, 4) { 0 => length * rate as usize, 1 => chunk.unwrap_or(3) * r.r(1, 4) as usize * rate as usize, _ => r.r(0, 20 * rate as u64) as usize };
    let frames = match r.r(0, 4) { 0 => base, 1 => base + 1, 2 => base.saturating_sub(1), 3 => base / 1152 * 1152, _ => base }.min(40 * rate as usize);
    let frames = if big { r.r(130, 420) as usize * rate as usize + r.r(0, 2000) as usize } else { frames };
    let data = media::audio(&mut r, rate, ch, frames);
    let (bytes, ext, data, note) = media::file(&mut r, rate, ch, &data, false);
    let path = std::env::temp_dir().join(format!("vharness-{}-{}-{}.{}", std::process::id(), seed, i, ext));
    let path = path.to_str().unwrap().to_string();
    std::fs::write(&path, bytes).map_err(|e| e.to_string())?;
    let raw = r.r(0, 2) != 0;
    let signed = raw && r.r(0, 2) == 0 || prop == "C23" && r.r(0, 5) == 0;
    let (form, ts) = if prop == "C21" { ("plain", false) } else if prop == "C24" { (["json", "text"][r.r(0, 1) as usize], r.r(0, 7) == 0) } else { (["json", "text", "plain"][r.r(0, 2) as usize], r.r(0, 2) == 0) };
    let mut args: Vec<String> = vec!["-F".into(), form.into(), "-a".into(), algo.to_string(), "-l".into(), length.to_string()];
    if length == 120 && r.r(0, 1) == 0 { args.truncate(4); }
    if form == "text" && r.r(0, 1) == 0 { args.drain(..2); }
    if raw { args.push("-R".into()); }
    if signed { args.push("-s".into()); }
    if ts { args.push("-T".into()); }
    if let Some(c) = chunk { args.push("-C".into()); args.push(c.to_string()); }
    if overlap { args.push("-o".into()); }
    args.push(path.clone());
    let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|x| x.as_secs_f64()).unwrap_or(0.0);
    let t0 = clock();
    let out = Command::new(&bin).args(&args).output();
    let t1 = clock();
    let _ = std::fs::remove_file(&path);
    let out = out.map_err(|e| format!("cannot run fpcalc: {}", e))?;
    let what = format!("{} Hz, {} channels, {} frames, {}, arguments {:?}", rate, ch, frames, note, &args[..args.len() - 1]);
    if !out.status.success() { return Err(format!("fpcalc fails on {}: {}", what, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())); }
    let used = if length > 0 { frames.min(length * rate as usize) } else { frames };
    let limit = chunk.unwrap_or(0) * rate as usize;
    // the results expected: fingerprint text, first frame, number of frames
    let mut exp: Vec<(String, usize, usize)> = vec![];
    let mut at = 0;
    while at < used {
        let n = if limit > 0 { (limit + if at == 0 && overlap { cfg.delay() } else { 0 }).min(used - at) } else { used - at };
        let mut p = Fingerprinter::new(&cfg);
        p.start(rate, ch as u32).map_err(|e| format!("{:?}", e))?;
        p.consume(&data[at * ch as usize..(at + n) * ch as usize]);
        p.finish();
        let fp = p.fingerprint();
        exp.push((if raw { fp.iter().map(|x| if signed { (*x as i32).to_string() } else { x.to_string() }).collect::<Vec<_>>().join(",") } else { base64(&FingerprintCompressor::from(&cfg).compress(fp)) }, at, n));
        at += n;
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut rest = Cur { s: &text, at: 0 };
    let near = |got: f64, want: f64, tol: f64| (got - want).abs() <= tol;
    for (k, (fp, start, n)) in exp.iter().enumerate() {
        let res: Result<(), String> = (|| {
            let (dur, time) = (*n as f64 / rate as f64, *start as f64 / rate as f64);
            let check_time = |got: f64| if ts { if near(got, (t0 + t1) / 2.0, (t1 - t0) / 2.0 + 5.0) { Ok(()) } else { Err(format!("the time now is {} .. {}, printed {}", t0, t1, got)) } } else if overlap || near(got, time, 0.00501 + 1e-9 * time) { Ok(()) } else { Err(format!("its time is {}, printed {}", time, got)) };
            match form {
                "plain" => { rest.lit(fp)?; rest.lit("\n") }
                "text" => {
                    if k > 0 { rest.lit("\n")?; }
                    if ts { rest.lit("TIMESTAMP=")?; check_time(rest.num(Some(2))?)?; rest.lit("\n")?; }
                    rest.lit("DURATION=")?;
                    let d = rest.num(None)?;
                    if !overlap && !near(d, dur, 1e-9 * (1.0 + dur)) { return Err(format!("its duration is {}, printed {}", dur, d)); }
                    rest.lit("\nFINGERPRINT=")?; rest.lit(fp)?; rest.lit("\n")
                }
                _ => {
                    rest.lit("{")?;
                    if chunk.unwrap_or(0) != 0 { rest.lit("\"timestamp\": ")?; check_time(rest.num(Some(2))?)?; rest.lit(", ")?; }
                    rest.lit("\"duration\": ")?;
                    let d = rest.num(Some(2))?;
                    if !overlap && !near(d, dur, 0.00501) { return Err(format!("its duration is {}, printed {}", dur, d)); }
                    rest.lit(", \"fingerprint\": ")?; rest.lit(if raw { "[" } else { "\"" })?; rest.lit(fp)?; rest.lit(if raw { "]}\n" } else { "\"}\n" })
                }
            }
        })();
        if let Err(e) = res { return Err(format!("{}: {} results expected; in result number {} ({} frames from frame {}): {}", what, exp.len(), k, n, start, e)); }
    }
    if rest.at != text.len() { return Err(format!("{}: {} results expected, then fpcalc prints {:.120}", what, exp.len(), &text[rest.at..])); }
    Ok(())
}
// reads the text printed piece by piece
struct Cur<'a> { s: &'a str, at: usize }
impl<'a> Cur<'a> {
    fn lit(&mut self, l: &str) -> Result<(), String> {
        if self.s[self.at..].starts_with(l) { self.at += l.len(); return Ok(()); }
        let same = self.s[self.at..].chars().zip(l.chars()).take_while(|(a, b)| a == b).count();
        Err(format!("expected {:?}, printed {:?} (first difference at character {})", l.chars().skip(same.saturating_sub(10)).take(60).collect::<String>(), self.s[self.at..].chars().skip(same.saturating_sub(10)).take(60).collect::<String>(), same))
    }
    fn num(&mut self, dec: Option<usize>) -> Result<f64, String> {
        let t: String = self.s[self.at..].chars().take_while(|c| c.is_ascii_digit() || *c == '.' || *c == '-').collect();
        let v: f64 = t.parse().map_err(|_| format!("expected a number, printed {:.60?}", &self.s[self.at..]))?;
        let good = match dec { Some(d) => t.split('.').nth(1).map_or(0, |x| x.len()) == d, None => format!("{}", v) == t };
        if !good { return Err(format!("the number {} is not in the form wanted ({:?} decimals)", t, dec)); }
        self.at += t.len();
        Ok(v)
    }
}
// which option values are accepted
fn options(bin: &str, r: &mut R) -> Result<(), String> {
    let path = std::env::temp_dir().join(format!("vharness-{}-{}.wav", std::process::id(), r.u()));
    let path = path.to_str().unwrap().to_string();
    std::fs::write(&path, media::wav(8000, 1, &vec![100; 800])).map_err(|e| e.to_string())?;
    let a = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "19", "40", "44", "64", "100", "128", "255", "256", "257", "260", "-1", "x", "", "1.0", "0x1", "3a"];
    let f = ["text", "json", "plain", "Text", "JSON", "xml", "raw", "", "tex", "texts", "jsonl", "plai", "csv"];
    let (which, v) = if r.r(0, 2) > 0 { ("-a", a[r.r(0, a.len() as u64 - 1) as usize]) } else { ("-F", f[r.r(0, f.len() as u64 - 1) as usize]) };
    let want = if which == "-a" { v.parse::<u8>().map_or(false, |x| x <= 4) } else { ["text", "json", "plain"].contains(&v) };
    let out = Command::new(bin).arg(format!("{}{}", if which == "-a" { "--algorithm=" } else { "--output-format=" }, v)).arg(&path).output();
    let _ = std::fs::remove_file(&path);
    let out = out.map_err(|e| format!("cannot run fpcalc: {}", e))?;
    if out.status.success() != want { return Err(format!("{} with value {:?} is {}", which, v, if want { "rejected" } else { "accepted" })); }
    Ok(())
}
