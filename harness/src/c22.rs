use crate::utils::DurationExt;
pub fn case(i: u64, seed: u64) -> Result<(), String> {
    // block i of the f32 values in [0, 10^7): boundaries first, then strided enumeration
    let max = 1.0e7f32.to_bits() as u64;
    let step = 4096u64;
    let mut check = |x: f32| -> Result<(), String> {
        if !(x >= 0.0 && x < 1.0e7) { return Ok(()); }
        let got = std::panic::catch_unwind(|| format!("{}", x.display_duration())).map_err(|_| format!("display of {:?} panics", x))?;
        // nearest hundredth: exact value of the single-precision input times 100; halves may round either way, and the
        // product may be rounded to single precision first
        let exact = x as f64 * 100.0;
        let single = (x * 100.0) as f64;
        let ok = |c: u64| -> bool { let s = format!("{}:{:02}:{:02}.{:02}", c / 360000, c / 6000 % 60, c / 100 % 60, c % 100); s == got };
        let cands = [exact.round() as u64, single.round() as u64, exact.floor() as u64, exact.ceil() as u64];
        let fine = cands.iter().any(|&c| ok(c) && ((c as f64 - exact).abs() <= 0.5 + 1e-9 || (c as f64 - single).abs() <= 0.5));
        if fine { Ok(()) } else { Err(format!("{:?} seconds displayed as {}, expected {}:{:02}:{:02}.{:02}", x, got, cands[0] / 360000, cands[0] / 6000 % 60, cands[0] / 100 % 60, cands[0] % 100)) }
    };
    if i == 0 { for k in 0..2_000_000u64 { check(k as f32 / 100.0)?; } return Ok(()); }
    if i == 1 { for k in 0..200_000u64 { check(k as f32 * 50.0)?; check(k as f32 * 49.995)?; } return Ok(()); }
    let mut z = (seed ^ i).wrapping_mul(0x9E3779B97F4A7C15);
    for _ in 0..step { z ^= z << 13; z ^= z >> 7; z ^= z << 17; check(f32::from_bits((z % max) as u32))?; if z % 3 == 0 { check((z % 1_000_000_000) as f32 / 100.0)?; } }
    Ok(())
}
