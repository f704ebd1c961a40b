//! Conformance of the assumed contracts: the real dependency against the contract that the proofs take for granted.
//! Sampled, so it is evidence about the trusted base and never decides a property.
use rubato::{Resampler, SincFixedIn, SincInterpolationParameters, SincInterpolationType, WindowFunction};
use rustfft::{num_complex::Complex64, FftPlanner};
struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.u64() % (hi - lo + 1) }
    fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    fn sample(&mut self) -> f64 { (self.u64() as i16) as f64 / 32767.0 }
}
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
pub fn case(p: &str, i: u64, seed: u64) -> Result<(), String> {
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03));
    for _ in 0..4 { r.u64(); }
    match p { "A-resampler" => resampler(i, &mut r), "A-fft" => fft(i, &mut r), "A-std" => std_fns(&mut r), "A-float" => floats(&mut r), _ => Err("no such check".into()) }
}
const CHUNK: usize = 32768;
fn resampler(i: u64, r: &mut Rng) -> Result<(), String> {
    let special = [1001u64, 1002, 8000, 11024, 11026, 16000, 22050, 44100, 48000, 96000, 192000, u32::MAX as u64];
    let rate = if (i as usize) < special.len() { special[i as usize] } else if r.range(0, 1) == 0 { r.range(1001, 50000) } else { r.range(1001, 1 << 20) };
    let make = || SincFixedIn::<f64>::new(11025.0 / rate as f64, 1.0, SincInterpolationParameters { sinc_len: 16, f_cutoff: 0.8, oversampling_factor: 128, interpolation: SincInterpolationType::Nearest, window: WindowFunction::Blackman }, CHUNK, 1);
    let mut a = match make() { Ok(x) => x, Err(e) => return Err(format!("rate {}: construction fails: {}", rate, e)) };
    let mut b = make().unwrap();
    let step = |a: &mut SincFixedIn<f64>, b: &mut SincFixedIn<f64>, n: usize, r: &mut Rng| -> Result<(), String> {
        ck!(a.input_frames_next() == n && b.input_frames_next() == n, "rate {}: reads {} samples instead of {}", rate, a.input_frames_next(), n);
        let room = a.output_frames_next();
        ck!(room <= 1 << 20 && a.output_frames_max() <= 1 << 20, "rate {}: wants room for {} samples", rate, room);
        let x: Vec<f64> = (0..n).map(|_| r.sample()).collect();
        let mut y = x.clone();
        for _ in 0..r.range(0, 500) { y.push(r.sample()); }
        let mut oa = vec![vec![0.0; room]];
        let extra = r.range(0, 1000) as usize;
        let mut ob = vec![(0..room + extra).map(|_| r.sample()).collect::<Vec<f64>>()];
        let ra = a.process_into_buffer(&[&x[..]], &mut oa[..], None).map_err(|e| format!("rate {}: step of {} fails: {}", rate, n, e))?;
        let rb = b.process_into_buffer(&[&y[..]], &mut ob[..], None).map_err(|e| format!("rate {}: step of {} fails: {}", rate, n, e))?;
        ck!(ra.0 == n && rb == ra && ra.1 <= room, "rate {}: step of {}: {:?} and {:?}, room {}", rate, n, ra, rb, room);
        ck!(oa[0].len() == room && ob[0].len() == room + extra, "rate {}: the output buffer is resized", rate);
        ck!(oa[0][..ra.1].iter().zip(&ob[0]).all(|(p, q)| p.to_bits() == q.to_bits()), "rate {}: step of {} depends on more than its state and input", rate, n);
        Ok(())
    };
    for _ in 0..r.range(0, 2) { step(&mut a, &mut b, CHUNK, r)?; }
    for bad in [0, CHUNK + 1, CHUNK + r.range(1, 1 << 20) as usize, usize::MAX] { ck!(a.set_chunk_size(bad).is_err(), "rate {}: chunk size {} is accepted", rate, bad); }
    if r.range(0, 1) == 0 { step(&mut a, &mut b, CHUNK, r)?; }
    let n = match r.range(0, 5) { 0 => 1, 1 => CHUNK, 2 => r.range(1, 64) as usize, _ => r.range(1, CHUNK as u64) as usize };
    ck!(a.set_chunk_size(n).is_ok() && b.set_chunk_size(n).is_ok(), "rate {}: chunk size {} is refused", rate, n);
    step(&mut a, &mut b, n, r)
}
fn fft(i: u64, r: &mut Rng) -> Result<(), String> {
    let n = if i < 40 { i as usize + 1 } else { match r.range(0, 3) { 0 => 4096, 1 => 1 << r.range(0, 13), 2 => r.range(1, 200) as usize, _ => r.range(1, 9000) as usize } };
    let mut p = FftPlanner::<f64>::new();
    let (a, b) = (p.plan_fft_forward(n), FftPlanner::<f64>::new().plan_fft_forward(n));
    ck!(a.len() == n, "plan for {} has size {}", n, a.len());
    for _ in 0..2 {
        let x: Vec<Complex64> = (0..n).map(|_| Complex64::new(r.sample(), 0.0)).collect();
        let (mut u, mut v) = (x.clone(), x.clone());
        let mut s = vec![Complex64::new(0.0, 0.0); a.get_inplace_scratch_len()];
        let mut t: Vec<Complex64> = (0..b.get_inplace_scratch_len() + r.range(0, 50) as usize).map(|_| Complex64::new(r.sample(), r.sample())).collect();
        a.process_with_scratch(&mut u, &mut s);
        b.process_with_scratch(&mut v, &mut t);
        ck!(u.iter().zip(&v).all(|(p, q)| p.re.to_bits() == q.re.to_bits() && p.im.to_bits() == q.im.to_bits()), "the transform of size {} depends on the plan or the scratch", n);
        ck!(u.iter().all(|c| c.norm_sqr() == c.re * c.re + c.im * c.im), "norm_sqr of size {}", n);
        if n <= 128 {
            for k in 0..n {
                let mut w = Complex64::new(0.0, 0.0);
                for (j, c) in x.iter().enumerate() { let t = -2.0 * std::f64::consts::PI * ((j * k) % n) as f64 / n as f64; w += c * Complex64::new(t.cos(), t.sin()); }
                ck!((w - u[k]).norm() < 1e-9, "line {} of the transform of size {} is {} instead of {}", k, n, u[k], w);
            }
        }
    }
    Ok(())
}
fn sat(x: i128, lo: i128, hi: i128) -> i128 { x.max(lo).min(hi) }
trait Any: Copy { fn any(r: &mut Rng) -> Self; }
macro_rules! any { ($($t:ident)*) => { $(impl Any for $t { fn any(r: &mut Rng) -> $t { match r.range(0, 7) { 0 => 0, 1 => 1, 2 => $t::MIN, 3 => $t::MAX, 4 => (r.u64() % 20) as $t, 5 => (0 as $t).wrapping_sub((r.u64() % 20) as $t), 6 => (r.u64() as $t) & (r.u64() as $t) & (r.u64() as $t), _ => r.u64() as $t } } })* } }
any!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
macro_rules! both { ($r:expr, $($t:ident)*) => { $({
    let (a, b) = (<$t>::any($r), <$t>::any($r));
    let (x, y) = (a as i128, b as i128);
    let (lo, hi) = ($t::MIN as i128, $t::MAX as i128);
    ck!(a.abs_diff(b) as i128 == (x - y).abs(), "abs_diff {} {}", a, b);
    if b != 0 && !(x == lo && y == -1) { ck!(a.div_euclid(b) as i128 == x.div_euclid(y) && a.rem_euclid(b) as i128 == x.rem_euclid(y), "euclid {} {}", a, b); ck!((a / b) as i128 == x / y && (a % b) as i128 == x % y, "division {} {}", a, b); }
    ck!(a.saturating_add(b) as i128 == sat(x + y, lo, hi) && a.saturating_sub(b) as i128 == sat(x - y, lo, hi) && a.saturating_mul(b) as i128 == sat(x * y, lo, hi), "saturating {} {}", a, b);
    ck!(a.checked_add(b).map(|v| v as i128) == Some(x + y).filter(|v| *v >= lo && *v <= hi) && a.checked_sub(b).map(|v| v as i128) == Some(x - y).filter(|v| *v >= lo && *v <= hi) && a.checked_mul(b).map(|v| v as i128) == Some(x * y).filter(|v| *v >= lo && *v <= hi), "checked {} {}", a, b);
    let e = $r.range(0, 6) as u32;
    if let Some(v) = x.checked_pow(e).filter(|v| *v >= lo && *v <= hi) { ck!(a.pow(e) as i128 == v, "pow {} {}", a, e); }
    let m = { let s = x + y; if s >= 0 { s / 2 } else { -(-s / 2) } };
    ck!(a.midpoint(b) as i128 == m, "midpoint {} {}", a, b);
})* } }
macro_rules! unsigned { ($r:expr, $($t:ident)*) => { $({
    let (a, b) = (<$t>::any($r), <$t>::any($r));
    let (x, y) = (a as i128, b as i128);
    if b != 0 { let v = (x + y - 1) / y * y; if v <= $t::MAX as i128 { ck!(a.next_multiple_of(b) as i128 == v, "next_multiple_of {} {}", a, b); } ck!(a.div_ceil(b) as i128 == (x + y - 1) / y, "div_ceil {} {}", a, b); }
    ck!(a.is_power_of_two() == (a != 0 && a & a.wrapping_sub(1) == 0), "is_power_of_two {}", a);
})* } }
macro_rules! signed { ($r:expr, $($t:ident)*) => { $({
    let a = <$t>::any($r);
    let x = a as i128;
    if a != $t::MIN { ck!(a.abs() as i128 == x.abs(), "abs {}", a); }
    ck!(a.unsigned_abs() as i128 == x.abs() && a.signum() as i128 == x.signum() && a.is_negative() == (x < 0) && a.is_positive() == (x > 0), "signs of {}", a);
})* } }
fn std_fns(r: &mut Rng) -> Result<(), String> {
    for _ in 0..200 {
        both!(r, u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
        unsigned!(r, u8 u16 u32 u64 usize);
        signed!(r, i8 i16 i32 i64 isize);
        let (a, n) = (u32::any(r), u32::any(r));
        let rotl = |a: u32, n: u32| if n % 32 == 0 { a } else { (a << (n % 32)) | (a >> (32 - n % 32)) };
        ck!(a.rotate_left(n) == rotl(a, n) && a.rotate_right(n) == rotl(a, 32 - n % 32), "rotation of {} by {}", a, n);
        let ones = (0..32).filter(|k| (a >> k) & 1 == 1).count() as u32;
        ck!(a.count_ones() == ones && a.count_zeros() == 32 - ones, "bits of {}", a);
        ck!(a.checked_shl(n) == if n < 32 { Some(a << n) } else { None }, "checked_shl {} {}", a, n);
    }
    // vectors and queues
    let mut v: Vec<u32> = (0..r.range(0, 60)).map(|_| r.range(0, 40) as u32).collect();
    let o = v.clone();
    let k = r.range(0, v.len() as u64) as usize;
    let mut d: std::collections::VecDeque<u32> = v.iter().copied().collect();
    for _ in 0..r.range(0, 5) { d.push_back(1); d.pop_front(); }
    let w: Vec<u32> = d.iter().copied().collect();
    let j = r.range(0, d.len() as u64) as usize;
    d.drain(..j);
    ck!(d.iter().copied().eq(w[j..].iter().copied()), "drain of a queue");
    v.drain(..k);
    ck!(v == o[k..], "drain of a vector");
    let mut s = o.clone();
    s.sort_unstable();
    ck!(s.windows(2).all(|p| p[0] <= p[1]) && (0..41).all(|x| s.iter().filter(|y| **y == x).count() == o.iter().filter(|y| **y == x).count()), "sorting");
    let n = r.range(1, 9) as usize;
    ck!(o.chunks(n).count() == (o.len() + n - 1) / n && o.chunks_exact(n).count() == o.len() / n && o.chunks(n).enumerate().all(|(k, c)| c == &o[k * n..(k * n + n).min(o.len())]), "chunks");
    if n <= o.len() { ck!(o.windows(n).enumerate().all(|(k, c)| c == &o[k..k + n]) && o.windows(n).count() == o.len() + 1 - n, "windows"); }
    Ok(())
}
fn floats(r: &mut Rng) -> Result<(), String> {
    for _ in 0..500 {
        let x = match r.range(0, 5) { 0 => r.f(), 1 => r.f() * 1e-12, 2 => r.range(0, 1 << 20) as f64 / 2.0, 3 => r.f() * 1e20, 4 => r.range(0, 5000) as f64, _ => f64::from_bits(r.u64() >> 2) };
        if x > 1e-300 && x < 1e300 { ck!(((2.0 * x).log2() - x.log2() - 1.0).abs() < 1e-9, "log2 of {} doubled", x); }
        if x > 1e-150 && x < 1e150 { let s = x.sqrt(); ck!(s >= 0.0 && (s * s - x).abs() <= 1e-12 * x, "square root of {}", x); }
        let y = if r.range(0, 1) == 0 { x } else { -x };
        if x < 4e15 {
            let half = |v: f64| (v + 0.5).floor();
            let e = if y >= 0.0 { half(y) } else { -half(-y) };
            // v + 0.5 itself rounds for the largest value under one half
            ck!(y.round() == e || (y.abs() - 0.5).abs() < 1e-15, "{} rounds to {}", y, y.round());
            let t = y.trunc() as i128;
            ck!((y as u8) as i128 == sat(t, 0, 255) && (y as u32) as i128 == sat(t, 0, u32::MAX as i128) && (y as usize) as i128 == sat(t, 0, usize::MAX as i128), "casts of {}", y);
        }
        ck!((x.powi(2) - x * x).abs() <= 1e-15 * (x * x) || !(x * x).is_finite(), "square of {}", x);
    }
    Ok(())
}
