// Native oracles: executable forms of the properties, run against the real code.  They never decide "holds"; they
// search for a concrete failing input when an obligation fails, and stand in (labelled bounded) for functions that the
// deductive layer cannot reach.
use crate::*;
use crate::stages::{AudioConsumer, FeatureVectorConsumer, Stage};
use std::cell::RefCell;
use std::rc::Rc;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    /// in [lo, hi]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + (self.u64() % (hi - lo + 1) as u64) as usize }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.range(0, v.len() - 1)] }
    pub fn chance(&mut self, n: usize) -> bool { self.range(0, n - 1) == 0 }
}
pub type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
fn short<T: std::fmt::Debug>(v: &[T]) -> String { if v.len() <= 80 { format!("{:?}", v) } else { format!("(len {}) {:?}..", v.len(), &v[..80]) } }
fn close(a: f64, b: f64, scale: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + scale) }

// ------------------------------------------------------------------------------------------------ recording consumers
#[derive(Clone)]
pub struct RecF(Rc<RefCell<(Vec<Vec<f64>>, usize)>>);
impl Stage for RecF { type Output = (); fn output(&self) -> &() { &() } }
impl FeatureVectorConsumer for RecF { fn consume(&mut self, f: &[f64]) { self.0.borrow_mut().0.push(f.to_vec()); } fn reset(&mut self) { let mut b = self.0.borrow_mut(); b.0.clear(); b.1 += 1; } }
impl RecF { fn new() -> Self { RecF(Rc::new(RefCell::new((vec![], 0)))) } fn rows(&self) -> Vec<Vec<f64>> { self.0.borrow().0.clone() } fn count(&self) -> usize { self.0.borrow().0.len() } fn last(&self) -> Vec<f64> { self.0.borrow().0.last().cloned().unwrap_or_default() } fn resets(&self) -> usize { self.0.borrow().1 } }
#[derive(Clone)]
pub struct RecA(Rc<RefCell<(Vec<f64>, usize, usize)>>);
impl Stage for RecA { type Output = (); fn output(&self) -> &() { &() } }
impl AudioConsumer<f64> for RecA { fn consume(&mut self, f: &[f64]) { self.0.borrow_mut().0.extend_from_slice(f); } fn reset(&mut self) { let mut b = self.0.borrow_mut(); b.0.clear(); b.1 += 1; } fn flush(&mut self) { self.0.borrow_mut().2 += 1; } }
impl RecA { fn new() -> Self { RecA(Rc::new(RefCell::new((vec![], 0, 0)))) } fn all(&self) -> Vec<f64> { self.0.borrow().0.clone() } }

// ------------------------------------------------------------------------------------------------ generators
fn gen_fp(i: u64, r: &mut Rng, max: usize) -> Vec<u32> {
    let special = [0u32, 1, u32::MAX, 0x8000_0000, 0x8000_0001, 0x40, 0x80, 0x100, 0x0101_0101, 0x5555_5555, 0xAAAA_AAAA, 0x7fff_ffff, 0xffff_0000];
    if i < 3 { return vec![[0, 1, 2][i as usize] as u32; i as usize]; }
    if i < 3 + special.len() as u64 { return vec![special[(i - 3) as usize]]; }
    if i < 48 { return vec![1u32 << (i - 16).min(31)]; }
    let n = match r.range(0, 9) { 0 => r.range(0, 3), 1..=5 => r.range(1, 24), 6..=8 => r.range(1, 200.min(max)), _ => r.range(1, max) };
    let mode = r.range(0, 6);
    let mut v = Vec::with_capacity(n);
    let mut cur = r.u32();
    for _ in 0..n {
        let x = match mode { 0 => r.u32(), 1 => 1u32 << r.range(0, 31), 2 => { cur ^= 1 << r.range(0, 31); cur } 3 => r.u32() & r.u32() & r.u32(), 4 => r.pick(&special), 5 => { if r.chance(5) { cur = r.u32(); } cur } _ => u32::MAX << r.range(0, 31) };
        v.push(x);
    }
    v
}

// ------------------------------------------------------------------------------------------------ C01 C02
fn unpack(data: &[u8], bits: usize, pos: usize) -> Option<u8> { let mut v = 0u8; for b in 0..bits { let p = pos + b; let byte = *data.get(p / 8)?; v |= ((byte >> (p % 8)) & 1) << b; } Some(v) }
fn decode(data: &[u8]) -> Result<(u8, Vec<u32>), String> {
    if data.len() < 4 { return Err("short header".into()); }
    let n = ((data[1] as usize) << 16) | ((data[2] as usize) << 8) | data[3] as usize;
    let body = &data[4..];
    let (mut pos, mut zeros, mut exc) = (0usize, 0usize, 0usize);
    let mut normal = vec![];
    while zeros < n { let v = unpack(body, 3, pos).ok_or("normal values missing")?; pos += 3; if v == 0 { zeros += 1; } if v == 7 { exc += 1; } normal.push(v); }
    let off = (pos + 7) / 8;
    if body.len() < off { return Err("truncated".into()); }
    let eb = &body[off..];
    let mut ev = vec![];
    for k in 0..exc { ev.push(unpack(eb, 5, 5 * k).ok_or("exception values missing")?); }
    let mut out = vec![];
    let (mut last, mut cur, mut bit, mut e) = (0u32, 0u32, 0usize, 0usize);
    for v in normal {
        if v == 0 { let x = cur ^ last; out.push(x); last = x; cur = 0; bit = 0; continue; }
        let d = if v == 7 { let d = 7 + ev[e] as usize; e += 1; d } else { v as usize };
        bit += d;
        if bit > 32 { return Err("bit out of range".into()); }
        cur |= 1 << (bit - 1);
    }
    Ok((data[0], out))
}
fn pack(vals: &[u8], bits: usize) -> Vec<u8> { let mut out = vec![0u8; (vals.len() * bits + 7) / 8]; for (i, v) in vals.iter().enumerate() { for b in 0..bits { if (v >> b) & 1 == 1 { let p = i * bits + b; out[p / 8] |= 1 << (p % 8); } } } out }
fn encode(id: u8, fp: &[u32]) -> Vec<u8> {
    let (mut nv, mut ev) = (vec![], vec![]);
    let mut last = 0u32;
    for &x in fp { let d = x ^ last; last = x; let mut lb = 0u8; for b in 0..32u8 { if (d >> b) & 1 == 1 { let v = b + 1 - lb; lb = b + 1; if v >= 7 { nv.push(7); ev.push(v - 7); } else { nv.push(v); } } } nv.push(0); }
    let n = fp.len();
    let mut out = vec![id, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    out.extend(pack(&nv, 3)); out.extend(pack(&ev, 5));
    out
}
fn comp_case(i: u64, r: &mut Rng) -> (u8, Vec<u32>) {
    let id = if i % 3 == 0 { (i % 5) as u8 } else { r.u32() as u8 };
    let mut fp = gen_fp(i, r, if i % 64 == 63 { 70000 } else { 3000 });
    if i % 257 == 256 { fp = vec![r.u32(); 65536 + r.range(0, 3)]; }
    if i == 100 { fp = vec![0; 0xff_ffff]; }
    (id, fp)
}
pub fn c01(i: u64, r: &mut Rng) -> R {
    let (id, fp) = comp_case(i, r);
    let cfg = Configuration::preset_test2().with_id(id);
    let b = FingerprintCompressor::from(&cfg).compress(&fp);
    let what = || format!("id={} items={}", id, short(&fp));
    match decode(&b) { Err(e) => return Err(format!("compressed bytes of {} do not decode: {}", what(), e)), Ok((did, d)) => { ck!(d == fp, "{} decodes to {}", what(), short(&d)); ck!(did == id, "{} decodes to id {}", what(), did); } }
    let cfg2 = Configuration::preset_test1().with_id(id).with_frame_size(99 + i as usize).with_frame_overlap(3).with_interpolation(i % 2 == 0);
    let b2 = FingerprintCompressor::from(&cfg2).compress(&fp);
    ck!(b2 == b, "{}: another configuration with the same id gives other bytes", what());
    Ok(())
}
pub fn c02(i: u64, r: &mut Rng) -> R {
    let (id, fp) = comp_case(i, r);
    let cfg = Configuration::preset_test2().with_id(id);
    let b = FingerprintCompressor::from(&cfg).compress(&fp);
    let e = encode(id, &fp);
    ck!(b == e, "id={} items={}: bytes {} expected {}", id, short(&fp), short(&b), short(&e));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C03..C06, C20
fn gen_pair(i: u64, r: &mut Rng) -> (Vec<u32>, Vec<u32>) {
    if i == 0 { return (vec![], vec![]); }
    if i == 1 { return (vec![1], vec![]); }
    if i == 2 { return (vec![], vec![1, 2]); }
    if i == 3 { return (vec![7, 7], vec![7, 7]); }
    if i == 4 { return (vec![0; 600], vec![0; 300]); }
    if i == 5 { return (vec![9; 9000], vec![9; 9000]); }
    if i < 14 { let a = gen_fp(99, r, 40 * i as usize); return (a.clone(), a); }
    if i == 14 || i == 15 || i == 60 || i == 61 { // long ones
        let n = if i < 60 { 70_000 } else { 5000 };
        let a: Vec<u32> = (0..n).map(|_| r.u32()).collect();
        let cut = if i % 2 == 0 { 0 } else { 300 };
        let mut b = a[cut..].to_vec();
        let mut noise = 0u32;
        for x in b.iter_mut() { if r.chance(1500) { noise = r.pick(&[0, 0x1, 0xff, 0xf_ffff]); } *x ^= r.u32() & noise; }
        return if i % 3 == 0 { (b, a) } else { (a, b) };
    }
    match i {
        // counts above 2^16 at several alignments
        16 => { let a: Vec<u32> = (0..70_100u32).map(|k| k.wrapping_mul(1237) << 20 | r.u32() & 3).collect(); return (a.clone(), a); }
        17 => { let a: Vec<u32> = (0..70_000u32).map(|k| (k % 3000) << 20).collect(); return (a[..69_000].to_vec(), a); }
        // close to the largest lengths allowed, with the common part at the beginning, at the end or everywhere
        18 | 19 => { let n = 524_285 - r.range(0, 2); let a: Vec<u32> = (0..n).map(|_| r.u32()).collect(); let m = r.range(1000, 3000); let b = if i == 18 { a[n - m..].to_vec() } else { a[..m].to_vec() }; return if r.chance(2) { (a, b) } else { (b, a) }; }
        20 => { let a: Vec<u32> = (0..524_285).map(|_| r.u32()).collect(); return (a.clone(), a); }
        21 | 22 => { let n = r.range(140_000, 200_000); return saw(r, n); }
        _ => (),
    }
    if r.chance(6) { let n = r.range(100, 3000); return saw(r, n); }
    let n = match r.range(0, 5) { 0 => r.range(0, 6), 1..=3 => r.range(2, 80), 4 => r.range(40, 300), _ => r.range(100, 900) };
    // small alphabets make many coinciding hashes
    let alpha = r.pick(&[1usize, 2, 3, 7, 40, 100000]);
    let base: Vec<u32> = (0..alpha.min(1000)).map(|_| r.u32()).collect();
    let low = r.pick(&[0u32, 0x3, 0xff, 0xf_ffff]);
    let mut a: Vec<u32> = (0..n).map(|_| base[r.range(0, base.len() - 1)] ^ (r.u32() & low)).collect();
    if r.chance(3) { // long constant-ish stretches with different noise levels
        let mut noise = 0u32; let c = r.u32();
        for x in a.iter_mut() { if r.chance(25) { noise = r.pick(&[0, 0x1, 0xf, 0xff, 0xfff, 0xf_ffff, 0x5_5555]); } *x = c ^ (r.u32() & noise & 0xf_ffff); }
    }
    let mut b: Vec<u32>;
    match r.range(0, 5) {
        0 => { b = (0..r.range(0, 300)).map(|_| r.u32()).collect(); }
        1 => { b = (0..r.range(0, 300)).map(|_| base[r.range(0, base.len() - 1)]).collect(); }
        2 => { b = a.clone(); }
        _ => {
            let s = r.range(0, a.len());
            let e = r.range(s, a.len());
            b = (0..r.pick(&[0usize, 0, 1, 5, 60])).map(|_| r.u32()).collect();
            b.extend_from_slice(&a[s..e]);
            for _ in 0..r.pick(&[0usize, 0, 1, 30]) { b.push(r.u32()); }
            let mut noise = 0u32;
            for x in b.iter_mut() { if r.chance(20) { noise = r.pick(&[0, 0, 0x1, 0x7, 0xff, 0xf_ffff, u32::MAX]); } *x ^= r.u32() & noise; }
        }
    }
    if r.chance(2) { std::mem::swap(&mut a, &mut b); }
    (a, b)
}
/// a stream and a copy of it whose distance rises and falls slowly but has sudden steps: many pieces with nearly the same mean
fn saw(r: &mut Rng, n: usize) -> (Vec<u32>, Vec<u32>) {
    let a: Vec<u32> = (0..n).map(|_| r.u32()).collect();
    let base = r.pick(&[0.0, 2.0, 5.0, 8.0, 9.5]);
    let (gap, amp, dec) = (r.pick(&[60usize, 200, 1000, 70_000]), r.pick(&[4.0, 6.0, -4.0, -6.0]), r.pick(&[0.01, 0.05, 0.5]));
    let (mut lev, mut next) = (0.0f64, gap);
    let b = a.iter().enumerate().map(|(k, &x)| {
        if k == next { lev = amp; next += gap / 2 + r.range(0, gap); }
        if lev > 0.0 { lev = (lev - dec).max(0.0) } else { lev = (lev + dec).min(0.0) }
        let want = (base + lev + r.f()).clamp(0.0, 20.0) as u32;
        let mut m = 0u32;
        while m.count_ones() < want { m |= 1 << r.range(0, 19); }
        x ^ m
    }).collect();
    if r.chance(2) { (a, b) } else { (b, a) }
}
fn what2(a: &[u32], b: &[u32]) -> String { format!("fp1={} fp2={}", short(a), short(b)) }
fn do_match(a: &[u32], b: &[u32]) -> Result<Vec<Segment>, String> {
    let cfg = Configuration::preset_test2();
    std::panic::catch_unwind(|| match_fingerprints(a, b, &cfg)).map_err(|_| format!("match panics for {}", what2(a, b)))?.map_err(|e| format!("match fails with {:?} for {}", e, what2(a, b)))
}
pub fn c03(i: u64, r: &mut Rng) -> R {
    let (a, b) = gen_pair(i, r);
    let s = do_match(&a, &b)?;
    let w = || format!("{} -> {:?}", what2(&a, &b), s);
    for x in &s { ck!(x.items_count > 0, "empty segment: {}", w()); ck!(x.offset1 + x.items_count <= a.len() && x.offset2 + x.items_count <= b.len(), "segment out of bounds: {}", w()); }
    for p in s.windows(2) { ck!(p[0].offset1 + p[0].items_count <= p[1].offset1 && p[0].offset2 + p[0].items_count <= p[1].offset2, "segments overlap or out of order: {}", w()); ck!(p[0].offset1 + p[1].offset2 == p[1].offset1 + p[0].offset2, "alignments differ: {}", w()); }
    Ok(())
}
pub fn c04(i: u64, r: &mut Rng) -> R {
    const L: usize = (1 << 19) - 2;
    let cfg = Configuration::preset_test2();
    // items are all different in their top 12 bits as far as possible, to keep matching of long inputs cheap
    let mk = |n: usize, salt: u32| (0..n).map(|k| if n > 5000 { ((k as u32 % 2048) << 20) | (salt << 31) } else { (k as u32).wrapping_mul(0x9E37_79B9) }).collect::<Vec<u32>>();
    let (n1, n2) = match i { 0 => (L, 0), 1 => (0, L), 2 => (L, L), 3 => (L - 1, 3), 4 => (3, L - 1), 5 => (L + 1, 2), 6 => (2, L + 7), 7 => (L - 1, L), 8 => (L, L - 1), 9 => (0, 0), 10 => (1 << 20, 5), 11 => (5, 1 << 20), 12 => (L - 1, L - 1), 13 => (2 * L + 1, L + 1), 14 => (L, L + 1), 15 => (L + 5, L + 4), 16 => (L + 3, 2 * L), 17..=30 => (L + r.range(0, 9), L + r.range(0, 9)), 31..=34 => (L + r.range(0, 9), r.range(0, 9)), 35..=38 => (r.range(0, 9), L + r.range(0, 9)), 39 => (1 << 21, (1 << 21) + 1), _ => (r.range(0, 50), r.range(0, 50)) };
    let (a, b) = (mk(n1, 0), mk(n2, 1));
    let res = std::panic::catch_unwind(|| match_fingerprints(&a, &b, &cfg)).map_err(|_| format!("match panics for lengths {} and {}", n1, n2))?;
    let e = match &res { Ok(_) => None, Err(MatchError::FingerprintTooLong { index }) => Some(*index) };
    let exp = if n1 >= L { Some(0) } else if n2 >= L { Some(1) } else { None };
    ck!(e == exp, "lengths {} and {}: error index {:?}, expected {:?}", n1, n2, e, exp);
    Ok(())
}
fn mean_bits(a: &[u32], b: &[u32], s: &Segment) -> f64 { (0..s.items_count).map(|k| (a[s.offset1 + k] ^ b[s.offset2 + k]).count_ones() as f64).sum::<f64>() / s.items_count as f64 }
pub fn c05(i: u64, r: &mut Rng) -> R {
    let (a, b) = gen_pair(i, r);
    let s = match do_match(&a, &b) { Ok(s) => s, Err(_) => return Ok(()) };
    for x in &s {
        if x.items_count == 0 || x.offset1 + x.items_count > a.len() || x.offset2 + x.items_count > b.len() { continue; }
        let m = mean_bits(&a, &b, x);
        ck!((x.score - m).abs() < 1e-9, "segment {:?} has mean {} : {}", x, m, what2(&a, &b));
        ck!(x.score >= 0.0 && x.score < 10.0, "score out of range: {:?} : {}", x, what2(&a, &b));
    }
    Ok(())
}
pub fn c06(i: u64, r: &mut Rng) -> R {
    let (a, b) = gen_pair(i, r);
    let s = match do_match(&a, &b) { Ok(s) => s, Err(_) => return Ok(()) };
    let mut h = vec![0usize; a.len() + b.len() + 1];
    let mut at = vec![vec![]; 4096];
    for (q, y) in b.iter().enumerate() { at[(y >> 20) as usize].push(q); }
    for (p, x) in a.iter().enumerate() { for q in &at[(x >> 20) as usize] { h[p + b.len() - q] += 1; } }
    let best = h.iter().copied().max().unwrap_or(0);
    if best < 2 { ck!(s.is_empty(), "no alignment has two coinciding hashes but {:?}: {}", s, what2(&a, &b)); return Ok(()); }
    let d = (0..h.len()).rev().find(|&d| h[d] == best).unwrap() as isize - b.len() as isize;
    for x in &s { ck!(x.offset1 as isize - x.offset2 as isize == d, "segment {:?} not at the best alignment {} (count {}): {}", x, d, best, what2(&a, &b)); }
    if a == b && a.len() >= 2 { ck!(s.len() == 1 && s[0].offset1 == 0 && s[0].offset2 == 0 && s[0].items_count == a.len() && s[0].score == 0.0, "self match gives {:?}: {}", s, what2(&a, &b)); }
    Ok(())
}
pub fn c20(i: u64, r: &mut Rng) -> R {
    let cfg = match i % 7 { 0 => Configuration::preset_test1(), 1 => Configuration::preset_test5(), 2 => Configuration::preset_test3(), _ => { let e = r.range(1, 20); let f = r.range(1, 1 << e); Configuration::preset_test2().with_frame_size(f).with_frame_overlap(r.range(0, f - 1)) } };
    let big = 1usize << r.range(1, 40);
    let s = Segment { offset1: if i % 11 == 0 { 0 } else { r.range(0, big) }, offset2: r.range(0, big), items_count: r.range(0, big), score: 0.0 };
    let d = cfg.item_duration_in_seconds();
    let w = |n: &str, g: f32, e: f32| format!("{} of {:?} with item duration {} is {}, expected {}", n, s, d, g, e);
    for (n, g, e) in [("start1", s.start1(&cfg), s.offset1 as f32 * d), ("start2", s.start2(&cfg), s.offset2 as f32 * d), ("duration", s.duration(&cfg), s.items_count as f32 * d), ("end1", s.end1(&cfg), s.offset1 as f32 * d + s.items_count as f32 * d), ("end2", s.end2(&cfg), s.offset2 as f32 * d + s.items_count as f32 * d)] {
        ck!(g == e, "{}", w(n, g, e));
        ck!(g >= 0.0 && g.is_finite(), "{}", w(n, g, e));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ pipeline
fn preset(k: u64) -> Configuration { match k { 0 => Configuration::preset_test1(), 1 => Configuration::preset_test2(), 2 => Configuration::preset_test3(), 3 => Configuration::preset_test4(), _ => Configuration::preset_test5() } }
fn gen_cfg(i: u64, r: &mut Rng) -> Configuration {
    if r.chance(3) { return preset(i % 5); }
    // small frames make many fingerprint items from few samples
    let f = r.pick(&[16usize, 64, 100, 256, 1000]);
    let o = r.pick(&[0, 1, f / 2, f - f / 3, f - 1]);
    let o = if f > 300 { f / 2 } else { o };
    preset(i % 5).with_frame_size(f).with_frame_overlap(o).with_interpolation(r.chance(2))
}
fn gen_audio(r: &mut Rng, n: usize) -> Vec<i16> {
    let m = r.range(0, 4);
    let (f1, f2) = (r.f() * 0.5, r.f() * 0.1);
    (0..n).map(|k| match m { 0 => r.u32() as i16, 1 => (((k as f64 * f1).sin() + (k as f64 * f2).cos()) * 15000.0) as i16, 2 => if r.chance(2) { i16::MAX } else { i16::MIN }, 3 => ((k as f64 * f1 * (1.0 + k as f64 * 1e-5)).sin() * 30000.0) as i16 ^ (r.u32() & 0xff) as i16, _ => if (k / 1000) % 2 == 0 { 0 } else { r.u32() as i16 / 4 } }).collect()
}
fn run(cfg: &Configuration, rate: u32, ch: u32, data: &[i16]) -> Vec<u32> { let mut p = Fingerprinter::new(cfg); p.start(rate, ch).unwrap(); p.consume(data); p.finish(); p.fingerprint().to_vec() }
fn gen_rate(r: &mut Rng) -> u32 { if r.chance(2) { 11025 } else { r.pick(&[8000u32, 16000, 22050, 44100, 48000, 1001, 96000, 11024, 11026]) } }
fn cuts(r: &mut Rng, frames: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = frames;
    let style = r.range(0, 4);
    while left > 0 { let n = match style { 0 => 1 + r.range(0, 40), 1 => r.range(0, left), 2 => r.pick(&[0usize, 1, 32767, 32768, 32769, 100]), 3 => r.pick(&[4096usize, 1365, 2731, 0, 1]), _ => r.range(0, 2000) }.min(left); v.push(n); left -= n; }
    if style == 0 && v.len() > 20000 { v = vec![frames]; }
    v.push(0);
    v
}
fn stream_len(r: &mut Rng, cfg: &Configuration) -> usize {
    let hop = verif_cfg::hop(cfg);
    match r.range(0, 6) { 0 => r.range(0, 40), 1 => 32768 * r.range(1, 3) + r.pick(&[0usize, 1, 2]) - r.pick(&[0usize, 1]), 2 => hop * r.range(1, 60), 3 => r.range(0, 70000), 4 => r.range(30000, 140000), _ => hop * r.range(20, 45) + r.range(0, 20) }.min(300000)
}
mod verif_cfg { use crate::fingerprinter::verif as v; pub fn hop(c: &crate::Configuration) -> usize { v::frame_size(c) - v::frame_overlap(c) } }
pub fn c07(i: u64, r: &mut Rng) -> R {
    // now and then a long stream with the original frame sizes, consumed in large pieces
    let long = i % 96 == 5;
    let cfg = if long { preset(i % 5) } else { gen_cfg(i, r) };
    let rate = if long && i == 5 { 11025 } else { gen_rate(r) };
    let ch = r.pick(&[1u32, 1, 2, 2, 3, 6]);
    let n = if long { r.range(1_060_000, 1_300_000) / ch as usize } else { stream_len(r, &cfg) / if ch > 2 { 2 } else { 1 } };
    let data = gen_audio(r, n * ch as usize);
    let one = run(&cfg, rate, ch, &data);
    for _ in 0..if long { 1 } else { 2 } {
        let cs = if long { let h = r.range(1, n); vec![h, n - h] } else { cuts(r, n) };
        let mut p = Fingerprinter::new(&cfg); p.start(rate, ch).unwrap();
        let mut pos = 0;
        for c in &cs { let e = pos + c * ch as usize; p.consume(&data[pos..e]); pos = e; }
        p.finish();
        ck!(p.fingerprint() == &one[..], "preset {} rate {} channels {} frames {} cut as {}: {} items {} instead of {} items {}", cfg.id(), rate, ch, n, short(&cs), p.fingerprint().len(), short(p.fingerprint()), one.len(), short(&one));
    }
    Ok(())
}
pub fn c08(i: u64, r: &mut Rng) -> R {
    let cfg = gen_cfg(i, r);
    let mut p = Fingerprinter::new(&cfg);
    let mut hist = vec![];
    for _ in 0..r.range(1, 3) {
        let (rate, ch) = (gen_rate(r), r.pick(&[1u32, 2, 3]));
        let n = stream_len(r, &cfg) / 2;
        p.start(rate, ch).unwrap();
        ck!(p.fingerprint().is_empty(), "preset {}: {} items right after start (history {:?})", cfg.id(), p.fingerprint().len(), hist);
        let a = gen_audio(r, n * ch as usize);
        let half = n / 2 * ch as usize;
        p.consume(&a[..half]); p.consume(&a[half..]);
        let fin = r.chance(2);
        if fin { p.finish(); }
        hist.push((rate, ch, n, fin));
    }
    if r.chance(4) { let _ = p.start(0, 0); hist.push((0, 0, 0, false)); }
    let (rate, ch) = (gen_rate(r), r.pick(&[1u32, 2]));
    let n = stream_len(r, &cfg);
    let data = gen_audio(r, n * ch as usize);
    let want = run(&cfg, rate, ch, &data);
    p.start(rate, ch).unwrap();
    ck!(p.fingerprint().is_empty(), "preset {}: {} items right after start (history {:?})", cfg.id(), p.fingerprint().len(), hist);
    p.consume(&data); p.finish();
    ck!(p.fingerprint() == &want[..], "preset {} restarted after {:?} (rate, channels, frames, finished) with rate {} channels {} frames {}: {} items {} instead of {} items {}", cfg.id(), hist, rate, ch, n, p.fingerprint().len(), short(p.fingerprint()), want.len(), short(&want));
    Ok(())
}
pub fn c09(i: u64, r: &mut Rng) -> R {
    let ch = match i { 0..=7 => i as usize + 1, 8 => 70000, 9 => 65537, _ => if r.chance(3) { r.range(3, 1200) } else { r.pick(&[1usize, 2, 2, 3, 4, 5, 6, 8, 17, 49, 255, 1000]) } };
    let n = if r.chance(4) { 32768 + r.range(0, 4) - 2 } else { r.range(0, 500) };
    let n = if ch > 60000 { 2 } else if ch > 100 { n.min(300) } else { n };
    let ext = if i == 8 { 1 } else { r.range(0, 8) };
    let common = r.u32() as i16;
    let data: Vec<i16> = (0..n * ch).map(|_| match ext { 5 => i16::MAX - r.range(0, 3) as i16, 6 => i16::MIN + r.range(0, 3) as i16, 7 => common, 0 => i16::MAX, 1 => i16::MIN, 2 => r.pick(&[i16::MIN, i16::MAX, -1, 0, 1]), 3 => r.range(0, 6) as i16 - 3, _ => r.u32() as i16 }).collect();
    let want: Vec<i64> = data.chunks_exact(ch).map(|f| f.iter().map(|&x| x as i64).sum::<i64>() / ch as i64).collect();
    let rec = RecA::new();
    let mut p = audio_processor::AudioProcessor::new(11025, rec.clone());
    p.reset(11025, ch as u32).map_err(|e| format!("reset failed: {:?}", e))?;
    let cs = cuts(r, n);
    let mut pos = 0;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { for c in &cs { let e = pos + c * ch; p.consume(&data[pos..e]); pos = e; } p.flush(); }));
    ck!(res.is_ok(), "mixing panics: {} channels, frames {}, samples {}", ch, n, short(&data));
    let got = rec.all();
    ck!(got.len() == want.len(), "{} channels, {} frames cut as {}: {} samples passed on", ch, n, short(&cs), got.len());
    for k in 0..n { let e = want[k] as f64 / 32767.0; ck!((got[k] - e).abs() <= 1e-12, "{} channels: frame {} {} gives {} expected {} (= {}/32767)", ch, k, short(&data[k * ch..k * ch + ch]), got[k], e, want[k]); }
    // same fingerprint as the mixed mono stream, also with resampling
    if i % 16 == 9 && ch <= 8 {
        let cfg = preset(1).with_frame_size(64).with_frame_overlap(32);
        let mono: Vec<i16> = want.iter().map(|&x| x as i16).collect();
        let rate = gen_rate(r);
        let (x, y) = (run(&cfg, rate, ch as u32, &data), run(&cfg, rate, 1, &mono));
        ck!(x == y, "{} channels at {} Hz: fingerprint {} but mono gives {}", ch, rate, short(&x), short(&y));
    }
    Ok(())
}
pub fn c10(i: u64, r: &mut Rng) -> R {
    let rates = [0u32, 1, 999, 1000, 1001, 8000, 11024, 11025, 11026, 44100, 192000, 999, 1000];
    let rate = if i < 26 { rates[i as usize % 13] } else { match r.range(0, 3) { 0 => r.range(0, 2000) as u32, 1 => r.range(990, 1010) as u32, _ => r.range(0, 400000) as u32 } };
    let ch = if i < 13 { 1 } else if i < 26 { 0 } else { r.pick(&[0u32, 0, 1, 2, 3, 100, u32::MAX]) };
    let cfg = preset(i % 5).with_frame_size(64).with_frame_overlap(32);
    let (brate, bch) = (gen_rate(r), r.pick(&[1u32, 2]));
    let mut p = Fingerprinter::new(&cfg);
    let mut q = Fingerprinter::new(&cfg);
    let started = !r.chance(5);
    let n = r.range(0, 5000);
    let a = gen_audio(r, n * bch as usize);
    if started { p.start(brate, bch).unwrap(); q.start(brate, bch).unwrap(); p.consume(&a); q.consume(&a); }
    let res = p.start(rate, ch);
    let got = match &res { Ok(()) => 0, Err(ResetError::NoChannels) => 1, Err(ResetError::SampleRateTooLow) => 2, Err(ResetError::CannotResample(_)) => 3 };
    let want = if ch == 0 { 1 } else if rate <= 1000 { 2 } else { 0 };
    let names = ["success", "NoChannels", "SampleRateTooLow", "CannotResample"];
    ck!(got == want, "start({}, {}) gives {} instead of {}", rate, ch, names[got], names[want]);
    if want != 0 && started {
        let m = r.range(0, 40000) * bch as usize; let b = gen_audio(r, m);
        ck!(p.fingerprint() == q.fingerprint(), "start({}, {}) failed but changed the fingerprint", rate, ch);
        p.consume(&b); q.consume(&b); p.finish(); q.finish();
        ck!(p.fingerprint() == q.fingerprint(), "start({}, {}) failed but the stream in progress (rate {}, channels {}, {} frames before) does not continue", rate, ch, brate, bch, n);
    }
    Ok(())
}
fn max_width(cfg: &Configuration) -> usize { fingerprinter::verif::classifiers(cfg).iter().map(|c| c.filter().width()).max().unwrap() }
pub fn c11(i: u64, r: &mut Rng) -> R {
    use fingerprinter::verif as v;
    let cfg = gen_cfg(i, r);
    let (fs, ov) = (v::frame_size(&cfg), v::frame_overlap(&cfg));
    let hop = fs - ov;
    let need = v::coefficients(&cfg).len() + max_width(&cfg) - 1;
    let n = if r.chance(3) { fs + hop * (need - 1 + r.range(0, 3)) - r.range(0, 1) } else { stream_len(r, &cfg) }.min(250000);
    let mut data = gen_audio(r, n);
    let frames = if n < fs { 0 } else { (n - fs) / hop + 1 };
    let want = (frames + 1).saturating_sub(need);
    let full = run(&cfg, 11025, 1, &data);
    let w = || format!("preset {} frame {} overlap {} samples {}", cfg.id(), fs, ov, n);
    ck!(full.len() == want, "{}: {} items instead of {}", w(), full.len(), want);
    if want > 0 {
        // prefix property
        let m = r.range(0, n);
        let part = run(&cfg, 11025, 1, &data[..m]);
        ck!(part.len() <= full.len() && part[..] == full[..part.len()], "{}: the first {} samples alone give {} but all give {}", w(), m, short(&part), short(&full));
        // items before the window of a changed sample do not change; item k starts at sample k*hop
        let k = r.range(0, want - 1);
        let (lo, hi) = (k * hop, k * hop + (need - 1) * hop + fs);
        for j in 0..n { if j < lo || j >= hi { data[j] = r.u32() as i16; } }
        let ch = run(&cfg, 11025, 1, &data);
        // (the integral image accumulates in floating point, so an item right at a threshold may differ; compare with tolerance of two bits)
        ck!(ch.len() == full.len() && (ch[k] ^ full[k]).count_ones() <= 2, "{}: item {} changes from {:08x} to {:08x} when only samples outside [{}, {}) change", w(), k, full[k], ch[k], lo, hi);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C12..C14
use crate::filter::Image as _;
pub fn c12(i: u64, r: &mut Rng) -> R {
    let maxr = match i { 0..=7 => i as usize + 1, _ => r.pick(&[1usize, 2, 3, 5, 16, 255]) };
    let cols = r.pick(&[1usize, 2, 3, 5, 12]);
    let mut im = rolling_image::RollingIntegralImage::new(maxr);
    let mut rows: Vec<Vec<f64>> = vec![];
    let total = if i == 9 || i == 10 { 66_000 + r.range(0, 600) } else if maxr == 255 { r.range(1, 1200) } else { r.range(1, maxr * 7) };
    let zeros = r.chance(3);
    let mut steps = 0;
    let mag = if i < 16 { 1.0 } else { r.pick(&[1.0, 1.0, 1e-9, 1e-4, 1e5, 1e12]) };
    // full mantissas in half of the images, multiples of an eighth (exact sums) in the others
    let fine = r.chance(2);
    let mut tot = 0.0;
    if r.chance(3) { let oc = r.range(1, 13); for _ in 0..r.range(1, 2 * maxr) { im.add_row(&vec![7.5f64; oc]); } im.reset(); ck!(im.rows() == 0, "rows() is {} after reset", im.rows()); }
    for _ in 0..total {
        let row: Vec<f64> = (0..cols).map(|_| if zeros && r.chance(2) { 0.0 } else if fine { (r.f() * 250.0 - 125.0) * mag } else { (r.range(0, 2000) as f64 - 1000.0) / 8.0 * mag }).collect();
        tot += row.iter().map(|x| x.abs()).sum::<f64>();
        im.add_row(&row);
        rows.push(row);
        ck!(im.rows() == rows.len(), "{} rows added, rows() is {}", rows.len(), im.rows());
        if (maxr > 50 || total > 60_000) && !r.chance(40) && rows.len() < total { continue; }
        for _ in 0..4 {
            let lo = if rows.len() > maxr + 1 { rows.len() - maxr } else { 0 };
            let (a, b) = (r.range(lo, rows.len()), r.range(lo, rows.len()));
            let (c, d) = (r.range(0, cols), r.range(0, cols));
            let (r1, r2, c1, c2) = (a.min(b), a.max(b), c.min(d), c.max(d));
            let want: f64 = (r1..r2).map(|y| (c1..c2).map(|x| rows[y][x]).sum::<f64>()).sum();
            let w = format!("image({}) with {} columns after {} rows: area({}, {}, {}, {})", maxr, cols, rows.len(), r1, c1, r2, c2);
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| im.area(r1, c1, r2, c2))).map_err(|_| format!("{} panics", w))?;
            ck!((got - want).abs() <= 1e-12 * tot, "{} is {} instead of {}", w, got, want);
            steps += 1;
        }
    }
    let _ = steps;
    Ok(())
}
struct Cells { w: usize, h: usize, v: Vec<f64> }
impl filter::Image for Cells { fn area(&self, r1: usize, c1: usize, r2: usize, c2: usize) -> f64 { assert!(r1 <= r2 && r2 <= self.w && c1 <= c2 && c2 <= self.h, "area out of range"); (r1..r2).map(|x| (c1..c2).map(|y| self.v[x * self.h + y]).sum::<f64>()).sum() } }
/// membership of a cell in the positive region; None outside the rectangle
fn positive(kind: u8, dx: usize, dy: usize, w: usize, h: usize) -> bool {
    match kind { 0 => true, 1 => dy >= h / 2, 2 => dx >= w / 2, 3 => (dx >= w / 2) != (dy >= h / 2), 4 => dy >= h / 3 && dy < 2 * (h / 3), _ => dx >= w / 3 && dx < 2 * (w / 3) }
}
fn ref_filter(kind: u8, im: &Cells, x: usize, y: usize, w: usize, h: usize) -> (f64, f64) {
    let (mut a, mut b) = (0.0, 0.0);
    for dx in 0..w { for dy in 0..h { let v = im.v[(x + dx) * im.h + y + dy]; if positive(kind, dx, dy, w, h) { a += v } else { b += v } } }
    (a, b)
}
fn sub(a: f64, b: f64) -> f64 { a - 3.0 * b }
pub fn c13(i: u64, r: &mut Rng) -> R {
    let kind = (i % 6) as u8;
    let (iw, ih) = (r.range(1, 18), r.range(1, 12));
    let im = Cells { w: iw, h: ih, v: (0..iw * ih).map(|_| r.range(0, 1 << 20) as f64 / 64.0).collect() };
    let (w, h) = (r.range(1, iw), r.range(1, ih));
    let (x, y) = (r.range(0, iw - w), r.range(0, ih - h));
    let (a, b) = ref_filter(kind, &im, x, y, w, h);
    let d = format!("filter{} at x={} y={} w={} h={} on a {}x{} image", kind, x, y, w, h, iw, ih);
    let go = |f: &dyn Fn() -> f64| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| format!("{} panics", d));
    let got = go(&|| filter::verif::raw(kind, &im, x, y, w, h, sub))?;
    ck!(close(got, sub(a, b), a + b), "{}: {} instead of the comparison of {} and {}", d, got, a, b);
    let f = filter::Filter::new(filter::verif::kind(kind), y, h, w);
    let got = go(&|| f.apply(&im, x))?;
    ck!(close(got, ((1.0 + a) / (1.0 + b)).ln(), 1.0), "{}: apply gives {} instead of ln((1+{})/(1+{}))", d, got, a, b);
    ck!(f.width() == w, "{}: width() is {}", d, f.width());
    let (p, q) = (r.f() * 10.0, r.f() * 10.0);
    ck!(close(filter::verif::cmp_log(p, q), ((1.0 + p) / (1.0 + q)).ln(), 1.0), "comparison of {} and {}", p, q);
    Ok(())
}
pub fn c14(i: u64, r: &mut Rng) -> R {
    // quantizer
    let mut t: Vec<f64> = (0..3).map(|_| r.pick(&[0.0, -0.0, 0.25, -1.5, 1e-300, 3.0, -7.25, 1e300]) + if r.chance(2) { r.f() } else { 0.0 }).collect();
    t.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let q = quantize::Quantizer::new(t[0], t[1], t[2]);
    for v in [t[0], t[1], t[2], r.f(), -r.f(), r.f() * 20.0 - 10.0, f64::MIN, f64::MAX, f64::from_bits(t[0].to_bits().wrapping_sub(1)), f64::from_bits(t[1].to_bits().wrapping_add(1)), f64::INFINITY, f64::NEG_INFINITY] {
        if v.is_nan() { continue; }
        let want = t.iter().filter(|&&x| v >= x).count() as u32;
        ck!(q.quantize(v) == want, "quantize({}) with thresholds {:?} is {} instead of {}", v, t, q.quantize(v), want);
    }
    // whole items
    let nc = r.range(1, 16);
    let spec: Vec<(u8, usize, usize, usize, [f64; 3])> = (0..nc).map(|_| { let h = r.range(1, 12); let mut t = [r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0]; t.sort_by(|a, b| a.partial_cmp(b).unwrap()); (r.range(0, 5) as u8, r.range(0, 12 - h), h, r.range(1, if i % 9 == 0 { 255 } else { 12 }), t) }).collect();
    let cs: Vec<classifier::Classifier> = spec.iter().map(|s| classifier::Classifier::new(filter::Filter::new(filter::verif::kind(s.0), s.1, s.2, s.3), quantize::Quantizer::new(s.4[0], s.4[1], s.4[2]))).collect();
    let mw = spec.iter().map(|s| s.3).max().unwrap();
    let mut fc = fingerprint_calculator::FingerprintCalculator::new(cs);
    let n = mw + r.range(0, 20) + if r.chance(10) { 300 } else { 0 };
    let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..12).map(|_| r.f()).collect()).collect();
    for x in &rows { fc.consume(x); }
    let out: &[u32] = fc.output();
    ck!(out.len() == n + 1 - mw, "{} feature rows, widest classifier {}: {} items", n, mw, out.len());
    let im = Cells { w: n, h: 12, v: rows.concat() };
    for (k, &item) in out.iter().enumerate() {
        for (c, s) in spec.iter().enumerate() {
            let (a, b) = ref_filter(s.0, &im, k, s.1, s.3, s.2);
            let v = ((1.0 + a) / (1.0 + b)).ln();
            if s.4.iter().any(|t| (t - v).abs() < 1e-7) { continue; }
            let q = s.4.iter().filter(|&&t| v >= t).count();
            let want = [0u32, 1, 3, 2][q];
            let got = (item >> (2 * (nc - 1 - c))) & 3;
            ck!(got == want, "item {} of {}: classifier {} of {} (filter{} y={} h={} w={} thresholds {:?}, value {}) gives bits {:02b} instead of {:02b}", k, n, c, nc, s.0, s.1, s.2, s.3, s.4, v, got, want);
        }
        if nc < 16 { ck!(item >> (2 * nc) == 0, "item {:08x} has bits beyond its {} classifiers", item, nc); }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C15..C18
fn mirror(mut k: i64, n: i64) -> usize { loop { if k < 0 { k = -k - 1; } else if k >= n { k = 2 * n - 1 - k; } else { return k as usize; } } }
fn ref_box(x: &[f64], w: usize) -> Vec<f64> { let (n, wl) = (x.len() as i64, (w / 2) as i64); (0..n).map(|i| (0..w as i64).map(|k| x[mirror(i - wl + k, n)]).sum::<f64>() / w as f64).collect() }
pub fn c15(i: u64, r: &mut Rng) -> R {
    let n = if i < 40 { (i % 20) as usize } else { r.range(0, 120) };
    // values of both signs and of every magnitude; tolerances are relative to it
    let mag = if i < 60 { 1.0 } else { r.pick(&[1.0, 1.0, 1e-12, 1e-6, 0.015, 300.0, 1e7, 1e15]) };
    let neg = i >= 40 && r.chance(2);
    let x: Vec<f64> = (0..n).map(|_| (r.range(0, 64) as f64 - if neg { 32.0 } else { 0.0 }) / 2.0 * mag).collect();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-7 * mag;
    let w = if r.chance(2) { r.range(1, 9) } else { r.range(1, 60) };
    let mut out = vec![-1.0; n];
    let d = format!("width {} on {}", w, short(&x));
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gaussian::verif::boxf(&x, &mut out, w))).map_err(|_| format!("smoothing pass panics: {}", d))?;
    let want = ref_box(&x, w);
    for k in 0..n { ck!(near(out[k], want[k]), "smoothing pass {}: value {} is {} instead of {}", d, k, out[k], want[k]); }
    let sigma = if r.chance(3) { r.f() * 40.0 + 0.05 } else { r.pick(&[0.5, 1.0, 1.6, 2.0, 3.3, 8.0, 8.0, 12.5]) };
    let np = if r.chance(4) { r.range(1, 40) } else { r.range(1, 6) };
    let ideal = (12.0 * sigma * sigma / np as f64 + 1.0f64).sqrt().floor() as usize;
    let wl = if ideal % 2 == 0 { ideal - 1 } else { ideal };
    let f = wl as f64;
    let m = ((12.0 * sigma * sigma - np as f64 * f * f - 4.0 * np as f64 * f - 3.0 * np as f64) / (-4.0 * f - 4.0)).round() as usize;
    let mut a = x.clone();
    for p in 0..np { a = ref_box(&a, if p < m { wl } else { wl + 2 }); }
    let mut inp = x.clone();
    let mut o2 = vec![-5.0; n];
    gaussian::gaussian_filter(&mut inp, &mut o2, sigma, np);
    for k in 0..n { ck!(near(o2[k], a[k]), "gaussian(sigma {}, {} passes) of {}: value {} is {} instead of {}", sigma, np, short(&x), k, o2[k], a[k]); }
    let mut g = vec![];
    gradient::gradient(x.iter().copied(), &mut g);
    ck!(g.len() == n, "gradient of {} has {} values", short(&x), g.len());
    for k in 0..n { let e = if n == 1 { 0.0 } else if k == 0 { x[1] - x[0] } else if k == n - 1 { x[n - 1] - x[n - 2] } else { (x[k + 1] - x[k - 1]) / 2.0 }; ck!(near(g[k], e), "gradient of {}: value {} is {} instead of {}", short(&x), k, g[k], e); }
    Ok(())
}
pub fn c16(i: u64, r: &mut Rng) -> R {
    let (fs, rate, lo, hi) = match i % 4 { 0 => (4096usize, 11025u32, 28u32, 3520u32), 1 => (2048, 11025, 28, 3520), 2 => (256, 1000, 10, 510), _ => { let lo = r.range(0, 2000) as u32; (r.range(2, 6000), r.range(1001, 50000) as u32, lo, lo + r.range(0, 4000) as u32) } };
    let inter = r.chance(2);
    let rec = RecF::new();
    let mut c = chroma::Chroma::new(lo, hi, fs, rate, rec.clone()).with_interpolation(inter);
    let len = 1 + fs / 2;
    let idx = |f: u32| (fs as f64 * f as f64 / rate as f64).round() as usize;
    let (a, b) = (idx(lo).max(1), idx(hi).min(fs / 2));
    let style = r.range(0, 3);
    for _ in 0..2 {
        let one = r.range(0, len - 1);
        let mag = if i < 16 { 1.0 } else { r.pick(&[1.0, 1e-12, 1e-7, 1e-3, 1e4, 1e12, 1e18]) };
        let fr: Vec<f64> = (0..len).map(|k| mag * match style { 0 => if k == one { 1.0 } else { 0.0 }, 1 => if k + 2 >= a && k <= a + 2 || k + 2 >= b && k <= b + 2 { 1.0 + k as f64 } else { 0.0 }, _ => r.f() * 10.0 }).collect();
        let before = rec.rows().len();
        c.consume(&fr);
        let rows = rec.rows();
        ck!(rows.len() == before + 1, "one spectrum gave {} feature rows", rows.len() - before);
        let got = rows.last().unwrap();
        let d = format!("frame size {} rate {} range {}..{} Hz interpolate {}", fs, rate, lo, hi, inter);
        let mut want = [0.0f64; 12];
        let mut fuzzy = 0.0;
        for k in a..b {
            let freq = k as f64 * rate as f64 / fs as f64;
            let oct = (freq / 27.5).log2();
            let note = 12.0 * (oct - oct.floor());
            let (n, f) = (note.floor() as usize % 12, note - note.floor());
            if f < 1e-9 || f > 1.0 - 1e-9 || (f - 0.5).abs() < 1e-9 { fuzzy += fr[k]; }
            if inter { let (n2, w) = if f < 0.5 { ((n + 11) % 12, 0.5 + f) } else if f > 0.5 { ((n + 1) % 12, 1.5 - f) } else { (n, 1.0) }; want[n] += fr[k] * w; want[n2] += fr[k] * (1.0 - w); } else { want[n] += fr[k]; }
        }
        let total: f64 = if a < b { fr[a..b].iter().sum() } else { 0.0 };
        let sum: f64 = got.iter().sum();
        ck!(got.len() == 12 && (sum - total).abs() <= 1e-9 * total, "{}: bands sum to {} but the energy in range is {}", d, sum, total);
        for k in 0..12 { ck!((got[k] - want[k]).abs() <= 1e-9 * total + fuzzy, "{}: band {} is {} instead of {} (spectrum style {} line {})", d, k, got[k], want[k], style, one); }
    }
    // the setting of the configuration reaches the stage: interpolated and plain configurations give what the parts give
    if i % 32 == 5 {
        for on in [false, true] {
            let cfg = Configuration::preset_test2().with_interpolation(on).with_frame_size(512).with_frame_overlap(256);
            let data: Vec<i16> = (0..256 * 40).map(|k| (((k as f64 * 0.13).sin() + (k as f64 * 0.031).sin()) * 14000.0) as i16).collect();
            let whole = run(&cfg, 11025, 1, &data);
            let calc = fingerprint_calculator::FingerprintCalculator::new(fingerprinter::verif::classifiers(&cfg).to_vec());
            let filt = chroma_filter::ChromaFilter::new(fingerprinter::verif::coefficients(&cfg).to_vec().into_boxed_slice(), chroma_normalizer::ChromaNormalizer::new(calc));
            let mut fft = fft::Fft::new(512, 256, chroma::Chroma::new(28, 3520, 512, 11025, filt).with_interpolation(on));
            fft.consume(&data.iter().map(|&x| x as f64 / 32767.0).collect::<Vec<_>>());
            ck!(fft.output() == &whole[..], "configuration with interpolation {}: fingerprint {} but the stages give {}", on, short(&whole), short(fft.output()));
        }
    }
    Ok(())
}
pub fn c17(i: u64, r: &mut Rng) -> R {
    let n = if i < 8 { i as usize + 1 } else { r.range(1, 8) };
    let coef: Vec<f64> = (0..n).map(|_| r.range(0, 64) as f64 / 8.0 - 4.0).collect();
    let rec = RecF::new();
    let mut f = chroma_filter::ChromaFilter::new(coef.clone().into_boxed_slice(), rec.clone());
    let mut rows: Vec<Vec<f64>> = vec![];
    let mut resets = 0;
    let mag = if i < 16 { 1.0 } else { r.pick(&[1.0, 1.0, 1e-9, 1e-3, 1e6, 1e15]) };
    let steps = if i == 20 { 70_000 } else if i % 500 == 21 { 9000 } else { r.range(1, 60) };
    for _ in 0..steps {
        if r.chance(if steps > 60 { 100_000 } else { 25 }) { f.reset(); rows.clear(); resets += 1; ck!(rec.resets() == resets, "reset not passed on"); continue; }
        let row: Vec<f64> = (0..12).map(|_| (r.range(0, 256) as f64 / 4.0 - 30.0) * mag).collect();
        let before = rec.count();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.consume(&row))).map_err(|_| format!("filter with {} coefficients panics at row {}", n, rows.len() + 1))?;
        rows.push(row);
        let after = rec.count();
        let d = format!("{} coefficients {:?}, row {}", n, coef, rows.len());
        let exp = if rows.len() >= n { 1 } else { 0 };
        ck!(after == before + exp, "{}: {} output rows", d, after as isize - before as isize);
        if exp == 1 { let o = rec.last(); ck!(o.len() == 12, "{}: {} bands", d, o.len()); for b in 0..12 { let want: f64 = (0..n).map(|j| rows[rows.len() - n + j][b] * coef[j]).sum(); ck!((o[b] - want).abs() <= 1e-9 * mag * 1000.0, "{}: band {} is {} instead of {}", d, b, o[b], want); } }
    }
    Ok(())
}
pub fn c18(i: u64, r: &mut Rng) -> R {
    let n = 12;
    let scale = r.pick(&[1.0, 1e-3, 0.002886, 1e3, 1e-160, 1e100, 1e152, 1e-20, 1.0, 0.01, 0.0]);
    let mut v: Vec<f64> = (0..n).map(|_| (r.f() * 2.0 - if r.chance(2) { 0.0 } else { 1.0 }) * scale).collect();
    if r.chance(3) { let t = r.f(); for x in v.iter_mut() { if r.f() < t { *x = 0.0; } } }
    if i < 12 { v = vec![0.0; n]; v[i as usize] = [0.0, 0.01, 0.0099, 1.0, -0.01, 0.0101, -5.0, 0.009, 0.011, -0.0099, 1e-9, 3.0][i as usize]; }
    let norm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if !norm.is_finite() { return Ok(()); }
    let rec = RecF::new();
    let mut c = chroma_normalizer::ChromaNormalizer::new(rec.clone());
    c.consume(&v);
    let rows = rec.rows();
    ck!(rows.len() == 1 && rows[0].len() == n, "normalizing {:?}: {} rows", v, rows.len());
    let o = &rows[0];
    let d = format!("input {:?} of norm {}", v, norm);
    for k in 0..n { ck!(!o[k].is_nan(), "{}: component {} is NaN", d, k); }
    let zero = o.iter().all(|&x| x == 0.0);
    if (norm - 0.01).abs() > 1e-12 { ck!(zero == (norm < 0.01), "{}: output {:?}", d, o); }
    if !zero { for k in 0..n { ck!((o[k] - v[k] / norm).abs() < 1e-9, "{}: component {} is {} instead of {}", d, k, o[k], v[k] / norm); } }
    // other lengths and bounds
    let m = r.range(1, 20); let eps = r.pick(&[0.01, 0.5, 1e-6]);
    let mut u: Vec<f64> = (0..m).map(|_| r.f() * 2.0 * eps).collect(); let u0 = u.clone();
    let un = u.iter().map(|x| x * x).sum::<f64>().sqrt();
    if (un - eps).abs() > 1e-12 { chroma_normalizer::verif::norm(&mut u, eps); for k in 0..m { let e = if un < eps { 0.0 } else { u0[k] / un }; ck!((u[k] - e).abs() < 1e-9, "normalize({:?}, {}) gives {:?}", u0, eps, u); } }
    Ok(())
}
// ------------------------------------------------------------------------------------------------ C19
pub fn c19(i: u64, r: &mut Rng) -> R {
    use fingerprinter::verif as v;
    if i < 5 {
        let c = preset(i);
        ck!(c.id() == i as u8, "preset {} has id {}", i, c.id());
        let cl = v::classifiers(&c);
        ck!(cl.len() == 16, "preset {} has {} classifiers", i, cl.len());
        let dbg = format!("{:?}", cl);
        let qs: Vec<Vec<f64>> = dbg.split("Quantizer").skip(1).map(|s| ["t0: ", "t1: ", "t2: "].iter().filter_map(|k| { let p = s.find(k)? + k.len(); let e = s[p..].find(|c: char| c == ',' || c == ' ' || c == '}')? + p; s[p..e].parse().ok() }).collect()).collect();
        for q in &qs { ck!(q.len() != 3 || (q[0] <= q[1] && q[1] <= q[2]), "preset {}: thresholds {:?} not ascending", i, q); }
        for x in cl { let (_, y, h, w) = filter::verif::parts(x.filter()); ck!(w >= 1 && h >= 1 && y + h <= 12 && w <= 255, "preset {}: rectangle y={} h={} w={} does not fit", i, y, h, w); }
        ck!(v::frame_overlap(&c) < v::frame_size(&c), "preset {}: overlap {} frame {}", i, v::frame_overlap(&c), v::frame_size(&c));
        ck!((1..=8).contains(&v::coefficients(&c).len()), "preset {}: {} coefficients", i, v::coefficients(&c).len());
        let n = v::frame_size(&c) + 25 * (v::frame_size(&c) - v::frame_overlap(&c));
        let a = gen_audio(r, n);
        let fp = std::panic::catch_unwind(|| run(&c, 11025, 1, &a)).map_err(|_| format!("fingerprinting with preset {} panics", i))?;
        ck!(!fp.is_empty(), "preset {}: no items from {} samples", i, n);
    }
    let mut c = preset(i % 5);
    if i >= 10 {
        let e = r.range(1, 16); let f = r.range(1, 1 << e); c = c.with_frame_size(f).with_frame_overlap(r.range(0, f - 1));
        if r.chance(2) { c = c.with_coefficients(vec![1.0; r.range(1, 8)]); }
        if r.chance(2) { let cs = (0..r.range(1, 20)).map(|_| classifier::Classifier::new(filter::Filter::new(filter::verif::kind(0), 0, 1, r.range(1, 255)), quantize::Quantizer::new(0.0, 1.0, 2.0))).collect(); c = c.with_classifiers(cs); }
        if r.chance(3) { c = c.with_removed_silence(r.u32()); }
        if r.chance(3) { let (a, b) = (r.u32() as u8, r.chance(2)); c = c.with_id(a).with_interpolation(b); ck!(c.id() == a && v::interpolate(&c) == b, "with_id/with_interpolation not stored"); }
    }
    let (f, o) = (v::frame_size(&c), v::frame_overlap(&c));
    let hop = f - o;
    let want = (((v::coefficients(&c).len() - 1) + (max_width(&c) - 1)) * hop) + o;
    ck!(c.delay() == want, "frame {} overlap {} coefficients {} widest {}: delay {} instead of {}", f, o, v::coefficients(&c).len(), max_width(&c), c.delay(), want);
    ck!(c.sample_rate() == 11025, "sample rate {}", c.sample_rate());
    let e = hop as f32 / 11025f32;
    ck!(c.item_duration_in_seconds() == e, "frame {} overlap {}: item duration {} instead of {}", f, o, c.item_duration_in_seconds(), e);
    Ok(())
}

pub fn case(prop: &str, i: u64, seed: u64) -> R {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
    let f: fn(u64, &mut Rng) -> R = match prop {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11,
        "C12" => c12, "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => c17, "C18" => c18, "C19" => c19, "C20" => c20,
        _ => return Err(format!("unknown property {}", prop)),
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, &mut r))) {
        Ok(x) => x,
        Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); Err(format!("panic: {}", m)) }
    }
}
