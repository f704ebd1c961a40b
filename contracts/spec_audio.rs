// ---- the resampler of the rubato crate: a deterministic state machine (TRUSTED; asynchro_sinc.rs of rubato 0.16.2)
pub enum SincInterpolationType { Cubic, Quadratic, Linear, Nearest }
pub enum WindowFunction { Blackman, Blackman2, BlackmanHarris, BlackmanHarris2, Hann, Hann2 }
pub struct SincInterpolationParameters { pub sinc_len: usize, pub f_cutoff: Real, pub oversampling_factor: usize, pub interpolation: SincInterpolationType, pub window: WindowFunction }
#[verifier::external_body] pub struct ResamplerConstructionError { x: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct ResampleError { x: u8 }
#[verifier::external_body] pub struct RsState { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SincFixedIn<T> { x: Option<T> }
pub uninterp spec fn rs_init(ratio: real, rel: real, p: SincInterpolationParameters, chunk: nat) -> RsState;
// the number of samples the next step reads, and its maximum
pub uninterp spec fn rs_chunk(s: RsState) -> nat;
pub uninterp spec fn rs_max(s: RsState) -> nat;
pub uninterp spec fn rs_set(s: RsState, n: nat) -> RsState;
pub uninterp spec fn rs_next(s: RsState, x: Seq<Real>) -> RsState;
pub uninterp spec fn rs_out(s: RsState, x: Seq<Real>) -> Seq<Real>;
pub uninterp spec fn rs_room(s: RsState) -> nat;
pub spec const OUT_MAX: int = 0x10_0000;
impl SincFixedIn<Real> {
    pub uninterp spec fn st(&self) -> RsState;
    // the state it was created in
    pub uninterp spec fn st0(&self) -> RsState;
    #[verifier::external_body] pub fn new(ratio: Real, rel: Real, p: SincInterpolationParameters, chunk: usize, ch: usize) -> (r: Result<SincFixedIn<Real>, ResamplerConstructionError>)
        requires 0real < ratio@ < 12real, rel@ == 1real, 1 <= chunk <= 0x1_0000, ch == 1
        ensures r matches Ok(s) && s.st() == rs_init(ratio@, rel@, p, chunk as nat) && s.st0() == s.st() && rs_chunk(s.st()) == chunk && rs_max(s.st()) == chunk { unimplemented!() }
    #[verifier::external_body] pub fn input_frames_next(&self) -> (r: usize) ensures r == rs_chunk(self.st()) { unimplemented!() }
    #[verifier::external_body] pub fn output_frames_next(&self) -> (r: usize) ensures r == rs_room(self.st()), r <= OUT_MAX { unimplemented!() }
    #[verifier::external_body] pub fn output_frames_max(&self) -> (r: usize) ensures r <= OUT_MAX { unimplemented!() }
    #[verifier::external_body] pub fn set_chunk_size(&mut self, n: usize) -> (r: Result<(), ResampleError>)
        ensures final(self).st0() == old(self).st0(), 1 <= n <= rs_max(old(self).st()) ==> r is Ok && final(self).st() == rs_set(old(self).st(), n as nat) && rs_chunk(final(self).st()) == n && rs_max(final(self).st()) == rs_max(old(self).st()),
            !(1 <= n <= rs_max(old(self).st())) ==> r is Err && final(self).st() == old(self).st() { unimplemented!() }
    #[verifier::external_body] pub fn process_into_buffer(&mut self, wave_in: &[&[Real]; 1], wave_out: &mut [Vec<Real>], mask: Option<&[bool]>) -> (r: Result<(usize, usize), ResampleError>)
        requires mask is None, old(wave_out)@.len() == 1
        ensures final(wave_out)@.len() == 1, final(self).st0() == old(self).st0(), ({ let s = old(self).st(); let c = rs_chunk(s); let x = wave_in@[0]@.take(c as int); let o = old(wave_out)@[0]@; let o2 = final(wave_out)@[0]@;
            wave_in@[0]@.len() >= c && o.len() >= rs_room(s) ==> {
                &&& r matches Ok(p) && p.0 == c && p.1 == rs_out(s, x).len() && p.1 <= o.len() && o2.len() == o.len() && o2.take(p.1 as int) == rs_out(s, x) && p.1 <= OUT_MAX
                &&& final(self).st() == rs_next(s, x) && rs_chunk(final(self).st()) == c && rs_max(final(self).st()) == rs_max(s)
            } }) { unimplemented!() }
}
pub assume_specification<T> [ std::slice::from_mut::<T> ] (s: &mut T) -> (r: &mut [T])
    ensures r@.len() == 1, r@[0] == *old(s), final(r)@.len() == 1, *final(s) == final(r)@[0];

// ---- mixing, scaling, blocks
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn isum(s: Seq<i16>, n: int) -> int decreases n { if n <= 0 { 0 } else { isum(s, n - 1) + s[n - 1] } }
// sum of a frame over its channels divided by their number, truncated toward zero
pub open spec fn mixed(f: Seq<i16>) -> i16 { tdiv(isum(f, f.len() as int), f.len() as int) as i16 }
pub open spec fn mono(x: Seq<i16>, ch: int) -> Seq<i16> { Seq::new((x.len() as int / ch) as nat, |k: int| mixed(x.subrange(k * ch, k * ch + ch))) }
pub open spec fn scaled(m: Seq<i16>) -> Seq<Real> { Seq::new(m.len(), |i: int| mk(r_div(m[i] as int as real, 32767real))) }
// one full block of samples, and the last one, through the resampler when there is one
pub open spec fn fwd(s: Option<RsState>, x: Seq<Real>) -> (Option<RsState>, Seq<Real>) { match s { None => (None, x), Some(q) => (Some(rs_next(q, x)), rs_out(q, x)) } }
pub open spec fn fwd_end(s: Option<RsState>, x: Seq<Real>) -> Seq<Real> { match s { None => x, Some(q) => rs_out(rs_set(q, x.len()), x) } }
// what the first k blocks of b samples each give, and the state of the resampler after them
pub open spec fn blocks(s0: Option<RsState>, m: Seq<i16>, b: int, k: int) -> (Option<RsState>, Seq<Real>) decreases k
{ if k <= 0 { (s0, Seq::empty()) } else { let p = blocks(s0, m, b, k - 1); let f = fwd(p.0, scaled(m.subrange((k - 1) * b, (k - 1) * b + b))); (f.0, p.1 + f.1) } }
// everything passed on for the stream m when it ends
pub open spec fn passed(s0: Option<RsState>, m: Seq<i16>, b: int) -> Seq<Real> {
    let p = blocks(s0, m, b, m.len() as int / b);
    let tail = m.skip((m.len() as int / b) * b);
    if tail.len() == 0 { p.1 } else { p.1 + fwd_end(p.0, scaled(tail)) }
}
pub proof fn lemma_blocks_prefix(s0: Option<RsState>, m: Seq<i16>, d: Seq<i16>, b: int, k: int)
    requires k * b <= m.len(), b >= 1
    ensures blocks(s0, m, b, k) == blocks(s0, m + d, b, k)
    decreases k
{
    if k > 0 {
        assert(k * b == (k - 1) * b + b) by(nonlinear_arith);
        assert((k - 1) * b >= 0) by(nonlinear_arith) requires k >= 1, b >= 1;
        lemma_blocks_prefix(s0, m, d, b, k - 1);
        assert((m + d).subrange((k - 1) * b, (k - 1) * b + b) =~= m.subrange((k - 1) * b, (k - 1) * b + b));
    }
}
// without a resampler every sample is passed on exactly once, in order, scaled
pub proof fn lemma_passed_all(m: Seq<i16>, b: int, k: int)
    requires b >= 1, 0 <= k, k * b <= m.len()
    ensures blocks(None, m, b, k).0 is None, blocks(None, m, b, k).1 == scaled(m.take(k * b))
    decreases k
{
    if k > 0 {
        assert(k * b == (k - 1) * b + b) by(nonlinear_arith);
        assert((k - 1) * b >= 0) by(nonlinear_arith) requires k >= 1, b >= 1;
        lemma_passed_all(m, b, k - 1);
        assert(scaled(m.take(k * b)) =~= scaled(m.take((k - 1) * b)) + scaled(m.subrange((k - 1) * b, (k - 1) * b + b)));
    } else { assert(k * b == 0) by(nonlinear_arith) requires k == 0; assert(scaled(m.take(0)) =~= Seq::<Real>::empty()); }
}
pub proof fn theorem_passed(m: Seq<i16>, b: int) requires b >= 1 ensures passed(None, m, b) == scaled(m) {
    let k = m.len() as int / b;
    lemma_fundamental_div_mod(m.len() as int, b);
    lemma_mod_bound(m.len() as int, b);
    assert(k >= 0) by(nonlinear_arith) requires m.len() as int == b * k + m.len() as int % b, 0 <= m.len() as int % b < b, b >= 1;
    assert(k * b == b * k) by(nonlinear_arith);
    lemma_passed_all(m, b, k);
    assert(scaled(m) =~= scaled(m.take(k * b)) + scaled(m.skip(k * b)));
    if m.skip(k * b).len() == 0 { assert(m.take(k * b) =~= m); }
}
pub proof fn lemma_isum_bound(f: Seq<i16>, n: int) requires 0 <= n <= f.len() ensures -32768 * n <= isum(f, n) <= 32767 * n decreases n { if n > 0 { lemma_isum_bound(f, n - 1); } }
pub proof fn lemma_mixed_range(f: Seq<i16>) requires f.len() >= 1 ensures -32768 <= tdiv(isum(f, f.len() as int), f.len() as int) <= 32767, mixed(f) as int == tdiv(isum(f, f.len() as int), f.len() as int) {
    let (s, n) = (isum(f, f.len() as int), f.len() as int);
    lemma_isum_bound(f, n);
    if s >= 0 {
        lemma_fundamental_div_mod(s, n); lemma_mod_bound(s, n);
        assert(0 <= s / n <= 32767) by(nonlinear_arith) requires s == n * (s / n) + s % n, 0 <= s % n < n, 0 <= s <= 32767 * n, n >= 1;
    } else {
        lemma_fundamental_div_mod(-s, n); lemma_mod_bound(-s, n);
        assert(0 <= (-s) / n <= 32768) by(nonlinear_arith) requires -s == n * ((-s) / n) + (-s) % n, 0 <= (-s) % n < n, 0 <= -s <= 32768 * n, n >= 1;
    }
}
// mono of whole frames distributes over concatenation
pub proof fn lemma_mono_cat(x: Seq<i16>, d: Seq<i16>, ch: int) requires ch >= 1, x.len() % (ch as nat) == 0
    ensures mono(x + d, ch) == mono(x, ch) + mono(d, ch)
{
    let q = x.len() as int / ch; let e = d.len() as int / ch;
    lemma_fundamental_div_mod(x.len() as int, ch);
    lemma_fundamental_div_mod(d.len() as int, ch);
    lemma_mod_bound(d.len() as int, ch);
    assert(x.len() + d.len() == (q + e) * ch + d.len() as int % ch) by(nonlinear_arith) requires x.len() as int == ch * q, d.len() as int == ch * e + d.len() as int % ch;
    lemma_fundamental_div_mod_converse(x.len() as int + d.len() as int, ch, q + e, d.len() as int % ch);
    assert(e >= 0) by(nonlinear_arith) requires d.len() as int == ch * e + d.len() as int % ch, d.len() as int % ch < ch, d.len() >= 0, ch >= 1;
    assert(q >= 0) by(nonlinear_arith) requires x.len() as int == ch * q, ch >= 1, x.len() >= 0;
    assert forall|k: int| 0 <= k < q + e implies #[trigger] mono(x + d, ch)[k] == (mono(x, ch) + mono(d, ch))[k] by {
        assert(k * ch >= 0) by(nonlinear_arith) requires k >= 0, ch >= 1;
        assert(ch * q == q * ch) by(nonlinear_arith);
        if k < q {
            assert(k * ch + ch <= q * ch) by(nonlinear_arith) requires k <= q - 1, ch >= 1;
            assert((x + d).subrange(k * ch, k * ch + ch) =~= x.subrange(k * ch, k * ch + ch));
        } else {
            assert(k * ch == q * ch + (k - q) * ch) by(nonlinear_arith);
            assert((k - q) * ch >= 0) by(nonlinear_arith) requires k - q >= 0, ch >= 1;
            assert((k - q) * ch + ch <= ch * e) by(nonlinear_arith) requires k - q <= e - 1, ch >= 1;
            assert((x + d).subrange(k * ch, k * ch + ch) =~= d.subrange((k - q) * ch, (k - q) * ch + ch));
        }
    }
    assert(mono(x + d, ch) =~= mono(x, ch) + mono(d, ch));
}
pub proof fn lemma_div_nonneg(n: int, b: int) requires n >= 0, b >= 1 ensures 0 <= n / b, 0 <= (n / b) * b <= n, n - (n / b) * b < b
{
    lemma_fundamental_div_mod(n, b);
    lemma_mod_bound(n, b);
    let q = n / b;
    assert(q * b == b * q) by(nonlinear_arith);
    assert(q >= 0) by(nonlinear_arith) requires n == b * q + n % b, n % b < b, n >= 0, b >= 1;
    assert(q * b >= 0) by(nonlinear_arith) requires q >= 0, b >= 1;
}
pub proof fn lemma_weight(n: int, off: int, aw: int) requires 0 <= n <= OUT_MAX || 0 <= n <= off, off >= 1, aw >= 1 ensures 0 <= n * aw <= off * (OUT_MAX * aw), 0 * (OUT_MAX * aw) == 0
{
    assert(0 <= n * aw) by(nonlinear_arith) requires n >= 0, aw >= 1;
    assert(n <= off * OUT_MAX) by(nonlinear_arith) requires n <= OUT_MAX || n <= off, off >= 1;
    assert(n * aw <= (off * OUT_MAX) * aw) by(nonlinear_arith) requires n <= off * OUT_MAX, aw >= 1;
    assert((off * OUT_MAX) * aw == off * (OUT_MAX * aw)) by(nonlinear_arith);
}
pub proof fn lemma_load_weight(a: int, off: int, off2: int, n: int, w: int, i0: int, t: int, len: int)
    requires off <= off2, off2 - off <= n, w >= 1, 0 <= n, i0 + n <= len, 0 <= a + off * w <= t + i0 * w, t + len * w < SEEN_MAX
    ensures 0 <= a + off2 * w <= t + (i0 + n) * w < SEEN_MAX
{
    assert(off2 * w == off * w + (off2 - off) * w) by(nonlinear_arith);
    assert(0 <= (off2 - off) * w <= n * w) by(nonlinear_arith) requires 0 <= off2 - off <= n, w >= 1;
    assert((i0 + n) * w == i0 * w + n * w) by(nonlinear_arith);
    assert((i0 + n) * w <= len * w) by(nonlinear_arith) requires i0 + n <= len, w >= 1;
}
impl vstd::std_specs::convert::FromSpecImpl<ResamplerConstructionError> for ResetError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: ResamplerConstructionError) -> Self { arbitrary() } }
// the resampler that a stream of the given rate gets
pub open spec fn fresh_rs(target: u32, rate: u32) -> Option<RsState> {
    if target == rate { None } else { Some(rs_init(r_div(target as int as real, rate as int as real), 1real,
        SincInterpolationParameters { sinc_len: 16, f_cutoff: mk(8real / 10real), oversampling_factor: 128, interpolation: SincInterpolationType::Nearest, window: WindowFunction::Blackman }, MAX_BUFFER_SIZE as nat)) }
}
