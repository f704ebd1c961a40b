// ---- the discrete Fourier transform of the rustfft crate: an uninterpreted function of its input (TRUSTED)
pub struct Complex<T> { pub re: T, pub im: T }
pub type Complex64 = Complex<Real>;
impl Copy for Complex<Real> {}
impl Clone for Complex<Real> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Complex<Real> {
    pub fn new(re: Real, im: Real) -> (r: Self) ensures r == (Complex { re, im }) { Complex { re, im } }
    #[verifier::external_body] pub fn zero() -> (r: Self) ensures r.re@ == 0real, r.im@ == 0real { unimplemented!() }
    #[verifier::external_body] pub fn norm_sqr(&self) -> (r: Real) ensures r@ == r_mul(self.re@, self.re@) + r_mul(self.im@, self.im@) { unimplemented!() }
}
pub open spec fn cviews(s: Seq<Complex<Real>>) -> Seq<(real, real)> { Seq::new(s.len(), |i: int| (s[i].re@, s[i].im@)) }
pub uninterp spec fn dft(s: Seq<(real, real)>) -> Seq<(real, real)>;
#[verifier::external_body] pub struct FftPlan { x: u8 }
impl FftPlan {
    pub uninterp spec fn size(&self) -> nat;
    pub uninterp spec fn scratch(&self) -> nat;
    #[verifier::external_body] pub fn get_inplace_scratch_len(&self) -> (r: usize) ensures r == self.scratch() { unimplemented!() }
    #[verifier::external_body] pub fn process_with_scratch(&self, buf: &mut [Complex<Real>], scratch: &mut [Complex<Real>])
        requires old(buf)@.len() == self.size(), old(scratch)@.len() >= self.scratch()
        ensures final(buf)@.len() == old(buf)@.len(), final(scratch)@.len() == old(scratch)@.len(), cviews(final(buf)@) == dft(cviews(old(buf)@)) { unimplemented!() }
}
#[verifier::external_body] pub struct FftPlanner { x: u8 }
impl FftPlanner {
    // a planner that has planned something else may choose another algorithm, whose results differ in the last bits
    pub uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fresh() { unimplemented!() }
    #[verifier::external_body] pub fn plan_fft_forward(&mut self, n: usize) -> (r: FftPlan) requires old(self).fresh() ensures r.size() == n { unimplemented!() }
}
// ---- the Hamming window, the power spectrum of one frame, and the frames of a stream
pub open spec fn hamming(n: int, i: int) -> real { shamming(1real, n, i) }
pub open spec fn shamming(sc: real, n: int, i: int) -> real { r_mul(sc, 54real / 100real - r_mul(46real / 100real, r_cos(r_div(r_mul(r_mul(2real, r_pi()), i as real), n as real - 1real)))) }
pub open spec fn hwin(s: Seq<Real>, sc: real, n: int, k: int) -> bool { s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i])@ == shamming(sc, n, i) }
pub open spec fn windowed(x: Seq<real>) -> Seq<(real, real)> { Seq::new(x.len(), |i: int| (r_mul(x[i], hamming(x.len() as int, i)), 0real)) }
// lines 0 .. n/2 - 1 are the power spectrum; the line n/2 is always reported as 0
pub open spec fn spectrum(x: Seq<real>) -> Seq<real> { Seq::new((1 + x.len() / 2) as nat, |i: int| if i < x.len() / 2 { r_mul(dft(windowed(x))[i].0, dft(windowed(x))[i].0) + r_mul(dft(windowed(x))[i].1, dft(windowed(x))[i].1) } else { 0real }) }
// number of complete frames of size fs in n samples when consecutive frames start `inc` apart
pub open spec fn frame_count(n: int, fs: int, inc: int) -> int { if n < fs { 0 } else { (n - fs) / inc + 1 } }
pub open spec fn frame(x: Seq<real>, fs: int, inc: int, k: int) -> Seq<real> { x.subrange(k * inc, k * inc + fs) }
pub open spec fn spectra(x: Seq<real>, fs: int, inc: int, m: int) -> Seq<Seq<real>> { Seq::new(m as nat, |k: int| spectrum(frame(x, fs, inc, k))) }
// the rows of a stream: the spectra of its complete frames, samples after the last complete frame ignored
pub open spec fn rows_of(x: Seq<real>, fs: int, inc: int) -> Seq<Seq<real>> { spectra(x, fs, inc, frame_count(x.len() as int, fs, inc)) }
// m frames have been taken from y and the rest starts at m * inc
pub open spec fn taken(y: Seq<real>, ring: Seq<real>, fs: int, inc: int, m: int) -> bool {
    &&& 0 <= m && 0 <= m * inc <= y.len() && ring == y.skip(m * inc)
    &&& m >= 1 ==> (m - 1) * inc + fs <= y.len()
}
pub proof fn lemma_taken_end(y: Seq<real>, ring: Seq<real>, fs: int, inc: int, m: int)
    requires taken(y, ring, fs, inc, m), ring.len() < fs, 1 <= inc <= fs
    ensures m == frame_count(y.len() as int, fs, inc)
{
    let n = y.len() as int;
    if m == 0 { assert(0 * inc == 0); }
    else {
        assert((m - 1) * inc == m * inc - inc) by(nonlinear_arith);
        let r = n - fs - (m - 1) * inc;
        assert(0 <= r < inc);
        assert(n - fs == (m - 1) * inc + r);
        lemma_fundamental_div_mod_converse(n - fs, inc, m - 1, r);
    }
}
pub proof fn lemma_taken_start(x: Seq<real>, fs: int, inc: int) requires 1 <= inc <= fs
    ensures ({ let m = frame_count(x.len() as int, fs, inc); 0 <= m && 0 <= m * inc <= x.len() && (m >= 1 ==> (m - 1) * inc + fs <= x.len()) && x.len() - m * inc < fs })
{
    let n = x.len() as int;
    let m = frame_count(n, fs, inc);
    if n >= fs {
        lemma_fundamental_div_mod(n - fs, inc);
        lemma_mod_bound(n - fs, inc);
        let q = (n - fs) / inc;
        assert(q >= 0) by(nonlinear_arith) requires q * inc + (n - fs) % inc == n - fs, (n - fs) % inc < inc, n >= fs, inc >= 1;
        assert(inc * q == q * inc) by(nonlinear_arith);
        assert((q + 1) * inc == q * inc + inc) by(nonlinear_arith);
        assert(q * inc >= 0) by(nonlinear_arith) requires q >= 0, inc >= 1;
    } else { assert(0 * inc == 0); }
}
pub proof fn lemma_taken_step(y: Seq<real>, ring: Seq<real>, ring2: Seq<real>, fs: int, inc: int, m: int)
    requires taken(y, ring, fs, inc, m), ring.len() >= fs, 1 <= inc <= fs, ring2 == ring.skip(inc)
    ensures taken(y, ring2, fs, inc, m + 1), ring.take(fs) == frame(y, fs, inc, m), spectra(y, fs, inc, m + 1) == spectra(y, fs, inc, m).push(spectrum(ring.take(fs)))
{
    assert((m + 1) * inc == m * inc + inc) by(nonlinear_arith);
    assert(ring2 =~= y.skip((m + 1) * inc));
    assert(ring.take(fs) =~= frame(y, fs, inc, m));
    assert(spectra(y, fs, inc, m + 1) =~= spectra(y, fs, inc, m).push(spectrum(ring.take(fs))));
}
// the first m frames of a stream do not depend on what follows
pub proof fn lemma_spectra_prefix(x: Seq<real>, y: Seq<real>, fs: int, inc: int, m: int)
    requires x.len() <= y.len(), x == y.take(x.len() as int), 0 <= m, inc >= 1, fs >= 1, m >= 1 ==> (m - 1) * inc + fs <= x.len()
    ensures spectra(x, fs, inc, m) == spectra(y, fs, inc, m)
{
    assert forall|k: int| 0 <= k < m implies #[trigger] frame(x, fs, inc, k) == frame(y, fs, inc, k) by {
        assert(k * inc + fs <= (m - 1) * inc + fs) by(nonlinear_arith) requires k <= m - 1, inc >= 1;
        assert(k * inc >= 0) by(nonlinear_arith) requires k >= 0, inc >= 1;
        assert(frame(x, fs, inc, k) =~= frame(y, fs, inc, k));
    }
    assert(spectra(x, fs, inc, m) =~= spectra(y, fs, inc, m));
}

pub proof fn lemma_stream_append(x: Seq<Real>, d: Seq<Real>, ring: Seq<Real>, ring2: Seq<Real>, fs: int, inc: int, m: int)
    requires taken(rvs(x), rvs(ring), fs, inc, m), ring2 == ring + d, 1 <= inc <= fs
    ensures taken(rvs(x + d), rvs(ring2), fs, inc, m), spectra(rvs(x), fs, inc, m) == spectra(rvs(x + d), fs, inc, m)
{
    let y = rvs(x + d);
    assert(rvs(x) =~= y.take(x.len() as int));
    assert(rvs(ring2) =~= rvs(ring) + rvs(d));
    assert(y =~= rvs(x) + rvs(d));
    assert(y.skip(m * inc) =~= rvs(x).skip(m * inc) + rvs(d));
    lemma_spectra_prefix(rvs(x), y, fs, inc, m);
}
