// ---- the fingerprint of a stream as a function of the configuration, rate, channels and samples
pub type Inner = Fft<Chroma<ChromaFilter<ChromaNormalizer<FingerprintCalculator>>>>;
pub ghost struct FpConf { pub fs: int, pub inc: int, pub coef: Seq<real>, pub cls: Seq<Classifier>, pub interp: bool }
pub open spec fn conf_of(c: &Configuration) -> FpConf { FpConf { fs: c.frame_size as int, inc: c.frame_size - c.frame_overlap, coef: rvs(c.filter_coefficients@), cls: c.classifiers@, interp: c.interpolate } }
pub open spec fn the_fold(fs: int, interp: bool) -> Fold {
    let r = DEFAULT_SAMPLE_RATE as int;
    Fold { interp, lo: first_line(MIN_FREQ as int, fs, r), hi: end_line(MAX_FREQ as int, fs, r), notes: Seq::new(fs as nat, |i: int| pitch(line_freq(i, fs, r)).floor() as u8), fracs: Seq::new(fs as nat, |i: int| pitch(line_freq(i, fs, r)) - pitch(line_freq(i, fs, r)).floor() as real) }
}
pub open spec fn fp_samples(rate: u32, ch: int, x: Seq<i16>) -> Seq<Real> { passed(fresh_rs(DEFAULT_SAMPLE_RATE, rate), mono(x, ch), MAX_BUFFER_SIZE as int) }
pub open spec fn fp_rows(k: FpConf, s: Seq<real>) -> Seq<Seq<real>> { norm_rows(filt_rows(k.coef, fold_rows(the_fold(k.fs, k.interp), rows_of(s, k.fs, k.inc)))) }
pub open spec fn fp_items(k: FpConf, s: Seq<real>) -> Seq<u32> { items_of(k.cls, fp_rows(k, s)) }
pub open spec fn fp_of(k: FpConf, rate: u32, ch: int, x: Seq<i16>) -> Seq<u32> { fp_items(k, rvs(fp_samples(rate, ch, x))) }
pub open spec fn same_line(f: Fold, g: Fold, i: int) -> bool { f.notes[i] == g.notes[i] && f.fracs[i] == g.fracs[i] }
pub open spec fn same_lines(f: Fold, g: Fold, end: int) -> bool { forall|i: int| f.lo <= i < end ==> #[trigger] same_line(f, g, i) }
pub proof fn lemma_band_eq(f: Fold, g: Fold, s: Seq<real>, b: int, end: int)
    requires f.lo == g.lo, f.interp == g.interp, same_lines(f, g, end)
    ensures band(f, s, b, end) == band(g, s, b, end) decreases end - f.lo
{ if end > f.lo { lemma_band_eq(f, g, s, b, end - 1); assert(same_line(f, g, end - 1)); } }
pub proof fn lemma_the_fold(f: Fold, fs: int, h: Seq<Seq<real>>)
    requires fold_for(f, MIN_FREQ as int, MAX_FREQ as int, fs, DEFAULT_SAMPLE_RATE as int), fold_ok(f), fs >= 0
    ensures fold_rows(f, h) == fold_rows(the_fold(fs, f.interp), h)
{
    let g = the_fold(fs, f.interp);
    let r = DEFAULT_SAMPLE_RATE as int;
    assert forall|i: int| f.lo <= i < f.hi implies #[trigger] same_line(f, g, i) by { lemma_pitch_range(line_freq(i, fs, r)); assert(f.notes[i] < 12); assert(g.notes[i] == f.notes[i]); assert(g.fracs[i] == f.fracs[i]); }
    assert forall|k: int| 0 <= k < h.len() implies #[trigger] fold_rows(f, h)[k] == fold_rows(g, h)[k] by {
        assert forall|b: int| 0 <= b < 12 implies band(f, h[k], b, fold_end(f, h[k])) == band(g, h[k], b, fold_end(f, h[k])) by { lemma_band_eq(f, g, h[k], b, fold_end(f, h[k])); }
        assert(fold_row(f, h[k]) =~= fold_row(g, h[k]));
    }
    assert(fold_rows(f, h) =~= fold_rows(g, h));
}

// ---- C07, C08: whatever happened before start, and however the samples are cut, the result is fp_of(configuration, rate, channels, samples)
pub open spec fn cat(p: Seq<Vec<i16>>, n: int) -> Seq<i16> decreases n { if n <= 0 { Seq::empty() } else { cat(p, n - 1) + p[n - 1]@ } }
pub proof fn lemma_cat_len(p: Seq<Vec<i16>>, n: int, m: int) requires 0 <= n <= m ensures cat(p, n).len() <= cat(p, m).len() decreases m { if n < m { lemma_cat_len(p, n, m - 1); } }
fn theorem_chunks(c: &Configuration, fp: &mut Fingerprinter, rate: u32, ch: u32, pieces: &Vec<Vec<i16>>)
    requires conf_ok(c), old(fp).inv(), old(fp).is_for(conf_of(c)), rate > 1000, ch >= 1,
        forall|i: int| 0 <= i < pieces@.len() ==> (#[trigger] pieces@[i])@.len() % (ch as nat) == 0, cat(pieces@, pieces@.len() as int).len() * OUT_MAX < SEEN_MAX,
    ensures final(fp).inv(), final(fp).is_for(conf_of(c)), final(fp).items() == fp_of(conf_of(c), rate, ch as int, cat(pieces@, pieces@.len() as int)),
{
    let ghost k = conf_of(c);
    let r = fp.start(rate, ch);
    proof { fp.lemma_started(k, rate, ch); lemma_small_mod(0, ch as nat); }
    let mut i: usize = 0;
    while i < pieces.len()
        invariant i <= pieces@.len(), fp.inv(), fp.is_for(k), ch >= 1, fp.stream(rate, ch, cat(pieces@, i as int)), 0 <= fp.work() <= cat(pieces@, i as int).len() * OUT_MAX,
            cat(pieces@, pieces@.len() as int).len() * OUT_MAX < SEEN_MAX, forall|j: int| 0 <= j < pieces@.len() ==> (#[trigger] pieces@[j])@.len() % (ch as nat) == 0,
        decreases pieces@.len() - i
    {
        let p = &pieces[i];
        proof {
            assert(cat(pieces@, i + 1) == cat(pieces@, i as int) + pieces@[i as int]@);
            lemma_cat_len(pieces@, i + 1, pieces@.len() as int);
            let (a, b, t) = (cat(pieces@, i as int).len() as int, p@.len() as int, cat(pieces@, pieces@.len() as int).len() as int);
            assert(a * OUT_MAX + b * OUT_MAX == (a + b) * OUT_MAX && (a + b) * OUT_MAX <= t * OUT_MAX) by(nonlinear_arith) requires a + b <= t;
        }
        fp.consume(p.as_slice());
        i = i + 1;
    }
    fp.finish();
    proof { fp.lemma_done(k, rate, ch, cat(pieces@, pieces@.len() as int)); }
}
// C08: a restarted fingerprinter and a new one of the same configuration end with the same fingerprint
fn theorem_restart(c: &Configuration, used: &mut Fingerprinter, rate: u32, ch: u32, x: &Vec<i16>) -> (n: Fingerprinter)
    requires conf_ok(c), old(used).inv(), old(used).is_for(conf_of(c)), rate > 1000, ch >= 1, x@.len() % (ch as nat) == 0, x@.len() * OUT_MAX < SEEN_MAX,
    ensures final(used).items() == n.items()
{
    let r = used.start(rate, ch);
    proof { used.lemma_started(conf_of(c), rate, ch); assert(used.items().len() == 0); assert(Seq::<i16>::empty() + x@ =~= x@); }
    used.consume(x.as_slice());
    used.finish();
    proof { used.lemma_done(conf_of(c), rate, ch, x@); }
    let mut n = Fingerprinter::new(c);
    let r2 = n.start(rate, ch);
    n.consume(x.as_slice());
    n.finish();
    proof { n.lemma_done(conf_of(c), rate, ch, x@); }
    n
}
// ---- C09: a multi-channel stream gives the result of its mono mix
pub proof fn theorem_mix(k: FpConf, rate: u32, ch: int, x: Seq<i16>) requires ch >= 1 ensures fp_of(k, rate, ch, x) == fp_of(k, rate, 1, mono(x, ch))
{
    let m = mono(x, ch);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] mono(m, 1)[i] == m[i] by {
        let f = m.subrange(i * 1, i * 1 + 1);
        reveal_with_fuel(isum, 2);
        assert(f.len() == 1 && isum(f, 1) == f[0]);
        assert((-(f[0] as int)) / 1 == -(f[0] as int) && (f[0] as int) / 1 == f[0] as int);
        assert(mixed(f) == f[0]);
    }
    assert(mono(m, 1) =~= m);
}
// at the target rate every mixed sample is passed on exactly once, in order, scaled
pub proof fn theorem_direct(ch: int, x: Seq<i16>) ensures fp_samples(DEFAULT_SAMPLE_RATE, ch, x) == scaled(mono(x, ch)) { theorem_passed(mono(x, ch), MAX_BUFFER_SIZE as int); }
// ---- C11: the number of items, and the samples each one depends on
pub open spec fn kok(k: FpConf) -> bool { cls_wf(k.cls) && k.coef.len() >= 1 && 1 <= k.inc <= k.fs }
pub open spec fn count(k: FpConf, n: int) -> int { let a = frame_count(n, k.fs, k.inc) - (k.coef.len() - 1) - (max_width(k.cls) - 1); if a > 0 { a } else { 0 } }
pub proof fn theorem_count(k: FpConf, ch: int, x: Seq<i16>) requires kok(k), ch >= 1 ensures fp_of(k, DEFAULT_SAMPLE_RATE, ch, x).len() == count(k, x.len() as int / ch)
{
    theorem_direct(ch, x);
    lemma_max_width_pos(k.cls);
    lemma_div_nonneg(x.len() as int, ch);
    lemma_count(k, rvs(scaled(mono(x, ch))));
}
pub proof fn lemma_count(k: FpConf, s: Seq<real>) requires kok(k) ensures fp_items(k, s).len() == count(k, s.len() as int), frame_count(s.len() as int, k.fs, k.inc) >= 0
{ lemma_taken_start(s, k.fs, k.inc); lemma_max_width_pos(k.cls); }
// item i of the fingerprint of s is a function of the samples from i*inc up to the end of its last frame
pub open spec fn span_end(k: FpConf, i: int) -> int { (i + max_width(k.cls) - 1 + k.coef.len() - 1) * k.inc + k.fs }
pub proof fn lemma_fold_row_local(k: FpConf, s: Seq<real>, t: Seq<real>, r: int, o: int)
    requires kok(k), 0 <= o <= r, 0 <= r < frame_count(s.len() as int, k.fs, k.inc), r - o < frame_count(t.len() as int, k.fs, k.inc), frame(s, k.fs, k.inc, r) == frame(t, k.fs, k.inc, r - o)
    ensures fold_rows(the_fold(k.fs, k.interp), rows_of(s, k.fs, k.inc))[r] == fold_rows(the_fold(k.fs, k.interp), rows_of(t, k.fs, k.inc))[r - o]
{ }
pub proof fn lemma_wsum_rows(c: Seq<real>, g: Seq<Seq<real>>, h: Seq<Seq<real>>, a: int, b: int, band: int, m: int)
    requires forall|j: int| 0 <= j < m ==> g[a + j] == #[trigger] h[b + j]
    ensures wsum(c, g, a, band, m) == wsum(c, h, b, band, m) decreases m
{ if m > 0 { lemma_wsum_rows(c, g, h, a, b, band, m - 1); assert(g[a + (m - 1)] == h[b + (m - 1)]); } }
// two streams that agree on the span of item i agree on the item
pub proof fn theorem_span(k: FpConf, s: Seq<real>, t: Seq<real>, i: int)
    requires kok(k), 0 <= i < fp_items(k, s).len(), i < fp_items(k, t).len(), forall|p: int| i * k.inc <= p < span_end(k, i) ==> s[p] == #[trigger] t[p]
    ensures fp_items(k, s)[i] == fp_items(k, t)[i], span_end(k, i) <= s.len()
{
    lemma_count(k, s); lemma_count(k, t); lemma_max_width_pos(k.cls);
    let w = max_width(k.cls);
    let c = k.coef.len() as int;
    let (fs, inc) = (k.fs, k.inc);
    let f = the_fold(fs, k.interp);
    let (g, h) = (fold_rows(f, rows_of(s, fs, inc)), fold_rows(f, rows_of(t, fs, inc)));
    lemma_taken_start(s, fs, inc); lemma_taken_start(t, fs, inc);
    let last = i + w - 1 + c - 1;
    assert forall|r: int| i <= r <= last implies g[r] == #[trigger] h[r] by {
        assert(i * inc <= r * inc) by(nonlinear_arith) requires i <= r, inc >= 1;
        assert(r * inc <= last * inc) by(nonlinear_arith) requires r <= last, inc >= 1;
        assert(r * inc >= 0) by(nonlinear_arith) requires r >= 0, inc >= 1;
        let (ns, nt) = (frame_count(s.len() as int, fs, inc), frame_count(t.len() as int, fs, inc));
        assert(r * inc <= (ns - 1) * inc) by(nonlinear_arith) requires r <= ns - 1, inc >= 1;
        assert(r * inc <= (nt - 1) * inc) by(nonlinear_arith) requires r <= nt - 1, inc >= 1;
        assert(frame(s, fs, inc, r) =~= frame(t, fs, inc, r)) by {
            assert forall|q: int| 0 <= q < fs implies frame(s, fs, inc, r)[q] == frame(t, fs, inc, r)[q] by { assert(s[r * inc + q] == t[r * inc + q]); }
        }
    }
    let (fg, fh) = (filt_rows(k.coef, g), filt_rows(k.coef, h));
    assert forall|q: int| 0 <= q < w implies norm_rows(fg).subrange(i, i + w)[q] == #[trigger] norm_rows(fh).subrange(i, i + w)[q] by {
        let r = i + q;
        assert forall|b: int| 0 <= b < 12 implies wsum(k.coef, g, r, b, c) == wsum(k.coef, h, r, b, c) by {
            assert forall|j: int| 0 <= j < c implies g[r + j] == #[trigger] h[r + j] by { }
            lemma_wsum_rows(k.coef, g, h, r, r, b, c);
        }
        assert(filt_row(k.coef, g, r) =~= filt_row(k.coef, h, r));
        assert(fg[r] == fh[r]);
    }
    assert(norm_rows(fg).subrange(i, i + w) =~= norm_rows(fh).subrange(i, i + w));
    assert(last * inc <= (frame_count(s.len() as int, fs, inc) - 1) * inc) by(nonlinear_arith) requires last <= frame_count(s.len() as int, fs, inc) - 1, inc >= 1;
}
// more audio only appends items
pub proof fn theorem_append(k: FpConf, s: Seq<real>, d: Seq<real>) requires kok(k)
    ensures fp_items(k, s).len() <= fp_items(k, s + d).len(), fp_items(k, s + d).take(fp_items(k, s).len() as int) == fp_items(k, s)
{
    let (n, m) = (s.len() as int, (s + d).len() as int);
    lemma_count(k, s); lemma_count(k, s + d);
    lemma_max_width_pos(k.cls);
    lemma_taken_start(s, k.fs, k.inc); lemma_taken_start(s + d, k.fs, k.inc);
    if n >= k.fs { assert(frame_count(n, k.fs, k.inc) <= frame_count(m, k.fs, k.inc)) by { lemma_div_is_ordered(n - k.fs, m - k.fs, k.inc); } }
    assert forall|i: int| 0 <= i < fp_items(k, s).len() implies #[trigger] fp_items(k, s + d)[i] == fp_items(k, s)[i] by {
        theorem_span(k, s, s, i);
        assert forall|p: int| i * k.inc <= p < span_end(k, i) implies s[p] == #[trigger] (s + d)[p] by { assert(i * k.inc >= 0) by(nonlinear_arith) requires i >= 0, k.inc >= 1; }
        theorem_span(k, s, s + d, i);
    }
    assert(fp_items(k, s + d).take(fp_items(k, s).len() as int) =~= fp_items(k, s));
}
// leftover samples that complete no frame change nothing
pub proof fn theorem_leftover(k: FpConf, s: Seq<real>, d: Seq<real>) requires kok(k), frame_count((s + d).len() as int, k.fs, k.inc) == frame_count(s.len() as int, k.fs, k.inc)
    ensures fp_items(k, s + d) == fp_items(k, s)
{ lemma_count(k, s); lemma_count(k, s + d); theorem_append(k, s, d); assert(fp_items(k, s + d).take(fp_items(k, s).len() as int) =~= fp_items(k, s + d)); }
