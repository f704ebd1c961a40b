// ---- pitch classes (C16)
// position within the octave of a frequency, in [0, 12)
pub open spec fn octave_of(freq: real) -> real { r_log2(r_div(freq, r_div(440real, 16real))) }
pub open spec fn pitch(freq: real) -> real { r_mul(12real, octave_of(freq) - octave_of(freq).floor() as real) }
pub open spec fn line_freq(i: int, fs: int, rate: int) -> real { r_div(r_mul(i as real, rate as real), fs as real) }
pub open spec fn line_of(freq: int, fs: int, rate: int) -> int { sat(r_trunc(r_round(r_div(r_mul(fs as real, freq as real), rate as real)) as real), 0, usize::MAX as int) }
pub open spec fn first_line(min_freq: int, fs: int, rate: int) -> int { let i = line_of(min_freq, fs, rate); if i <= 1 { 1 } else { i } }
pub open spec fn end_line(max_freq: int, fs: int, rate: int) -> int { let i = line_of(max_freq, fs, rate); if i <= fs / 2 { i } else { fs / 2 } }
pub proof fn lemma_pitch_range(freq: real) ensures 0real <= pitch(freq) < 12real, 0 <= pitch(freq).floor() < 12
{ let o = octave_of(freq); let f = o - o.floor() as real; reveal(r_mul); assert(0real <= f < 1real); assert(12real * f < 12real); }
// octave independence: a line of twice the frequency has the same position
pub axiom fn ax_log2_double(x: real) requires x > 0real ensures r_log2(2real * x) == r_log2(x) + 1real;
pub proof fn lemma_pitch_octave(freq: real) requires freq > 0real ensures pitch(2real * freq) == pitch(freq)
{
    reveal(r_div);
    let b = r_div(440real, 16real);
    assert(b == 27.5real);
    assert((2real * freq) / b == 2real * (freq / b));
    assert(freq / b > 0real) by(nonlinear_arith) requires freq > 0real, b == 27.5real;
    ax_log2_double(freq / b);
    let o = octave_of(freq);
    assert(octave_of(2real * freq) == o + 1real);
    assert((o + 1real).floor() == o.floor() + 1);
}
// ---- folding of one spectrum
pub struct Fold { pub interp: bool, pub lo: int, pub hi: int, pub notes: Seq<u8>, pub fracs: Seq<real> }
pub open spec fn other(f: Fold, i: int) -> int { if f.fracs[i] < 0.5real { (f.notes[i] + 11) % 12 } else if f.fracs[i] > 0.5real { (f.notes[i] + 1) % 12 } else { f.notes[i] as int } }
pub open spec fn weight(f: Fold, i: int) -> real { if f.fracs[i] < 0.5real { 0.5real + f.fracs[i] } else if f.fracs[i] > 0.5real { 1.5real - f.fracs[i] } else { 1real } }
// what line i of energy e adds to band b
pub open spec fn share(f: Fold, i: int, e: real, b: int) -> real {
    if f.interp { (if b == f.notes[i] { r_mul(e, weight(f, i)) } else { 0real }) + (if b == other(f, i) { r_mul(e, 1real - weight(f, i)) } else { 0real }) }
    else if b == f.notes[i] { e } else { 0real }
}
pub open spec fn band(f: Fold, s: Seq<real>, b: int, end: int) -> real decreases end - f.lo { if end <= f.lo { 0real } else { band(f, s, b, end - 1) + share(f, end - 1, s[end - 1], b) } }
pub open spec fn fold_end(f: Fold, s: Seq<real>) -> int { if s.len() < f.hi { s.len() as int } else { f.hi } }
pub open spec fn fold_row(f: Fold, s: Seq<real>) -> Seq<real> { Seq::new(12, |b: int| band(f, s, b, fold_end(f, s))) }
pub open spec fn fold_rows(f: Fold, h: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(h.len(), |k: int| fold_row(f, h[k])) }
pub open spec fn fold_ok(f: Fold) -> bool { 0 <= f.lo && f.notes.len() == f.fracs.len() && f.hi <= f.notes.len() && forall|i: int| f.lo <= i < f.hi ==> #[trigger] f.notes[i] < 12 && 0real <= f.fracs[i] < 1real }
// the tables built for a frequency range, frame size and sample rate
pub open spec fn fold_for(f: Fold, min_freq: int, max_freq: int, fs: int, rate: int) -> bool {
    &&& f.lo == first_line(min_freq, fs, rate) && f.hi == end_line(max_freq, fs, rate) && f.notes.len() == fs && f.fracs.len() == fs
    &&& forall|i: int| f.lo <= i < f.hi ==> #[trigger] f.notes[i] as int == pitch(line_freq(i, fs, rate)).floor() && f.fracs[i] == pitch(line_freq(i, fs, rate)) - pitch(line_freq(i, fs, rate)).floor() as real
}
pub open spec fn sum12(s: Seq<real>) -> real { s[0] + s[1] + s[2] + s[3] + s[4] + s[5] + s[6] + s[7] + s[8] + s[9] + s[10] + s[11] }
pub open spec fn energy(s: Seq<real>, lo: int, end: int) -> real decreases end - lo { if end <= lo { 0real } else { energy(s, lo, end - 1) + s[end - 1] } }
pub open spec fn pick(k: int, b: int, v: real) -> real { if b == k { v } else { 0real } }
pub proof fn lemma_pick_sum(k: int, v: real) requires 0 <= k < 12
    ensures pick(k, 0, v) + pick(k, 1, v) + pick(k, 2, v) + pick(k, 3, v) + pick(k, 4, v) + pick(k, 5, v) + pick(k, 6, v) + pick(k, 7, v) + pick(k, 8, v) + pick(k, 9, v) + pick(k, 10, v) + pick(k, 11, v) == v {}
pub open spec fn part(f: Fold, s: Seq<real>, end: int) -> Seq<real> { Seq::new(12, |b: int| band(f, s, b, end)) }
// C16: the bands sum to the energy of the lines in range
pub proof fn theorem_energy(f: Fold, s: Seq<real>, end: int) requires fold_ok(f), end <= f.hi ensures sum12(part(f, s, end)) == energy(s, f.lo, end) decreases end - f.lo
{
    if end > f.lo {
        theorem_energy(f, s, end - 1);
        let i = end - 1;
        let (n, m, w, e) = (f.notes[i] as int, other(f, i), weight(f, i), s[i]);
        let (x, y) = (r_mul(e, w), r_mul(e, 1real - w));
        reveal(r_mul);
        assert(x + y == e) by(nonlinear_arith) requires x == e * w, y == e * (1real - w);
        lemma_pick_sum(n, x); lemma_pick_sum(m, y); lemma_pick_sum(n, e);
        assert forall|b: int| 0 <= b < 12 implies #[trigger] part(f, s, end)[b] == part(f, s, i)[b] + if f.interp { pick(n, b, x) + pick(m, b, y) } else { pick(n, b, e) } by { }
    }
}
// C16: shared with the nearer neighbouring band, in proportion to the position: nothing at the centre, half at the edge
pub proof fn theorem_share(f: Fold, i: int) requires fold_ok(f), f.lo <= i < f.hi
    ensures 0.5real <= weight(f, i) <= 1real,
        f.fracs[i] < 0.5real ==> other(f, i) == (f.notes[i] + 11) % 12 && 1real - weight(f, i) == 0.5real - f.fracs[i],
        f.fracs[i] > 0.5real ==> other(f, i) == (f.notes[i] + 1) % 12 && 1real - weight(f, i) == f.fracs[i] - 0.5real,
{ assert(f.notes[i] < 12); }
