// weighted sum of band b over the rows k, k+1, .., first m coefficients; the oldest row with the first coefficient (C17)
pub open spec fn wsum(c: Seq<real>, h: Seq<Seq<real>>, k: int, b: int, m: int) -> real decreases m { if m <= 0 { 0real } else { wsum(c, h, k, b, m - 1) + r_mul(h[k + m - 1][b], c[m - 1]) } }
pub open spec fn filt_row(c: Seq<real>, h: Seq<Seq<real>>, k: int) -> Seq<real> { Seq::new(12, |b: int| wsum(c, h, k, b, c.len() as int)) }
pub open spec fn filt_len(c: Seq<real>, n: int) -> int { if n - c.len() + 1 > 0 { n - c.len() + 1 } else { 0 } }
pub open spec fn filt_rows(c: Seq<real>, h: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(filt_len(c, h.len() as int) as nat, |k: int| filt_row(c, h, k)) }
pub proof fn lemma_wsum_push(c: Seq<real>, h: Seq<Seq<real>>, v: Seq<real>, k: int, b: int, m: int) requires 0 <= k, k + m <= h.len()
    ensures wsum(c, h.push(v), k, b, m) == wsum(c, h, k, b, m) decreases m { if m > 0 { lemma_wsum_push(c, h, v, k, b, m - 1); } }
pub proof fn lemma_filt_push(c: Seq<real>, h: Seq<Seq<real>>, v: Seq<real>) requires c.len() >= 1
    ensures h.len() + 1 < c.len() ==> filt_rows(c, h.push(v)) == filt_rows(c, h),
        h.len() + 1 >= c.len() ==> filt_rows(c, h.push(v)) == filt_rows(c, h).push(filt_row(c, h.push(v), h.len() + 1 - c.len())),
{
    let g = h.push(v);
    assert forall|k: int| 0 <= k < filt_len(c, h.len() as int) implies filt_row(c, g, k) == #[trigger] filt_row(c, h, k) by {
        assert forall|b: int| 0 <= b < 12 implies wsum(c, g, k, b, c.len() as int) == wsum(c, h, k, b, c.len() as int) by { lemma_wsum_push(c, h, v, k, b, c.len() as int); }
        assert(filt_row(c, g, k) =~= filt_row(c, h, k));
    }
    if h.len() + 1 < c.len() { assert(filt_rows(c, g) =~= filt_rows(c, h)); }
    else { assert(filt_rows(c, g) =~= filt_rows(c, h).push(filt_row(c, g, h.len() + 1 - c.len()))); }
}
pub proof fn lemma_wsum_shift(c: Seq<real>, w: Seq<Seq<real>>, h: Seq<Seq<real>>, k: int, b: int, m: int)
    requires forall|j: int| 0 <= j < m ==> w[j][b] == #[trigger] h[k + j][b]
    ensures wsum(c, w, 0, b, m) == wsum(c, h, k, b, m) decreases m { if m > 0 { lemma_wsum_shift(c, w, h, k, b, m - 1); assert(w[m - 1][b] == h[k + (m - 1)][b]); } }
// the ring buffer holds the last (up to 8) rows of h
pub open spec fn bufok(buf: Seq<[Real; 12]>, h: Seq<Seq<real>>) -> bool {
    &&& buf.len() == 8
    &&& forall|r: int| 0 <= r < h.len() && h.len() - 8 <= r ==> #[trigger] h[r] == rvs(buf[r % 8]@)
}
pub proof fn lemma_bufok_push(b0: Seq<[Real; 12]>, b1: Seq<[Real; 12]>, h: Seq<Seq<real>>, f: Seq<real>)
    requires bufok(b0, h), b1.len() == 8, forall|i: int| 0 <= i < 8 && i != h.len() % 8 ==> b1[i] == b0[i], rvs(b1[h.len() as int % 8]@) == f,
    ensures bufok(b1, h.push(f))
{
    let g = h.push(f);
    assert forall|r: int| 0 <= r < g.len() && g.len() - 8 <= r implies #[trigger] g[r] == rvs(b1[r % 8]@) by {
        if r < h.len() { assert(g[r] == h[r]); assert(r % 8 != h.len() as int % 8); }
    }
}
pub open spec fn window(buf: Seq<[Real; 12]>, off: int, n: int) -> Seq<Seq<real>> { Seq::new(n as nat, |j: int| rvs(buf[(off + j) % 8]@)) }
pub proof fn lemma_window(buf: Seq<[Real; 12]>, g: Seq<Seq<real>>, c: Seq<real>, off: int)
    requires bufok(buf, g), 1 <= c.len() <= 8, c.len() <= g.len(), off == (g.len() as int % 8 + 8 - c.len()) % 8
    ensures filt_row(c, g, g.len() - c.len()) == Seq::new(12, |b: int| wsum(c, window(buf, off, c.len() as int), 0, b, c.len() as int))
{
    let n = c.len() as int;
    let k = g.len() - n;
    let w = window(buf, off, n);
    assert forall|b: int| 0 <= b < 12 implies wsum(c, w, 0, b, n) == wsum(c, g, k, b, n) by {
        assert forall|j: int| 0 <= j < n implies w[j][b] == #[trigger] g[k + j][b] by { assert((off + j) % 8 == (k + j) % 8); assert(g[k + j] == rvs(buf[(k + j) % 8]@)); }
        lemma_wsum_shift(c, w, g, k, b, n);
    }
    assert(filt_row(c, g, k) =~= Seq::new(12, |b: int| wsum(c, w, 0, b, n)));
}
pub proof fn lemma_mod8(x: int) requires x >= 0 ensures (x + 1) % 8 == (x % 8 + 1) % 8, 0 <= x % 8 < 8 {}
