
// ------------------------------------------------------------------ bits
pub open spec fn tb(x: u8, t: int) -> bool { (x >> (t as u8)) & 1u8 == 1u8 }
pub open spec fn tb32(x: u32, t: int) -> bool { (x >> (t as u32)) & 1u32 == 1u32 }
// bit b of the stream in which every value occupies n bits, least significant first; zero after the last value
pub open spec fn vbit(vals: Seq<u8>, n: int, b: int) -> bool { 0 <= b / n < vals.len() && tb(vals[b / n], b % n) }
// r is the packed form of vals, n bits per value: ceil(n * len / 8) bytes, bit t of byte q is bit 8q+t of the stream
pub open spec fn packed(vals: Seq<u8>, n: int, r: Seq<u8>) -> bool {
    r.len() == (vals.len() * n + 7) / 8 && forall|q: int, t: int| 0 <= q < r.len() && 0 <= t < 8 ==> (#[trigger] tb(r[q], t) <==> vbit(vals, n, 8 * q + t))
}
// ------------------------------------------------------------------ items to values
pub open spec fn lastpos(x: u32, i: nat) -> nat decreases i { if i == 0 { 0 } else if tb32(x, i - 1) { i } else { lastpos(x, (i - 1) as nat) } }
// distances between consecutive set bits (counting positions from 1) among the lowest i bits
pub open spec fn gaps(x: u32, i: nat) -> Seq<int> decreases i {
    if i == 0 { Seq::empty() } else if tb32(x, i - 1) { gaps(x, (i - 1) as nat).push(i - lastpos(x, (i - 1) as nat)) } else { gaps(x, (i - 1) as nat) }
}
// a zero ends the item
pub open spec fn item_gaps(x: u32) -> Seq<int> { gaps(x, 32).push(0) }
// items are chained by exclusive or
pub open spec fn xitem(fp: Seq<u32>, i: int) -> u32 { if i == 0 { fp[0] } else { fp[i] ^ fp[i - 1] } }
pub open spec fn all_gaps(fp: Seq<u32>, n: nat) -> Seq<int> decreases n { if n == 0 { Seq::empty() } else { all_gaps(fp, (n - 1) as nat) + item_gaps(xitem(fp, n - 1)) } }
// 3-bit normal values; 7 announces an exception
pub open spec fn norm1(g: int) -> int { if g >= 7 { 7 } else { g } }
pub open spec fn norms(gs: Seq<int>) -> Seq<u8> { Seq::new(gs.len(), |i: int| norm1(gs[i]) as u8) }
pub open spec fn excs(gs: Seq<int>) -> Seq<u8> decreases gs.len() { if gs.len() == 0 { Seq::empty() } else if gs.last() >= 7 { excs(gs.drop_last()).push((gs.last() - 7) as u8) } else { excs(gs.drop_last()) } }
pub open spec fn gaps_ok(gs: Seq<int>) -> bool { forall|k: int| 0 <= k < gs.len() ==> 0 <= #[trigger] gs[k] <= 32 }
// the pairs produced for one item
pub open spec fn code(g: int) -> (u8, Option<u8>) { if g >= 7 { (7u8, Some((g - 7) as u8)) } else { (g as u8, None) } }
pub open spec fn codes(gs: Seq<int>) -> Seq<(u8, Option<u8>)> { Seq::new(gs.len(), |i: int| code(gs[i])) }
// ------------------------------------------------------------------ the whole compressed form
pub open spec fn compressed(id: u8, fp: Seq<u32>, r: Seq<u8>) -> bool {
    let g = all_gaps(fp, fp.len());
    exists|p3: Seq<u8>, p5: Seq<u8>| #[trigger] packed(norms(g), 3, p3) && #[trigger] packed(excs(g), 5, p5)
        && r == seq![id, (fp.len() / 65536 % 256) as u8, (fp.len() / 256 % 256) as u8, (fp.len() % 256) as u8] + p3 + p5
}

// ------------------------------------------------------------------ lemmas on the encoder
pub proof fn lemma_lastpos(x: u32, i: nat) ensures lastpos(x, i) <= i decreases i { if i > 0 { lemma_lastpos(x, (i - 1) as nat); } }
pub proof fn lemma_gaps_ok(x: u32, i: nat) requires i <= 32 ensures gaps(x, i).len() <= i, forall|k: int| 0 <= k < gaps(x, i).len() ==> 1 <= #[trigger] gaps(x, i)[k] <= 32 decreases i
{ if i > 0 { lemma_gaps_ok(x, (i - 1) as nat); lemma_lastpos(x, (i - 1) as nat); } }
pub proof fn lemma_all_gaps_ok(fp: Seq<u32>, n: nat) requires n <= fp.len() ensures gaps_ok(all_gaps(fp, n)), all_gaps(fp, n).len() <= 33 * n decreases n
{ if n > 0 { lemma_all_gaps_ok(fp, (n - 1) as nat); lemma_gaps_ok(xitem(fp, n - 1), 32); } }
pub proof fn lemma_excs_len(g: Seq<int>) ensures excs(g).len() <= g.len() decreases g.len() { if g.len() > 0 { lemma_excs_len(g.drop_last()); } }
pub proof fn lemma_excs_cat(a: Seq<int>, b: Seq<int>) ensures excs(a + b) == excs(a) + excs(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(excs(a) + excs(b) =~= excs(a)); }
    else {
        lemma_excs_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(excs(a + b) =~= excs(a) + excs(b));
    }
}
pub proof fn lemma_norms_cat(a: Seq<int>, b: Seq<int>) ensures norms(a + b) == norms(a) + norms(b) { assert(norms(a + b) =~= norms(a) + norms(b)); }
pub proof fn lemma_codes_push(a: Seq<int>, g: int) ensures codes(a.push(g)) == codes(a).push(code(g)) { assert(codes(a.push(g)) =~= codes(a).push(code(g))); }
// one more pair of an item
pub proof fn lemma_take_codes(gs: Seq<int>, base: Seq<int>, k: int) requires 0 <= k < gs.len()
    ensures norms(base + gs.take(k + 1)) == norms(base + gs.take(k)).push(norm1(gs[k]) as u8),
        gs[k] >= 7 ==> excs(base + gs.take(k + 1)) == excs(base + gs.take(k)).push((gs[k] - 7) as u8),
        gs[k] < 7 ==> excs(base + gs.take(k + 1)) == excs(base + gs.take(k)),
{
    let a = base + gs.take(k + 1);
    let b = base + gs.take(k);
    assert(a =~= b.push(gs[k]));
    assert(a.drop_last() =~= b);
    assert(norms(a) =~= norms(b).push(norm1(gs[k]) as u8));
}
pub proof fn lemma_bit_or(a: u8, v: u8, s: u8, t: u8) requires s < 8, t < 8
    ensures tb(a | (v << s), t as int) <==> (tb(a, t as int) || (t >= s && tb(v, t as int - s as int))),
        tb(a | (v >> s), t as int) <==> (tb(a, t as int) || (t + s < 8 && tb(v, t as int + s as int)))
{
    assert(((a | (v << s)) >> t) & 1u8 == 1u8 <==> ((a >> t) & 1u8 == 1u8 || (t >= s && (v >> sub(t, s)) & 1u8 == 1u8))) by(bit_vector) requires s < 8u8, t < 8u8;
    assert(((a | (v >> s)) >> t) & 1u8 == 1u8 <==> ((a >> t) & 1u8 == 1u8 || (add(t, s) < 8u8 && (v >> add(t, s)) & 1u8 == 1u8))) by(bit_vector) requires s < 8u8, t < 8u8;
}
pub proof fn lemma_mask(v: u8, n: u8, t: u8) requires 1 <= n <= 8, t < 8
    ensures tb(v & ((0xFFu8 << ((8 - n) as u8)) >> ((8 - n) as u8)), t as int) <==> (t < n && tb(v, t as int))
{
    let m = (8 - n) as u8;
    assert(((v & ((0xFFu8 << m) >> m)) >> t) & 1u8 == 1u8 <==> (add(t, m) < 8u8 && (v >> t) & 1u8 == 1u8)) by(bit_vector) requires m < 8u8, t < 8u8;
}
pub proof fn lemma_tb_zero(t: u8) requires t < 8 ensures !tb(0u8, t as int) { assert((0u8 >> t) & 1u8 == 0u8) by(bit_vector); }
pub proof fn lemma_shift_amount(b: u8, s: usize) requires s < 8 ensures b << s == b << (s as u8), b >> s == b >> (s as u8)
{
    assert(b << s == b << (s as u8)) by(bit_vector) requires s < 8usize;
    assert(b >> s == b >> (s as u8)) by(bit_vector) requires s < 8usize;
}
pub proof fn lemma_div_at(i: int, n: int, d: int) requires n > 0, 0 <= d < n, i >= 0 ensures (i * n + d) / n == i, (i * n + d) % n == d
{ lemma_fundamental_div_mod_converse(i * n + d, n, i, d); }
// the fold that packs one group of at most eight values
pub open spec fn part(vals: Seq<u8>, n: int, k: int, r: Seq<u8>) -> bool {
    r.len() == n && forall|p: int, t: int| 0 <= p < n && 0 <= t < 8 ==> (#[trigger] tb(r[p], t) <==> 8 * p + t < k * n && vbit(vals, n, 8 * p + t))
}
pub open spec fn vmask(v: u8, n: int) -> u8 { v & ((0xFFu8 << ((8 - n) as u8)) >> ((8 - n) as u8)) }
pub proof fn lemma_part_zero(vals: Seq<u8>, n: int, r: Seq<u8>) requires r.len() == n, n > 0, forall|p: int| 0 <= p < n ==> #[trigger] r[p] == 0u8 ensures part(vals, n, 0, r)
{ assert forall|p: int, t: int| 0 <= p < n && 0 <= t < 8 implies !#[trigger] tb(r[p], t) by { lemma_tb_zero(t as u8); } }
pub proof fn lemma_part_step(vals: Seq<u8>, n: int, i: int, old: Seq<u8>, new: Seq<u8>)
    requires 1 <= n <= 8, 0 <= i < vals.len() <= 8, part(vals, n, i, old),
        ({ let rb = i * n; let lb = i * n + n - 1; let b = vmask(vals[i], n); let s = rb % 8;
           &&& lb / 8 == rb / 8 ==> new == old.update(rb / 8, old[rb / 8] | (b << (s as u8)))
           &&& lb / 8 != rb / 8 ==> new == old.update(rb / 8, old[rb / 8] | (b << (s as u8))).update(lb / 8, old[lb / 8] | (b >> (((8 - s) % 8) as u8))) })
    ensures part(vals, n, i + 1, new), 0 <= (i * n) / 8 < n, 0 <= (i * n + n - 1) / 8 < n, ((i + 1) * n + 7) / 8 == (i * n + n - 1) / 8 + 1
{
    let rb = i * n;
    let lb = i * n + n - 1;
    let b = vmask(vals[i], n);
    let s = rb % 8;
    assert(0 <= i * n <= 7 * n) by(nonlinear_arith) requires 0 <= i <= 7, n >= 1;
    assert((i + 1) * n == i * n + n) by(nonlinear_arith);
    let r = rb / 8;
    let l = lb / 8;
    assert(r == l || l == r + 1 && s > 0);
    assert forall|p: int, t: int| 0 <= p < n && 0 <= t < 8 implies (#[trigger] tb(new[p], t) <==> 8 * p + t < (i + 1) * n && vbit(vals, n, 8 * p + t)) by {
        let q = 8 * p + t;
        let d = q - rb;
        assert(tb(old[p], t) <==> q < rb && vbit(vals, n, q));
        if 0 <= d < n { lemma_div_at(i, n, d); assert(vbit(vals, n, q) <==> tb(vals[i], d)); assert(p == r || p == l); lemma_mask(vals[i], n as u8, d as u8); }
        if p == r {
            lemma_bit_or(old[p], b, s as u8, t as u8);
            assert(tb(old[p] | (b << (s as u8)), t) <==> tb(old[p], t) || (t >= s && tb(b, t - s)));
            if t >= s { lemma_mask(vals[i], n as u8, (t - s) as u8); assert(d == t - s); }
        } else if p == l {
            let s2 = 8 - s;
            assert((8 - s) % 8 == s2);
            lemma_bit_or(old[p], b, s2 as u8, t as u8);
            if t + s2 < 8 { lemma_mask(vals[i], n as u8, (t + s2) as u8); assert(d == t + s2); }
        }
    }
}
// a group of eight values starts at a byte boundary
pub proof fn lemma_vbit_group(vals: Seq<u8>, grp: Seq<u8>, n: int, j: int, b: int)
    requires 1 <= n <= 8, j >= 0, 8 * j < vals.len(), grp == vals.subrange(8 * j, if 8 * j + 8 <= vals.len() { 8 * j + 8 } else { vals.len() as int }), 0 <= b < 8 * n
    ensures vbit(grp, n, b) == vbit(vals, n, 8 * (n * j) + b)
{
    assert(8 * (n * j) + b == n * (8 * j) + b) by(nonlinear_arith);
    lemma_fundamental_div_mod(b, n);
    lemma_mod_bound(b, n);
    assert(8 * (n * j) + b == (8 * j + b / n) * n + b % n) by(nonlinear_arith) requires b == n * (b / n) + b % n;
    assert(b / n >= 0) by(nonlinear_arith) requires b >= 0, n >= 1;
    assert(b / n < 8) by(nonlinear_arith) requires 0 <= b < 8 * n, n >= 1;
    lemma_div_at(8 * j + b / n, n, b % n);
}
pub proof fn lemma_header(n: usize) requires n < 0x100_0000
    ensures (((n >> 16usize) & 0xFFusize) as u8) == (n as int / 65536 % 256) as u8, (((n >> 8usize) & 0xFFusize) as u8) == (n as int / 256 % 256) as u8, ((n & 0xFFusize) as u8) == (n as int % 256) as u8,
        ((n >> 16usize) as u8) == (n as int / 65536 % 256) as u8, ((n >> 8usize) as u8) == (n as int / 256 % 256) as u8, (n as u8) == (n as int % 256) as u8
{
    assert((n >> 16usize) & 0xFFusize == (n / 65536) % 256) by(bit_vector);
    assert((n >> 8usize) & 0xFFusize == (n / 256) % 256) by(bit_vector);
    assert(n & 0xFFusize == n % 256) by(bit_vector);
    assert((n >> 16usize) as u8 == ((n / 65536) % 256) as u8) by(bit_vector);
    assert((n >> 8usize) as u8 == ((n / 256) % 256) as u8) by(bit_vector);
    assert(n as u8 == (n % 256) as u8) by(bit_vector);
}
