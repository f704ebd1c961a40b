
// ------------------------------------------------------------------ the decoding rules
pub open spec fn sbit(bs: Seq<u8>, b: int) -> bool { tb(bs[b / 8], b % 8) }
pub open spec fn two(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * two((n - 1) as nat) } }
// the n-bit number that starts at bit b (least significant bit first)
pub open spec fn sval(bs: Seq<u8>, b: int, n: nat) -> int decreases n { if n == 0 { 0 } else { sval(bs, b, (n - 1) as nat) + (if sbit(bs, b + n - 1) { two((n - 1) as nat) } else { 0 }) } }
// the k-th normal value: 3 bits each, from byte 4 on
pub open spec fn d_norm(bs: Seq<u8>, k: int) -> int { sval(bs, 32 + 3 * k, 3) }
// the k-th exceptional value: 5 bits each, from byte `off` on
pub open spec fn d_exc(bs: Seq<u8>, off: int, k: int) -> int { sval(bs, 8 * off + 5 * k, 5) }
// number of normal values up to and including the `left`-th zero
pub open spec fn d_scan(bs: Seq<u8>, k: int, left: int) -> int decreases 8 * bs.len() - 3 * k {
    if left <= 0 || 32 + 3 * k + 3 > 8 * bs.len() || k < 0 { k } else { d_scan(bs, k + 1, if d_norm(bs, k) == 0 { left - 1 } else { left }) }
}
// reads the normal values from number i on; e exceptions used, bits of the current item collected in x up to position pos
pub open spec fn d_items(bs: Seq<u8>, off: int, cnt: int, i: int, e: int, pos: int, x: u32, prev: u32) -> Seq<u32> decreases cnt - i {
    if i >= cnt { Seq::empty() }
    else {
        let v = d_norm(bs, i);
        if v == 0 { seq![x ^ prev] + d_items(bs, off, cnt, i + 1, e, 0, 0, x ^ prev) }
        else if v == 7 { let p = pos + 7 + d_exc(bs, off, e); d_items(bs, off, cnt, i + 1, e + 1, p, x | (1u32 << ((p - 1) as u32)), prev) }
        else { let p = pos + v; d_items(bs, off, cnt, i + 1, e, p, x | (1u32 << ((p - 1) as u32)), prev) }
    }
}
pub open spec fn d_count(bs: Seq<u8>) -> int { bs[1] * 65536 + bs[2] * 256 + bs[3] }
pub open spec fn decode(bs: Seq<u8>) -> Seq<u32> {
    let cnt = d_scan(bs, 0, d_count(bs));
    d_items(bs, 4 + (3 * cnt + 7) / 8, cnt, 0, 0, 0, 0, 0)
}

// ------------------------------------------------------------------ proof of the round trip
pub proof fn lemma_value3(v: u8) requires v < 8 ensures v as int == (if tb(v, 0) { 1int } else { 0 }) + (if tb(v, 1) { 2int } else { 0 }) + (if tb(v, 2) { 4int } else { 0 })
{ assert(v == add(add((v >> 0u8) & 1u8, mul(2u8, (v >> 1u8) & 1u8)), mul(4u8, (v >> 2u8) & 1u8))) by(bit_vector) requires v < 8u8;
  assert((v >> 0u8) & 1u8 < 2 && (v >> 1u8) & 1u8 < 2 && (v >> 2u8) & 1u8 < 2) by(bit_vector); }
pub proof fn lemma_value5(v: u8) requires v < 32 ensures v as int == (if tb(v, 0) { 1int } else { 0 }) + (if tb(v, 1) { 2int } else { 0 }) + (if tb(v, 2) { 4int } else { 0 }) + (if tb(v, 3) { 8int } else { 0 }) + (if tb(v, 4) { 16int } else { 0 })
{ assert(v == add(add(add(add((v >> 0u8) & 1u8, mul(2u8, (v >> 1u8) & 1u8)), mul(4u8, (v >> 2u8) & 1u8)), mul(8u8, (v >> 3u8) & 1u8)), mul(16u8, (v >> 4u8) & 1u8))) by(bit_vector) requires v < 32u8;
  assert((v >> 0u8) & 1u8 < 2 && (v >> 1u8) & 1u8 < 2 && (v >> 2u8) & 1u8 < 2 && (v >> 3u8) & 1u8 < 2 && (v >> 4u8) & 1u8 < 2) by(bit_vector); }
// one bit of a packed stream that occupies bytes off..off+p.len() of bs
pub proof fn lemma_sbit(bs: Seq<u8>, off: int, p: Seq<u8>, vals: Seq<u8>, n: int, k: int, t: int)
    requires packed(vals, n, p), 1 <= n <= 8, 0 <= k < vals.len(), 0 <= t < n, 0 <= off, off + p.len() <= bs.len(), p == bs.subrange(off, off + p.len())
    ensures sbit(bs, 8 * off + n * k + t) == tb(vals[k], t), 8 * off + n * k + n <= 8 * bs.len()
{
    let b = n * k + t;
    assert(b < vals.len() * n) by(nonlinear_arith) requires b == n * k + t, t < n, k < vals.len(), n >= 1;
    assert(b >= 0) by(nonlinear_arith) requires b == n * k + t, t >= 0, k >= 0, n >= 1;
    assert(n * k + n <= vals.len() * n) by(nonlinear_arith) requires k < vals.len(), n >= 1;
    let q = b / 8;
    let u = b % 8;
    assert(q < p.len());
    assert(tb(p[q], u) <==> vbit(vals, n, 8 * q + u));
    assert(b == k * n + t) by(nonlinear_arith) requires b == n * k + t;
    lemma_div_at(k, n, t);
    assert((8 * off + b) / 8 == off + q && (8 * off + b) % 8 == u);
    assert(bs[off + q] == p[q]);
}
pub proof fn lemma_norm_read(bs: Seq<u8>, p: Seq<u8>, g: Seq<int>, k: int)
    requires packed(norms(g), 3, p), gaps_ok(g), 0 <= k < g.len(), 4 + p.len() <= bs.len(), p == bs.subrange(4, (4 + p.len()) as int)
    ensures d_norm(bs, k) == norm1(g[k]), 32 + 3 * k + 3 <= 8 * bs.len()
{
    let v = norms(g);
    lemma_sbit(bs, 4, p, v, 3, k, 0); lemma_sbit(bs, 4, p, v, 3, k, 1); lemma_sbit(bs, 4, p, v, 3, k, 2);
    lemma_value3(v[k]);
    reveal_with_fuel(sval, 4); reveal_with_fuel(two, 4);
}
pub proof fn lemma_exc_read(bs: Seq<u8>, off: int, p: Seq<u8>, v: Seq<u8>, k: int)
    requires packed(v, 5, p), 0 <= k < v.len(), v[k] < 32, 0 <= off, off + p.len() <= bs.len(), p == bs.subrange(off, off + p.len())
    ensures d_exc(bs, off, k) == v[k]
{
    lemma_sbit(bs, off, p, v, 5, k, 0); lemma_sbit(bs, off, p, v, 5, k, 1); lemma_sbit(bs, off, p, v, 5, k, 2); lemma_sbit(bs, off, p, v, 5, k, 3); lemma_sbit(bs, off, p, v, 5, k, 4);
    lemma_value5(v[k]);
    reveal_with_fuel(sval, 6); reveal_with_fuel(two, 6);
}
// the exception of gap i is number |excs(g.take(i))|
pub proof fn lemma_exc_index(g: Seq<int>, i: int) requires 0 <= i < g.len(), gaps_ok(g)
    ensures g[i] >= 7 ==> excs(g.take(i)).len() < excs(g).len() && excs(g)[excs(g.take(i)).len() as int] == (g[i] - 7) as u8 && excs(g.take(i + 1)).len() == excs(g.take(i)).len() + 1,
        g[i] < 7 ==> excs(g.take(i + 1)).len() == excs(g.take(i)).len()
{
    let a = g.take(i + 1);
    assert(a.drop_last() =~= g.take(i));
    assert(a.last() == g[i]);
    assert(g =~= a + g.skip(i + 1));
    lemma_excs_cat(a, g.skip(i + 1));
}
// decoding at the level of gaps
pub open spec fn ung(g: Seq<int>, i: int, pos: int, x: u32, prev: u32) -> Seq<u32> decreases g.len() - i {
    if i >= g.len() { Seq::empty() }
    else if g[i] == 0 { seq![x ^ prev] + ung(g, i + 1, 0, 0, x ^ prev) }
    else { ung(g, i + 1, pos + g[i], x | (1u32 << ((pos + g[i] - 1) as u32)), prev) }
}
pub proof fn lemma_items_ung(bs: Seq<u8>, p3: Seq<u8>, p5: Seq<u8>, g: Seq<int>, off: int, i: int, pos: int, x: u32, prev: u32)
    requires packed(norms(g), 3, p3), packed(excs(g), 5, p5), gaps_ok(g), off == 4 + p3.len(), off + p5.len() <= bs.len(),
        p3 == bs.subrange(4, (4 + p3.len()) as int), p5 == bs.subrange(off, off + p5.len()), 0 <= i <= g.len()
    ensures d_items(bs, off, g.len() as int, i, excs(g.take(i)).len() as int, pos, x, prev) == ung(g, i, pos, x, prev)
    decreases g.len() - i
{
    if i < g.len() {
        lemma_norm_read(bs, p3, g, i);
        lemma_exc_index(g, i);
        let e = excs(g.take(i)).len() as int;
        if g[i] >= 7 { lemma_exc_read(bs, off, p5, excs(g), e); }
        if g[i] == 0 { lemma_items_ung(bs, p3, p5, g, off, i + 1, 0, 0, x ^ prev); }
        else { lemma_items_ung(bs, p3, p5, g, off, i + 1, pos + g[i], x | (1u32 << ((pos + g[i] - 1) as u32)), prev); }
    }
}
pub open spec fn low(x: u32, i: nat) -> u32 { x & (((1u64 << (i as u64)) - 1) as u32) }
pub proof fn lemma_low(x: u32, i: u32) requires i < 32
    ensures tb32(x, i as int) ==> low(x, (i + 1) as nat) == low(x, i as nat) | (1u32 << i), !tb32(x, i as int) ==> low(x, (i + 1) as nat) == low(x, i as nat),
{
    let j = i as u64;
    assert((1u64 << j) >= 1 && (1u64 << j) <= 0x1_0000_0000u64 && (1u64 << add(j, 1)) >= 1 && (1u64 << add(j, 1)) <= 0x1_0000_0000u64) by(bit_vector) requires j < 32u64;
    let m0 = sub(1u64 << j, 1) as u32;
    let m1 = sub(1u64 << add(j, 1), 1) as u32;
    assert((x >> i) & 1u32 == 1u32 ==> x & m1 == (x & m0) | (1u32 << i)) by(bit_vector) requires i < 32u32, j == i as u64, m0 == sub(1u64 << j, 1) as u32, m1 == sub(1u64 << add(j, 1), 1) as u32;
    assert((x >> i) & 1u32 != 1u32 ==> x & m1 == x & m0) by(bit_vector) requires i < 32u32, j == i as u64, m0 == sub(1u64 << j, 1) as u32, m1 == sub(1u64 << add(j, 1), 1) as u32;
}
pub proof fn lemma_low_ends(x: u32) ensures low(x, 0) == 0, low(x, 32) == x
{
    assert(1u64 << 0u64 == 1u64 && 1u64 << 32u64 == 0x1_0000_0000u64) by(bit_vector);
    assert(x & 0u32 == 0u32) by(bit_vector);
    assert(x & 0xffff_ffffu32 == x) by(bit_vector);
}
pub proof fn lemma_gaps_prefix(x: u32, i: nat, n: nat) requires i <= n ensures gaps(x, i).len() <= gaps(x, n).len(), gaps(x, n).take(gaps(x, i).len() as int) =~= gaps(x, i) decreases n
{ if i < n { lemma_gaps_prefix(x, i, (n - 1) as nat); } }
pub proof fn lemma_all_gaps_prefix(fp: Seq<u32>, j: nat, n: nat) requires j <= n ensures all_gaps(fp, j).len() <= all_gaps(fp, n).len(), all_gaps(fp, n).take(all_gaps(fp, j).len() as int) =~= all_gaps(fp, j) decreases n
{ if j < n { lemma_all_gaps_prefix(fp, j, (n - 1) as nat); } }
// the gaps of item j inside the gaps of the whole fingerprint
pub proof fn lemma_item_at(fp: Seq<u32>, j: nat, m: int) requires j < fp.len(), 0 <= m < item_gaps(xitem(fp, j as int)).len()
    ensures all_gaps(fp, fp.len())[all_gaps(fp, j).len() + m] == item_gaps(xitem(fp, j as int))[m], all_gaps(fp, (j + 1) as nat).len() == all_gaps(fp, j).len() + item_gaps(xitem(fp, j as int)).len(), all_gaps(fp, (j + 1) as nat).len() <= all_gaps(fp, fp.len()).len()
{
    lemma_all_gaps_prefix(fp, (j + 1) as nat, fp.len());
    let a = all_gaps(fp, (j + 1) as nat);
    assert(a == all_gaps(fp, j) + item_gaps(xitem(fp, j as int)));
    assert(all_gaps(fp, fp.len()).take(a.len() as int)[all_gaps(fp, j).len() + m] == a[all_gaps(fp, j).len() + m]);
}
pub proof fn lemma_ung_item(fp: Seq<u32>, j: nat, i: nat, prev: u32) requires j < fp.len(), i <= 32
    ensures ({ let g = all_gaps(fp, fp.len()); let x = xitem(fp, j as int); let o = all_gaps(fp, j).len() as int;
        ung(g, o + gaps(x, i).len(), lastpos(x, i) as int, low(x, i), prev) == seq![x ^ prev] + ung(g, all_gaps(fp, (j + 1) as nat).len() as int, 0, 0, x ^ prev) })
    decreases 32 - i
{
    let g = all_gaps(fp, fp.len());
    let x = xitem(fp, j as int);
    let o = all_gaps(fp, j).len() as int;
    lemma_gaps_ok(x, 32);
    if i == 32 {
        lemma_item_at(fp, j, gaps(x, 32).len() as int);
        lemma_low_ends(x);
    } else {
        lemma_ung_item(fp, j, (i + 1) as nat, prev);
        lemma_low(x, i as u32);
        lemma_lastpos(x, i);
        lemma_gaps_prefix(x, (i + 1) as nat, 32);
        if tb32(x, i as int) {
            let m = gaps(x, i).len() as int;
            lemma_item_at(fp, j, m);
            assert(gaps(x, (i + 1) as nat) == gaps(x, i).push(i + 1 - lastpos(x, i)));
            assert(gaps(x, 32).take(gaps(x, (i + 1) as nat).len() as int)[m] == i + 1 - lastpos(x, i));
            assert(g[o + m] == i + 1 - lastpos(x, i));
            assert((i + 1 - 1) as u32 == i as u32);
        }
    }
}
pub open spec fn prev_of(fp: Seq<u32>, j: int) -> u32 { if j == 0 { 0 } else { fp[j - 1] } }
pub proof fn lemma_chain(fp: Seq<u32>, j: int) requires 0 <= j < fp.len() ensures xitem(fp, j) ^ prev_of(fp, j) == fp[j]
{
    let a = fp[j];
    assert(a ^ 0u32 == a) by(bit_vector);
    if j > 0 { let b = fp[j - 1]; assert((a ^ b) ^ b == a) by(bit_vector); }
}
pub proof fn lemma_ung_all(fp: Seq<u32>, j: nat) requires j <= fp.len()
    ensures ung(all_gaps(fp, fp.len()), all_gaps(fp, j).len() as int, 0, 0, prev_of(fp, j as int)) == fp.skip(j as int)
    decreases fp.len() - j
{
    if j < fp.len() {
        let x = xitem(fp, j as int);
        lemma_ung_item(fp, j, 0, prev_of(fp, j as int));
        lemma_low_ends(x);
        lemma_chain(fp, j as int);
        lemma_ung_all(fp, (j + 1) as nat);
        assert(gaps(x, 0).len() == 0);
        assert(seq![fp[j as int]] + fp.skip(j as int + 1) =~= fp.skip(j as int));
    } else { assert(fp.skip(j as int) =~= Seq::empty()); }
}
// the zeros are the ends of the items
pub proof fn lemma_scan_item(bs: Seq<u8>, p3: Seq<u8>, fp: Seq<u32>, j: nat, m: int)
    requires j < fp.len(), packed(norms(all_gaps(fp, fp.len())), 3, p3), 4 + p3.len() <= bs.len(), p3 == bs.subrange(4, (4 + p3.len()) as int), 0 <= m < item_gaps(xitem(fp, j as int)).len(),
    ensures d_scan(bs, all_gaps(fp, j).len() + m, fp.len() - j) == d_scan(bs, all_gaps(fp, (j + 1) as nat).len() as int, fp.len() - j - 1)
    decreases item_gaps(xitem(fp, j as int)).len() - m
{
    let x = xitem(fp, j as int);
    lemma_item_at(fp, j, m);
    lemma_all_gaps_ok(fp, fp.len());
    lemma_gaps_ok(x, 32);
    lemma_norm_read(bs, p3, all_gaps(fp, fp.len()), all_gaps(fp, j).len() + m);
    if m + 1 < item_gaps(x).len() { assert(gaps(x, 32)[m] >= 1); lemma_scan_item(bs, p3, fp, j, m + 1); }
}
pub proof fn lemma_scan(bs: Seq<u8>, p3: Seq<u8>, fp: Seq<u32>, j: nat)
    requires j <= fp.len(), packed(norms(all_gaps(fp, fp.len())), 3, p3), 4 + p3.len() <= bs.len(), p3 == bs.subrange(4, (4 + p3.len()) as int)
    ensures d_scan(bs, all_gaps(fp, j).len() as int, fp.len() - j) == all_gaps(fp, fp.len()).len()
    decreases fp.len() - j
{ if j < fp.len() { lemma_scan(bs, p3, fp, (j + 1) as nat); lemma_gaps_ok(xitem(fp, j as int), 32); lemma_scan_item(bs, p3, fp, j, 0); } }

// C01: what the compressor is specified to produce decodes to the original items
pub proof fn theorem_round_trip(id: u8, fp: Seq<u32>, bs: Seq<u8>)
    requires fp.len() < 0x100_0000, compressed(id, fp, bs)
    ensures decode(bs) == fp
{
    let g = all_gaps(fp, fp.len());
    let (p3, p5) = choose|p3: Seq<u8>, p5: Seq<u8>| #[trigger] packed(norms(g), 3, p3) && #[trigger] packed(excs(g), 5, p5)
        && bs == seq![id, (fp.len() / 65536 % 256) as u8, (fp.len() / 256 % 256) as u8, (fp.len() % 256) as u8] + p3 + p5;
    assert(p3 =~= bs.subrange(4, (4 + p3.len()) as int));
    assert(p5 =~= bs.subrange((4 + p3.len()) as int, (4 + p3.len() + p5.len()) as int));
    assert(d_count(bs) == fp.len());
    lemma_all_gaps_ok(fp, fp.len());
    lemma_scan(bs, p3, fp, 0);
    assert(all_gaps(fp, 0).len() == 0);
    assert(g.take(0) =~= Seq::empty());
    lemma_items_ung(bs, p3, p5, g, (4 + p3.len()) as int, 0, 0, 0, 0);
    lemma_ung_all(fp, 0);
    assert(fp.skip(0) =~= fp);
}
// C01: the compressed form is a function of the algorithm id and the items
pub proof fn lemma_byte_bits(a: u8, b: u8) requires forall|t: int| 0 <= t < 8 ==> (#[trigger] tb(a, t) <==> tb(b, t)) ensures a == b
{
    assert(tb(a, 0) <==> tb(b, 0)); assert(tb(a, 1) <==> tb(b, 1)); assert(tb(a, 2) <==> tb(b, 2)); assert(tb(a, 3) <==> tb(b, 3));
    assert(tb(a, 4) <==> tb(b, 4)); assert(tb(a, 5) <==> tb(b, 5)); assert(tb(a, 6) <==> tb(b, 6)); assert(tb(a, 7) <==> tb(b, 7));
    assert(a == b) by(bit_vector) requires
        ((a >> 0u8) & 1u8 == 1u8) <==> ((b >> 0u8) & 1u8 == 1u8), ((a >> 1u8) & 1u8 == 1u8) <==> ((b >> 1u8) & 1u8 == 1u8),
        ((a >> 2u8) & 1u8 == 1u8) <==> ((b >> 2u8) & 1u8 == 1u8), ((a >> 3u8) & 1u8 == 1u8) <==> ((b >> 3u8) & 1u8 == 1u8),
        ((a >> 4u8) & 1u8 == 1u8) <==> ((b >> 4u8) & 1u8 == 1u8), ((a >> 5u8) & 1u8 == 1u8) <==> ((b >> 5u8) & 1u8 == 1u8),
        ((a >> 6u8) & 1u8 == 1u8) <==> ((b >> 6u8) & 1u8 == 1u8), ((a >> 7u8) & 1u8 == 1u8) <==> ((b >> 7u8) & 1u8 == 1u8);
}
pub proof fn lemma_packed_unique(v: Seq<u8>, n: int, a: Seq<u8>, b: Seq<u8>) requires packed(v, n, a), packed(v, n, b) ensures a == b
{
    assert forall|q: int| 0 <= q < a.len() implies a[q] == b[q] by {
        assert forall|t: int| 0 <= t < 8 implies (#[trigger] tb(a[q], t) <==> tb(b[q], t)) by { assert(tb(a[q], t) <==> vbit(v, n, 8 * q + t)); assert(tb(b[q], t) <==> vbit(v, n, 8 * q + t)); }
        lemma_byte_bits(a[q], b[q]);
    }
    assert(a =~= b);
}
pub proof fn theorem_pure(id: u8, fp: Seq<u32>, a: Seq<u8>, b: Seq<u8>) requires compressed(id, fp, a), compressed(id, fp, b) ensures a == b
{
    let g = all_gaps(fp, fp.len());
    let h = seq![id, (fp.len() / 65536 % 256) as u8, (fp.len() / 256 % 256) as u8, (fp.len() % 256) as u8];
    let (a3, a5) = choose|p3: Seq<u8>, p5: Seq<u8>| #[trigger] packed(norms(g), 3, p3) && #[trigger] packed(excs(g), 5, p5) && a == h + p3 + p5;
    let (b3, b5) = choose|p3: Seq<u8>, p5: Seq<u8>| #[trigger] packed(norms(g), 3, p3) && #[trigger] packed(excs(g), 5, p5) && b == h + p3 + p5;
    lemma_packed_unique(norms(g), 3, a3, b3);
    lemma_packed_unique(excs(g), 5, a5, b5);
}
