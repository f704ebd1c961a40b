// ---- sorting (standard library; trusted)
impl VcOrd for (u32, usize) {
    open spec fn vle(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
    fn vc_le(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
}
impl VcOrd for (usize, usize) {
    open spec fn vle(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
    fn vc_le(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
}
impl VcOrd for (u32, u32) {
    open spec fn vle(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
    fn vc_le(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
}
impl VcOrd for (u64, usize) {
    open spec fn vle(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
    fn vc_le(self, o: Self) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 <= o.1) }
}
pub open spec fn sorted_up<T: VcOrd>(s: Seq<T>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).vle(#[trigger] s[b]) }
pub open spec fn sorted_down<T: VcOrd>(s: Seq<T>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[b]).vle(#[trigger] s[a]) }
#[verifier::external_body] pub fn vc_sort<T: VcOrd>(v: &mut Vec<T>) ensures sorted_up(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body] pub fn vc_sort_desc<T: VcOrd>(v: &mut Vec<T>) ensures sorted_down(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }

// ---- alignment counts.  Alignment d means: item i of the first fingerprint is compared with item i + n2 - d of the second.
pub open spec fn hash(x: u32) -> u32 { x >> 20u32 }
pub open spec fn hit(f1: Seq<u32>, f2: Seq<u32>, i: int, d: int) -> int { let j = i + f2.len() - d; if 0 <= i < f1.len() && 0 <= j < f2.len() && hash(f1[i]) == hash(f2[j]) { 1 } else { 0 } }
pub open spec fn cnt(f1: Seq<u32>, f2: Seq<u32>, d: int, m: int) -> int decreases m { if m <= 0 { 0 } else { cnt(f1, f2, d, m - 1) + hit(f1, f2, m - 1, d) } }
// number of pairs of items whose top 12 bits coincide at alignment d
pub open spec fn count(f1: Seq<u32>, f2: Seq<u32>, d: int) -> int { cnt(f1, f2, d, f1.len() as int) }
// the alignment with the highest count, the larger offset winning ties
pub open spec fn best(f1: Seq<u32>, f2: Seq<u32>, d: int) -> bool {
    0 <= d < f1.len() + f2.len() && count(f1, f2, d) >= 2
    && forall|e: int| 0 <= e < f1.len() + f2.len() ==> #[trigger] count(f1, f2, e) <= count(f1, f2, d) && (count(f1, f2, e) == count(f1, f2, d) ==> e <= d)
}
pub open spec fn aligned(f1: Seq<u32>, f2: Seq<u32>) -> bool { exists|d: int| 0 <= d < f1.len() + f2.len() && #[trigger] count(f1, f2, d) >= 2 }
pub proof fn lemma_cnt_range(f1: Seq<u32>, f2: Seq<u32>, d: int, m: int) requires 0 <= m ensures 0 <= cnt(f1, f2, d, m) <= m decreases m { if m > 0 { lemma_cnt_range(f1, f2, d, m - 1); } }
pub proof fn lemma_cnt_pos(f1: Seq<u32>, f2: Seq<u32>, d: int, m: int) requires cnt(f1, f2, d, m) > 0 ensures exists|i: int| 0 <= i < m && #[trigger] hit(f1, f2, i, d) == 1 decreases m
{ if m > 0 { if hit(f1, f2, m - 1, d) == 1 { } else { lemma_cnt_pos(f1, f2, d, m - 1); } } }
pub proof fn lemma_cnt_miss(f1: Seq<u32>, f2: Seq<u32>, d: int, m: int, i: int) requires 0 <= i < m, hit(f1, f2, i, d) == 0 ensures cnt(f1, f2, d, m) < m decreases m
{ if i == m - 1 { lemma_cnt_range(f1, f2, d, m - 1); } else { lemma_cnt_miss(f1, f2, d, m - 1, i); } }
pub proof fn lemma_cnt_full(f: Seq<u32>, m: int) requires 0 <= m <= f.len() ensures cnt(f, f, f.len() as int, m) == m decreases m { if m > 0 { lemma_cnt_full(f, m - 1); } }
// a fingerprint against itself: alignment n counts all items, every other one fewer
pub proof fn lemma_self(f: Seq<u32>) requires f.len() >= 2 ensures best(f, f, f.len() as int), forall|d: int| #[trigger] best(f, f, d) ==> d == f.len()
{
    let n = f.len() as int;
    lemma_cnt_full(f, n);
    assert forall|e: int| 0 <= e < 2 * n && e != n implies #[trigger] count(f, f, e) < n by {
        if e < n { lemma_cnt_miss(f, f, e, n, n - 1); } else { lemma_cnt_miss(f, f, e, n, 0); }
    }
    assert(count(f, f, n) == n);
}
// ---- the entries that are sorted: hash, source bit, index
pub open spec fn e1(x: u32, i: int) -> u32 { ((x >> 20u32) << 20u32) | (i as u32) }
pub open spec fn e2(x: u32, j: int) -> u32 { ((x >> 20u32) << 20u32) | (j as u32) | 0x80000u32 }
pub open spec fn off(x: u32) -> int { (x & 0x7ffffu32) as int }
pub open spec fn src(x: u32) -> bool { x & 0x80000u32 != 0 }
pub open spec fn ents(f1: Seq<u32>, f2: Seq<u32>) -> Seq<u32> { Seq::new((f1.len() + f2.len()) as nat, |k: int| if k < f1.len() { e1(f1[k], k) } else { e2(f2[k - f1.len()], k - f1.len()) }) }
pub open spec fn short(f: Seq<u32>) -> bool { f.len() < 0x7fffe }
pub proof fn lemma_e1(x: u32, i: int) requires 0 <= i < 0x80000 ensures hash(e1(x, i)) == hash(x), off(e1(x, i)) == i, !src(e1(x, i))
{ let k = i as u32; assert(k < 0x80000u32 ==> ((((x >> 20u32) << 20u32) | k) >> 20u32) == (x >> 20u32) && ((((x >> 20u32) << 20u32) | k) & 0x7ffffu32) == k && ((((x >> 20u32) << 20u32) | k) & 0x80000u32) == 0) by(bit_vector); }
pub proof fn lemma_e2(x: u32, i: int) requires 0 <= i < 0x80000 ensures hash(e2(x, i)) == hash(x), off(e2(x, i)) == i, src(e2(x, i))
{ let k = i as u32; assert(k < 0x80000u32 ==> ((((x >> 20u32) << 20u32) | k | 0x80000u32) >> 20u32) == (x >> 20u32) && ((((x >> 20u32) << 20u32) | k | 0x80000u32) & 0x7ffffu32) == k && ((((x >> 20u32) << 20u32) | k | 0x80000u32) & 0x80000u32) != 0) by(bit_vector); }
pub proof fn lemma_masks(x: u32) ensures 0 <= off(x) < 0x80000, forall|y: u32| (x & 0xfff00000u32 == #[trigger] (y & 0xfff00000u32)) == (hash(x) == hash(y))
{
    assert((x & 0x7ffffu32) < 0x80000u32) by(bit_vector);
    assert forall|y: u32| (x & 0xfff00000u32 == #[trigger] (y & 0xfff00000u32)) == (hash(x) == hash(y)) by { assert((x & 0xfff00000u32 == y & 0xfff00000u32) == (x >> 20u32 == y >> 20u32)) by(bit_vector); }
}
pub proof fn lemma_hash_mono(x: u32, y: u32) requires x <= y ensures hash(x) <= hash(y) { assert(x <= y ==> (x >> 20u32) <= (y >> 20u32)) by(bit_vector); }
// with the same hash an entry of the first fingerprint sorts before one of the second
pub proof fn lemma_src_order(x: u32, y: u32) requires hash(x) == hash(y), !src(x), src(y) ensures x < y
{ assert((x >> 20u32) == (y >> 20u32) && (x & 0x80000u32) == 0 && (y & 0x80000u32) != 0 ==> x < y) by(bit_vector); }
pub open spec fn ent_ok(f1: Seq<u32>, f2: Seq<u32>, x: u32) -> bool {
    if src(x) { off(x) < f2.len() && x == e2(f2[off(x)], off(x)) && hash(x) == hash(f2[off(x)]) } else { off(x) < f1.len() && x == e1(f1[off(x)], off(x)) && hash(x) == hash(f1[off(x)]) }
}
pub proof fn lemma_ents(f1: Seq<u32>, f2: Seq<u32>) requires short(f1), short(f2)
    ensures ents(f1, f2).no_duplicates(), forall|k: int| 0 <= k < ents(f1, f2).len() ==> ent_ok(f1, f2, #[trigger] ents(f1, f2)[k])
{
    let s = ents(f1, f2);
    assert forall|k: int| 0 <= k < s.len() implies ent_ok(f1, f2, #[trigger] s[k]) && src(s[k]) == (k >= f1.len()) && off(s[k]) == (if k < f1.len() { k } else { k - f1.len() }) by {
        if k < f1.len() { lemma_e1(f1[k], k); } else { lemma_e2(f2[k - f1.len()], k - f1.len()); }
    }
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by { assert(src(s[a]) == (a >= f1.len())); assert(src(s[b]) == (b >= f1.len())); }
}
// the sorted entries
pub proof fn lemma_same_members<A>(s: Seq<A>, t: Seq<A>) requires s.to_multiset() == t.to_multiset() ensures s.len() == t.len(), forall|x: A| #[trigger] s.contains(x) ==> t.contains(x), forall|x: A| #[trigger] t.contains(x) ==> s.contains(x)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|x: A| #[trigger] s.contains(x) implies t.contains(x) by { assert(s.to_multiset().count(x) > 0); }
    assert forall|x: A| #[trigger] t.contains(x) implies s.contains(x) by { assert(t.to_multiset().count(x) > 0); }
}
pub open spec fn sorted_ents(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>) -> bool { sorted_up(s) && s.to_multiset() == ents(f1, f2).to_multiset() && s.len() == f1.len() + f2.len() }
pub proof fn lemma_sorted_ents(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>) requires sorted_ents(f1, f2, s), short(f1), short(f2)
    ensures s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> ent_ok(f1, f2, #[trigger] s[k]), forall|j: int| 0 <= j < f2.len() ==> s.contains(#[trigger] e2(f2[j], j))
{
    let t = ents(f1, f2);
    lemma_ents(f1, f2);
    t.lemma_multiset_has_no_duplicates();
    s.lemma_multiset_has_no_duplicates_conv();
    lemma_same_members(s, t);
    assert forall|k: int| 0 <= k < s.len() implies ent_ok(f1, f2, #[trigger] s[k]) by { assert(s.contains(s[k])); assert(t.contains(s[k])); let m = choose|m: int| 0 <= m < t.len() && t[m] == s[k]; assert(ent_ok(f1, f2, t[m])); }
    assert forall|j: int| 0 <= j < f2.len() implies s.contains(#[trigger] e2(f2[j], j)) by { assert(t[f1.len() + j] == e2(f2[j], j)); assert(t.contains(e2(f2[j], j))); }
}
// what one entry contributes to alignment d, and the sum over a sequence of entries
pub open spec fn gain(f1: Seq<u32>, f2: Seq<u32>, x: u32, d: int) -> int { if src(x) { 0 } else { hit(f1, f2, off(x), d) } }
pub open spec fn tot(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, d: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { tot(f1, f2, s.drop_last(), d) + gain(f1, f2, s.last(), d) } }
pub proof fn lemma_tot_range(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, d: int) ensures 0 <= tot(f1, f2, s, d) <= s.len() decreases s.len() { if s.len() > 0 { lemma_tot_range(f1, f2, s.drop_last(), d); } }
pub proof fn lemma_tot_step(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, k: int) requires 0 <= k < s.len()
    ensures forall|d: int| #[trigger] tot(f1, f2, s.take(k + 1), d) == tot(f1, f2, s.take(k), d) + gain(f1, f2, s[k], d)
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
pub proof fn lemma_tot_remove(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, p: int, d: int) requires 0 <= p < s.len() ensures tot(f1, f2, s, d) == tot(f1, f2, s.remove(p), d) + gain(f1, f2, s[p], d) decreases s.len()
{
    if p == s.len() - 1 { assert(s.remove(p) =~= s.drop_last()); }
    else { lemma_tot_remove(f1, f2, s.drop_last(), p, d); assert(s.remove(p).drop_last() =~= s.drop_last().remove(p)); assert(s.remove(p).last() == s.last()); }
}
pub proof fn lemma_tot_perm(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, t: Seq<u32>, d: int) requires s.to_multiset() == t.to_multiset() ensures tot(f1, f2, s, d) == tot(f1, f2, t, d) decreases s.len()
{
    s.to_multiset_ensures();
    t.to_multiset_ensures();
    lemma_same_members(s, t);
    if s.len() > 0 {
        let x = s.last();
        assert(s[s.len() - 1] == x);
        assert(s.contains(x));
        assert(t.contains(x));
        let p = choose|p: int| 0 <= p < t.len() && t[p] == x;
        assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(t.remove(p).to_multiset() =~= s.drop_last().to_multiset());
        lemma_tot_perm(f1, f2, s.drop_last(), t.remove(p), d);
        lemma_tot_remove(f1, f2, t, p, d);
    }
}
pub proof fn lemma_tot_ents(f1: Seq<u32>, f2: Seq<u32>, k: int, d: int) requires short(f1), short(f2), 0 <= k <= f1.len() + f2.len()
    ensures tot(f1, f2, ents(f1, f2).take(k), d) == cnt(f1, f2, d, if k < f1.len() { k } else { f1.len() as int }) decreases k
{
    if k > 0 {
        lemma_tot_ents(f1, f2, k - 1, d);
        lemma_tot_step(f1, f2, ents(f1, f2), k - 1);
        assert(tot(f1, f2, ents(f1, f2).take(k - 1 + 1), d) == tot(f1, f2, ents(f1, f2).take(k - 1), d) + gain(f1, f2, ents(f1, f2)[k - 1], d));
        if k - 1 < f1.len() { lemma_e1(f1[k - 1], k - 1); } else { lemma_e2(f2[k - 1 - f1.len()], k - 1 - f1.len()); }
    }
}
pub proof fn lemma_tot_all(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>) requires short(f1), short(f2), sorted_ents(f1, f2, s) ensures forall|d: int| #[trigger] tot(f1, f2, s.take(s.len() as int), d) == count(f1, f2, d)
{
    assert(s.take(s.len() as int) =~= s);
    assert(ents(f1, f2).take(s.len() as int) =~= ents(f1, f2));
    assert forall|d: int| #[trigger] tot(f1, f2, s.take(s.len() as int), d) == count(f1, f2, d) by { lemma_tot_ents(f1, f2, s.len() as int, d); lemma_tot_perm(f1, f2, s, ents(f1, f2), d); }
}
// entries b of [lo, hi) that match the entry x at alignment d
pub open spec fn pair(f2: Seq<u32>, x: u32, y: u32, d: int) -> bool { src(y) && hash(x) == hash(y) && off(x) + f2.len() - off(y) == d }
pub open spec fn cin(f2: Seq<u32>, s: Seq<u32>, x: u32, lo: int, hi: int, d: int) -> int decreases hi - lo { if hi <= lo { 0 } else { cin(f2, s, x, lo, hi - 1, d) + (if pair(f2, x, s[hi - 1], d) { 1int } else { 0 }) } }
pub proof fn lemma_cin_range(f2: Seq<u32>, s: Seq<u32>, x: u32, lo: int, hi: int, d: int) ensures 0 <= cin(f2, s, x, lo, hi, d), lo <= hi ==> cin(f2, s, x, lo, hi, d) <= hi - lo decreases hi - lo { if lo < hi { lemma_cin_range(f2, s, x, lo, hi - 1, d); } }
pub proof fn lemma_cin_none(f2: Seq<u32>, s: Seq<u32>, x: u32, lo: int, hi: int, d: int) requires forall|b: int| lo <= b < hi ==> !pair(f2, x, #[trigger] s[b], d) ensures cin(f2, s, x, lo, hi, d) == 0 decreases hi - lo
{ if lo < hi { lemma_cin_none(f2, s, x, lo, hi - 1, d); } }
pub proof fn lemma_cin_one(f2: Seq<u32>, s: Seq<u32>, x: u32, lo: int, hi: int, d: int, p: int) requires lo <= p < hi, pair(f2, x, s[p], d), forall|b: int| lo <= b < hi && b != p ==> !pair(f2, x, #[trigger] s[b], d) ensures cin(f2, s, x, lo, hi, d) == 1 decreases hi - lo
{ if p == hi - 1 { lemma_cin_none(f2, s, x, lo, hi - 1, d); } else { lemma_cin_one(f2, s, x, lo, hi - 1, d, p); } }
// scanning the entries after a up to the first one with another hash finds exactly the partner, if there is one
pub proof fn lemma_scan(f1: Seq<u32>, f2: Seq<u32>, s: Seq<u32>, a: int, hi: int, d: int)
    requires short(f1), short(f2), sorted_ents(f1, f2, s), 0 <= a < hi <= s.len(), !src(s[a]), hi < s.len() ==> hash(s[hi - 1]) != hash(s[a]) && hi - 1 > a
    ensures cin(f2, s, s[a], a + 1, hi, d) == gain(f1, f2, s[a], d)
{
    lemma_sorted_ents(f1, f2, s);
    let x = s[a];
    let i = off(x);
    let j = i + f2.len() - d;
    assert(ent_ok(f1, f2, x));
    lemma_masks(x);
    assert forall|b: int| a + 1 <= b < hi && pair(f2, x, #[trigger] s[b], d) implies 0 <= j < f2.len() && s[b] == e2(f2[j], j) && hit(f1, f2, i, d) == 1 by { assert(ent_ok(f1, f2, s[b])); lemma_masks(s[b]); }
    if hit(f1, f2, i, d) == 1 {
        let t = e2(f2[j], j);
        lemma_e2(f2[j], j);
        assert(s.contains(t));
        let p = choose|p: int| 0 <= p < s.len() && s[p] == t;
        lemma_src_order(x, t);
        if p < a { assert(s[p].vle(s[a])); }
        assert(p > a);
        if p >= hi {
            assert(s[a].vle(s[hi - 1]));
            assert(s[hi - 1] == s[p] || s[hi - 1].vle(s[p]));
            lemma_hash_mono(s[a], s[hi - 1]);
            lemma_hash_mono(s[hi - 1], s[p]);
        }
        assert forall|b: int| a + 1 <= b < hi && b != p implies !pair(f2, x, #[trigger] s[b], d) by { if pair(f2, x, s[b], d) { assert(s[b] == s[p]); } }
        lemma_cin_one(f2, s, x, a + 1, hi, d, p);
    } else {
        assert forall|b: int| a + 1 <= b < hi implies !pair(f2, x, #[trigger] s[b], d) by { }
        lemma_cin_none(f2, s, x, a + 1, hi, d);
    }
}
// ---- choosing the alignment: the largest index among those with the highest count
pub open spec fn argmax(h: Seq<u32>, n: int) -> int decreases n { if n <= 1 { 0 } else { let m = argmax(h, n - 1); if h[n - 1] >= h[m] { n - 1 } else { m } } }
pub proof fn lemma_argmax(h: Seq<u32>, n: int) requires 1 <= n <= h.len() ensures 0 <= argmax(h, n) < n, forall|i: int| 0 <= i < n ==> #[trigger] h[i] <= h[argmax(h, n)] && (h[i] == h[argmax(h, n)] ==> i <= argmax(h, n)) decreases n
{ if n > 1 { lemma_argmax(h, n - 1); } }
pub open spec fn is_counts(f1: Seq<u32>, f2: Seq<u32>, h: Seq<u32>) -> bool { h.len() == f1.len() + f2.len() && forall|d: int| 0 <= d < h.len() ==> #[trigger] h[d] == count(f1, f2, d) }
pub open spec fn peak(h: Seq<u32>, i: int) -> bool { h[i] > 1 && (i > 0 ==> h[i - 1] <= h[i]) && (i < h.len() - 1 ==> h[i + 1] <= h[i]) }
pub open spec fn peaks_of(h: Seq<u32>, n: int, v: Seq<(u32, usize)>) -> bool { (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).1 < n && v[k].0 == h[v[k].1 as int] && v[k].0 > 1) && forall|i: int| 0 <= i < n && #[trigger] peak(h, i) ==> v.contains((h[i], i as usize)) }
pub proof fn lemma_choice(f1: Seq<u32>, f2: Seq<u32>, h: Seq<u32>, u: Seq<(u32, usize)>, v: Seq<(u32, usize)>)
    requires short(f1), short(f2), is_counts(f1, f2, h), peaks_of(h, h.len() as int, u), sorted_down(v), v.to_multiset() == u.to_multiset()
    ensures v.len() > 0 ==> best(f1, f2, v[0].1 as int), v.len() == 0 ==> !aligned(f1, f2), v.len() > 0 ==> aligned(f1, f2)
{
    lemma_same_members(u, v);
    if h.len() > 0 {
        let m = argmax(h, h.len() as int);
        lemma_argmax(h, h.len() as int);
        if v.len() > 0 {
            let f = v[0];
            assert(v.contains(f));
            assert(u.contains(f));
            assert(h[f.1 as int] > 1);
            assert(count(f1, f2, f.1 as int) >= 2);
        } else {
            assert forall|d: int| 0 <= d < f1.len() + f2.len() implies #[trigger] count(f1, f2, d) < 2 by { if h[d] >= 2 { assert(peak(h, m)); assert(u.contains((h[m], m as usize))); assert(v.contains((h[m], m as usize))); } }
        }
        if h[m] > 1 {
            assert(peak(h, m));
            let x = (h[m], m as usize);
            assert(u.contains(x));
            assert(v.contains(x));
            let p = choose|p: int| 0 <= p < v.len() && v[p] == x;
            if p > 0 { assert(v[p].vle(v[0])); }
            assert(v[0].1 == m);
            assert forall|e: int| 0 <= e < f1.len() + f2.len() implies #[trigger] count(f1, f2, e) <= count(f1, f2, m) && (count(f1, f2, e) == count(f1, f2, m) ==> e <= m) by { assert(h[e] == count(f1, f2, e)); assert(h[m] == count(f1, f2, m)); }
        }
    } else if v.len() > 0 { assert(v.contains(v[0])); assert(u.contains(v[0])); }
}
// ---- segments
// differing bits of n items at offsets a and b
pub open spec fn diffs(f1: Seq<u32>, f2: Seq<u32>, a: int, b: int, n: int) -> int decreases n { if n <= 0 { 0 } else { diffs(f1, f2, a, b, n - 1) + popcount(f1[a + n - 1] ^ f2[b + n - 1]) } }
pub proof fn lemma_diffs_split(f1: Seq<u32>, f2: Seq<u32>, a: int, b: int, n: int, m: int) requires n >= 0, m >= 0 ensures diffs(f1, f2, a, b, n + m) == diffs(f1, f2, a, b, n) + diffs(f1, f2, a + n, b + n, m) decreases m { if m > 0 { lemma_diffs_split(f1, f2, a, b, n, m - 1); } }
pub proof fn lemma_diffs_nonneg(f1: Seq<u32>, f2: Seq<u32>, a: int, b: int, n: int) ensures diffs(f1, f2, a, b, n) >= 0 decreases n { if n > 0 { lemma_diffs_nonneg(f1, f2, a, b, n - 1); } }
pub proof fn lemma_pop0(n: nat) requires n <= 32 ensures vc_pop(0, n) == 0 decreases n { if n > 0 { lemma_pop0((n - 1) as nat); let k = (n - 1) as u32; assert(k < 32 ==> (0u32 >> k) & 1 == 0) by(bit_vector); } }
pub proof fn lemma_same_bits(x: u32) ensures popcount(x ^ x) == 0 { assert(x ^ x == 0) by(bit_vector); lemma_pop0(32); }
pub proof fn lemma_diffs_self(f: Seq<u32>, a: int, n: int) ensures diffs(f, f, a, a, n) == 0 decreases n { if n > 0 { lemma_diffs_self(f, a, n - 1); lemma_same_bits(f[a + n - 1]); } }
// a segment lies in both fingerprints, on alignment d, and is not empty
pub open spec fn seg_in(f1: Seq<u32>, f2: Seq<u32>, d: int, s: Segment) -> bool { s.items_count >= 1 && s.offset1 + s.items_count <= f1.len() && s.offset2 + s.items_count <= f2.len() && s.offset1 + f2.len() - s.offset2 == d }
// its score is the mean number of differing bits of its items, below 10
pub open spec fn seg_score(f1: Seq<u32>, f2: Seq<u32>, s: Segment) -> bool { s.score@ == r_div(diffs(f1, f2, s.offset1 as int, s.offset2 as int, s.items_count as int) as real, s.items_count as int as real) && 0real <= s.score@ && s.score@ < 10real }
pub open spec fn segs_in(f1: Seq<u32>, f2: Seq<u32>, d: int, v: Seq<Segment>) -> bool {
    (forall|k: int| 0 <= k < v.len() ==> seg_in(f1, f2, d, #[trigger] v[k])) && forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).offset1 + v[a].items_count <= (#[trigger] v[b]).offset1 && v[a].offset2 + v[a].items_count <= v[b].offset2
}
pub open spec fn segs_score(f1: Seq<u32>, f2: Seq<u32>, v: Seq<Segment>) -> bool { forall|k: int| 0 <= k < v.len() ==> seg_score(f1, f2, #[trigger] v[k]) }
pub proof fn lemma_mean(f1: Seq<u32>, f2: Seq<u32>, a: int, b: int, n: int, q: real) requires n >= 1, q == r_div(diffs(f1, f2, a, b, n) as real, n as real) ensures q >= 0real
{ lemma_diffs_nonneg(f1, f2, a, b, n); reveal(r_div); assert(q >= 0real) by(nonlinear_arith) requires q == (diffs(f1, f2, a, b, n) as real) / (n as real), n >= 1, diffs(f1, f2, a, b, n) >= 0; }
pub proof fn lemma_merge(p: int, n: int, q: int, m: int, s: real, t: real, u: real)
    requires n >= 1, m >= 1, s == r_div(p as real, n as real), t == r_div(q as real, m as real), u == r_div(r_mul(s, n as real) + r_mul(t, m as real), (n + m) as real)
    ensures u == r_div((p + q) as real, (n + m) as real), s < 10real && t < 10real ==> u < 10real
{
    reveal(r_div); reveal(r_mul);
    let (pr, nr, qr, mr) = (p as real, n as real, q as real, m as real);
    assert(s * nr == pr) by(nonlinear_arith) requires s == pr / nr, nr >= 1real;
    assert(t * mr == qr) by(nonlinear_arith) requires t == qr / mr, mr >= 1real;
    assert((n + m) as real == nr + mr && (p + q) as real == pr + qr);
    if s < 10real && t < 10real {
        assert(s * nr < 10real * nr) by(nonlinear_arith) requires s < 10real, nr >= 1real;
        assert(t * mr < 10real * mr) by(nonlinear_arith) requires t < 10real, mr >= 1real;
        assert(u < 10real) by(nonlinear_arith) requires u == (pr + qr) / (nr + mr), pr + qr < 10real * (nr + mr), nr + mr >= 2real;
    }
}
// what joining two consecutive segments gives
pub open spec fn consecutive(a: Segment, b: Segment) -> bool { a.offset1 + a.items_count == b.offset1 && a.offset2 + a.items_count == b.offset2 }
pub open spec fn joined_span(a: Segment, b: Segment, s: Segment) -> bool { s.offset1 == a.offset1 && s.offset2 == a.offset2 && s.items_count == a.items_count + b.items_count }
pub open spec fn joined_score(a: Segment, b: Segment, s: Segment) -> bool { s.score@ == r_div(r_mul(a.score@, a.items_count as int as real) + r_mul(b.score@, b.items_count as int as real), (a.items_count + b.items_count) as real) }
// a further segment is either appended or joined to the last one it continues
pub open spec fn extended(v: Seq<Segment>, b: Segment, w: Seq<Segment>) -> bool {
    w == v.push(b) || (v.len() > 0 && w == v.update(v.len() - 1, w.last()) && w.len() == v.len() && consecutive(v.last(), b) && joined_span(v.last(), b, w.last()))
}
pub open spec fn rescored(v: Seq<Segment>, b: Segment, w: Seq<Segment>) -> bool { w == v.push(b) || (v.len() > 0 && joined_score(v.last(), b, w.last())) }
pub proof fn lemma_extended(f1: Seq<u32>, f2: Seq<u32>, d: int, v: Seq<Segment>, b: Segment, w: Seq<Segment>)
    requires segs_in(f1, f2, d, v), seg_in(f1, f2, d, b), extended(v, b, w), v.len() > 0 ==> v.last().offset1 + v.last().items_count <= b.offset1 && v.last().offset2 + v.last().items_count <= b.offset2
    ensures segs_in(f1, f2, d, w), w.len() > 0, w.last().offset1 + w.last().items_count == b.offset1 + b.items_count, w.last().offset2 + w.last().items_count == b.offset2 + b.items_count
{
    if w == v.push(b) {
        assert forall|k: int| 0 <= k < w.len() implies seg_in(f1, f2, d, #[trigger] w[k]) by { if k < v.len() { assert(w[k] == v[k]); } }
        assert forall|x: int, y: int| 0 <= x < y < w.len() implies (#[trigger] w[x]).offset1 + w[x].items_count <= (#[trigger] w[y]).offset1 && w[x].offset2 + w[x].items_count <= w[y].offset2 by {
            let l = v[v.len() - 1];
            assert(w[x] == v[x]);
            if y == v.len() && x < v.len() - 1 { assert(v[x].offset1 + v[x].items_count <= l.offset1); }
        }
    } else {
        let l = v[v.len() - 1]; let m = w[w.len() - 1];
        assert(seg_in(f1, f2, d, l));
        assert(seg_in(f1, f2, d, m));
        assert forall|k: int| 0 <= k < w.len() implies seg_in(f1, f2, d, #[trigger] w[k]) by { if k < v.len() - 1 { assert(w[k] == v[k]); } }
        assert forall|x: int, y: int| 0 <= x < y < w.len() implies (#[trigger] w[x]).offset1 + w[x].items_count <= (#[trigger] w[y]).offset1 && w[x].offset2 + w[x].items_count <= w[y].offset2 by {
            assert(w[x] == v[x]);
            assert(v[x].offset1 + v[x].items_count <= v[y].offset1);
        }
    }
}
pub proof fn lemma_rescored(f1: Seq<u32>, f2: Seq<u32>, d: int, v: Seq<Segment>, b: Segment, w: Seq<Segment>)
    requires segs_in(f1, f2, d, v), seg_in(f1, f2, d, b), extended(v, b, w), segs_score(f1, f2, v), seg_score(f1, f2, b), rescored(v, b, w)
    ensures segs_score(f1, f2, w)
{
    if w == v.push(b) {
        assert forall|k: int| 0 <= k < w.len() implies seg_score(f1, f2, #[trigger] w[k]) by { if k < v.len() { assert(w[k] == v[k]); } }
    } else {
        let l = v[v.len() - 1]; let m = w[w.len() - 1];
        assert(seg_in(f1, f2, d, l) && seg_score(f1, f2, l));
        lemma_diffs_split(f1, f2, l.offset1 as int, l.offset2 as int, l.items_count as int, b.items_count as int);
        lemma_merge(diffs(f1, f2, l.offset1 as int, l.offset2 as int, l.items_count as int), l.items_count as int, diffs(f1, f2, b.offset1 as int, b.offset2 as int, b.items_count as int), b.items_count as int, l.score@, b.score@, m.score@);
        lemma_mean(f1, f2, m.offset1 as int, m.offset2 as int, m.items_count as int, m.score@);
        assert(seg_score(f1, f2, m));
        assert forall|k: int| 0 <= k < w.len() implies seg_score(f1, f2, #[trigger] w[k]) by { if k < v.len() - 1 { assert(w[k] == v[k]); } }
    }
}
pub proof fn lemma_zero_mean(n: int, q: real) requires n >= 1, q == r_div(0real, n as real) ensures q == 0real { reveal(r_div); assert(q == 0real) by(nonlinear_arith) requires q == 0real / (n as real), n >= 1; }
// cut positions: positive, below hi (none needed when hi is 0 or less) and increasing
pub open spec fn incr(s: Seq<usize>, hi: int) -> bool { (forall|a: int| 0 <= a < s.len() ==> 0 < #[trigger] s[a] && s[a] < hi) && forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b] }
// ---- smoothing zeros gives zeros
pub open spec fn zeros(s: Seq<real>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0real }
pub proof fn lemma_box_zero(s: Seq<real>, t: int, w: nat) requires zeros(s), s.len() > 0 ensures wsum(s, t, w) == 0real decreases w
{ if w > 0 { lemma_box_zero(s, t, (w - 1) as nat); let n = s.len() as int; lemma_mod_bound(t + w - 1, 2 * n); assert(0 <= refl(t + w - 1, n) < n); } }
pub proof fn lemma_boxes_zero(s: Seq<real>, w: int, m: nat) requires zeros(s), s.len() > 0 ensures zeros(boxes(s, w, m)), boxes(s, w, m).len() == s.len() decreases m
{
    if m > 0 {
        lemma_boxes_zero(s, w, (m - 1) as nat);
        let p = boxes(s, w, (m - 1) as nat);
        if w > 0 { assert forall|i: int| 0 <= i < p.len() implies #[trigger] box_spec(p, w)[i] == 0real by { lemma_box_zero(p, i - w / 2, w as nat); reveal(r_div); assert(0real / (w as real) == 0real) by(nonlinear_arith) requires w > 0; } }
    }
}
pub proof fn lemma_gauss_zero(s: Seq<real>, sigma: real, n: int) requires zeros(s), s.len() > 0 ensures zeros(gauss_spec(s, sigma, n))
{
    let m = gm(sigma, n); let wl = gwl(sigma, n);
    lemma_boxes_zero(s, wl, m as nat);
    lemma_boxes_zero(boxes(s, wl, m as nat), wl + 2, if m < n { (n - m) as nat } else { 0 });
}
pub proof fn lemma_grad_zero(s: Seq<real>) requires zeros(s) ensures zeros(grad_spec(s)) { reveal(r_div); }
// the smoother's widths at deviation 8 with 3 passes
pub proof fn lemma_gw83() ensures gw(8real, 3) == 16, gm(8real, 3) == 2
{
    reveal(r_div); reveal(r_mul);
    let a = r_div(r_mul(r_mul(12real, 8real), 8real), 3real) + 1real;
    assert(a == 257real);
    ax_sqrt(257real);
    let s = r_sqrt(257real);
    assert(16real <= s && s < 17real) by(nonlinear_arith) requires s * s == 257real, s >= 0real;
    assert(s.floor() == 16);
    assert(r_trunc(16real) == 16);
    assert(gw(8real, 3) == 16);
    assert(gwl(8real, 3) == 15);
    let x = r_div(r_mul(r_mul(12real, 8real), 8real) - r_mul(r_mul(3real, 15real), 15real) - r_mul(r_mul(4real, 3real), 15real) - r_mul(3real, 3real), r_mul(0real - 4real, 15real) - 4real);
    assert(r_mul(r_mul(12real, 8real), 8real) == 768real);
    assert(r_mul(r_mul(3real, 15real), 15real) == 675real);
    assert(r_mul(r_mul(4real, 3real), 15real) == 180real);
    assert(r_mul(3real, 3real) == 9real);
    assert(r_mul(0real - 4real, 15real) == 0real - 60real) by(nonlinear_arith) requires r_mul(0real - 4real, 15real) == (0real - 4real) * 15real;
    assert(x == 1.5real) by(nonlinear_arith) requires x == (0real - 96real) / (0real - 64real);
    assert((1.5real + 0.5real).floor() == 2);
    assert(r_round(x) == 2);
}
