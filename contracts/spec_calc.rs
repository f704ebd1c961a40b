// number of thresholds that the value reaches (a value equal to a threshold goes up); for ascending thresholds this is
// the index of the interval that contains the value
pub open spec fn quant(v: real, t0: real, t1: real, t2: real) -> int { if v < t1 { if v < t0 { 0 } else { 1 } } else { if v < t2 { 2 } else { 3 } } }
pub proof fn lemma_quant(v: real, t0: real, t1: real, t2: real) requires t0 <= t1 <= t2
    ensures quant(v, t0, t1, t2) == (if v >= t0 { 1int } else { 0 }) + (if v >= t1 { 1int } else { 0 }) + (if v >= t2 { 1int } else { 0 }), 0 <= quant(v, t0, t1, t2) <= 3 {}
pub open spec fn gray(i: int) -> int { if i == 0 { 0 } else if i == 1 { 1 } else if i == 2 { 3 } else { 2 } }
pub open spec fn cls_val<I: Image>(c: Classifier, im: &I, x: int) -> int { quant(filter_val(c.filter, im, x), c.quantizer.t0@, c.quantizer.t1@, c.quantizer.t2@) }
// the item: two bits per classifier, first classifier most significant, modulo 2^32
pub open spec fn item_val<I: Image>(cs: Seq<Classifier>, im: &I, x: int) -> int decreases cs.len() {
    if cs.len() == 0 { 0 } else { (item_val(cs.drop_last(), im, x) * 4 + gray(cls_val(cs.last(), im, x))) % 0x1_0000_0000 }
}
pub open spec fn pow4(n: nat) -> int decreases n { if n == 0 { 1 } else { 4 * pow4((n - 1) as nat) } }
// for at most 16 classifiers nothing is lost: the bits of classifier k are at position 2*(n-1-k)
pub proof fn lemma_item_bound<I: Image>(cs: Seq<Classifier>, im: &I, x: int) requires cs.len() <= 16
    ensures 0 <= item_val(cs, im, x) < pow4(cs.len()) <= 0x1_0000_0000,
        cs.len() > 0 ==> item_val(cs, im, x) == item_val(cs.drop_last(), im, x) * 4 + gray(cls_val(cs.last(), im, x)) decreases cs.len()
{
    reveal_with_fuel(pow4, 18);
    if cs.len() > 0 {
        lemma_item_bound(cs.drop_last(), im, x);
        let g = item_val(cs.drop_last(), im, x) * 4 + gray(cls_val(cs.last(), im, x));
        assert(pow4(cs.len()) == 4 * pow4((cs.len() - 1) as nat));
        assert(pow4(cs.len()) <= 0x1_0000_0000) by { lemma_pow4_16(cs.len()); }
        lemma_small_mod(g as nat, 0x1_0000_0000);
    }
}
pub proof fn lemma_pow4_16(n: nat) requires n <= 16 ensures pow4(n) <= 0x1_0000_0000 { reveal_with_fuel(pow4, 18); }
pub proof fn lemma_shl_or(b: u32, g: u32) requires g < 4 ensures (b << 2) | g == (b as int * 4 + g) % 0x1_0000_0000
{
    let t = ((b as u64) * 4 + g as u64) as u64;
    let m: u64 = t & 0xffff_ffffu64;
    assert(((b << 2) | g) as u64 == m) by(bit_vector) requires g < 4u32, t == add(mul(b as u64, 4u64), g as u64), m == t & 0xffff_ffffu64;
    assert(t & 0xffff_ffffu64 == t % 0x1_0000_0000u64) by(bit_vector);
}
// the classifiers fit bands 0..12
// ---- the fingerprint as a function of the feature rows
// a ghost image: the rows themselves
pub struct HImg { pub h: Ghost<Seq<Seq<real>>> }
impl Image for HImg {
    open spec fn area_ok(&self, x: int, y: int, w: int, h: int) -> bool { false }
    open spec fn area_val(&self, x: int, y: int, w: int, h: int) -> real { rect(self.h@, x, y, w, h) }
    fn area(&self, x: usize, y: usize, w: usize, h: usize) -> (r: Real) { proof { assert(false); } vstd::pervasive::unreached() }
}
pub open spec fn himg(h: Seq<Seq<real>>) -> HImg { HImg { h: Ghost(h) } }
// item k is computed from the rows k, .., k+W-1 alone, where W is the width of the widest classifier (C11)
pub open spec fn item_at(cs: Seq<Classifier>, h: Seq<Seq<real>>, k: int) -> u32 { item_val(cs, &himg(h.subrange(k, k + max_width(cs))), 0) as u32 }
pub open spec fn items_len(cs: Seq<Classifier>, n: int) -> int { if n - max_width(cs) + 1 > 0 { n - max_width(cs) + 1 } else { 0 } }
pub open spec fn items_of(cs: Seq<Classifier>, h: Seq<Seq<real>>) -> Seq<u32> { Seq::new(items_len(cs, h.len() as int) as nat, |k: int| item_at(cs, h, k)) }
pub proof fn lemma_rect_sub(h: Seq<Seq<real>>, a: int, b: int, r1: int, c1: int, r2: int, c2: int)
    requires 0 <= a, b <= h.len(), 0 <= r1, r2 <= b - a
    ensures rect(h, a + r1, c1, a + r2, c2) == rect(h.subrange(a, b), r1, c1, r2, c2) decreases r2 - r1
{ if r1 < r2 { lemma_rect_sub(h, a, b, r1, c1, r2 - 1, c2); assert(h.subrange(a, b)[r2 - 1] == h[a + r2 - 1]); } }
// the filter value on an image that represents h is the one on the window of rows
pub proof fn lemma_filter_val(f: Filter, im: RollingIntegralImage, h: Seq<Seq<real>>, x: int, w: int)
    requires im.repr(h), filter_ok(f, &im, x), f.width <= w, 0 <= x, x + w <= h.len()
    ensures filter_val(f, &im, x) == filter_val(f, &himg(h.subrange(x, x + w)), 0)
{
    let g = himg(h.subrange(x, x + w));
    assert forall|x1: int, y1: int, x2: int, y2: int| 0 <= x1 <= x2 <= f.width && f.y <= y1 <= y2 <= f.y + f.height implies im.area_val(x + x1, y1, x + x2, y2) == #[trigger] g.area_val(x1, y1, x2, y2) by {
        assert(im.area_ok(x + x1, y1, x + x2, y2));
        im.lemma_area(h, x + x1, y1, x + x2, y2);
        lemma_rect_sub(h, x, x + w, x1, y1, x2, y2);
    }
    let (y, fw, fh) = (f.y as int, f.width as int, f.height as int);
    let k = f.kind;
    let (a, b, c, d) = (pos1(k, 0, y, fw, fh), pos2(k, 0, y, fw, fh), neg1(k, 0, y, fw, fh), neg2(k, 0, y, fw, fh));
    lemma_partition(k, 0, y, fw, fh, 0, 0);
    lemma_partition(k, x, y, fw, fh, 0, 0);
    assert(a.val(&g) == g.area_val(a.x1, a.y1, a.x2, a.y2));
    assert(a.val(&g) == pos1(k, x, y, fw, fh).val(&im));
    assert(k is Filter3 ==> b.val(&g) == pos2(k, x, y, fw, fh).val(&im));
    assert(c.val(&g) == g.area_val(c.x1, c.y1, c.x2, c.y2));
    assert(!(k is Filter0) ==> c.val(&g) == neg1(k, x, y, fw, fh).val(&im));
    assert(k is Filter3 || k is Filter4 || k is Filter5 ==> d.val(&g) == neg2(k, x, y, fw, fh).val(&im));
}
pub proof fn lemma_item_val(cs: Seq<Classifier>, im: RollingIntegralImage, h: Seq<Seq<real>>, x: int, w: int)
    requires im.repr(h), forall|k: int| 0 <= k < cs.len() ==> filter_ok((#[trigger] cs[k]).filter, &im, x) && cs[k].filter.width <= w, 0 <= x, x + w <= h.len()
    ensures item_val(cs, &im, x) == item_val(cs, &himg(h.subrange(x, x + w)), 0) decreases cs.len()
{
    if cs.len() > 0 {
        let d = cs.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies filter_ok((#[trigger] d[k]).filter, &im, x) && d[k].filter.width <= w by { assert(d[k] == cs[k]); }
        lemma_item_val(d, im, h, x, w);
        lemma_filter_val(cs.last().filter, im, h, x, w);
    }
}
pub proof fn lemma_items_push(cs: Seq<Classifier>, h: Seq<Seq<real>>, v: Seq<real>)
    requires max_width(cs) >= 1
    ensures h.len() + 1 < max_width(cs) ==> items_of(cs, h.push(v)) == items_of(cs, h),
        h.len() + 1 >= max_width(cs) ==> items_of(cs, h.push(v)) == items_of(cs, h).push(item_at(cs, h.push(v), h.len() + 1 - max_width(cs)))
{
    let g = h.push(v);
    let w = max_width(cs);
    assert forall|k: int| 0 <= k < items_len(cs, h.len() as int) implies item_at(cs, g, k) == #[trigger] item_at(cs, h, k) by { assert(g.subrange(k, k + w) =~= h.subrange(k, k + w)); }
    if h.len() + 1 < w { assert(items_of(cs, g) =~= items_of(cs, h)); }
    else { assert(items_of(cs, g) =~= items_of(cs, h).push(item_at(cs, g, h.len() + 1 - w))); }
}
