@item filter::Image
pub trait Image {
    spec fn area_ok(&self, x: int, y: int, w: int, h: int) -> bool;
    spec fn area_val(&self, x: int, y: int, w: int, h: int) -> real;
    fn area(&self, x: usize, y: usize, w: usize, h: usize) -> (r: Real)
        requires self.area_ok(x as int, y as int, w as int, h as int)
        ensures r@ == self.area_val(x as int, y as int, w as int, h as int);
}
@impl rolling_image::RollingIntegralImage.Image
    open spec fn area_ok(&self, x: int, y: int, w: int, h: int) -> bool { self.ok(x, y, w, h) }
    open spec fn area_val(&self, x: int, y: int, w: int, h: int) -> real { self.val(x, y, w, h) }
@fn rolling_image::RollingIntegralImage::new
@spec
    requires 1 <= max_rows < 1000000
    ensures r.repr(Seq::empty()), r.max_rows == max_rows + 1, r.columns == 0
@at end
    assert(__ret.columns * __ret.max_rows == 0) by(nonlinear_arith) requires __ret.columns == 0;
@fn rolling_image::RollingIntegralImage::reset
@spec
    requires old(self).base()
    ensures final(self).repr(Seq::empty()), final(self).max_rows == old(self).max_rows, final(self).columns == 0
@at end
    assert(self.columns * self.max_rows == 0) by(nonlinear_arith) requires self.columns == 0;
@fn rolling_image::RollingIntegralImage::rows
@spec
    ensures r == self.rows
@fn rolling_image::RollingIntegralImage::row
@spec
    requires self.base()
    ensures r@.len() == self.columns, forall|c: int| 0 <= c < self.columns ==> #[trigger] r@[c] == self.data@[(i as int % (self.max_rows as int)) * self.columns + c]
@at start
    proof { lemma_mod_bound(i as int, self.max_rows as int); lemma_row_range(i as int % (self.max_rows as int), self.columns as int, self.max_rows as int); }
@fn rolling_image::RollingIntegralImage::row_mut
@spec
    requires old(self).base()
    ensures r@.len() == old(self).columns, final(self).columns == old(self).columns, final(self).max_rows == old(self).max_rows, final(self).rows == old(self).rows,
        final(self).data@.len() == old(self).data@.len(), final(r)@.len() == r@.len() ==> final(self).base(),
        ({ let p = (i as int % (old(self).max_rows as int)) * old(self).columns;
           &&& p >= 0
           &&& forall|c: int| 0 <= c < old(self).columns ==> #[trigger] r@[c] == old(self).data@[p + c]
           &&& forall|k: int| 0 <= k < old(self).data@.len() ==> #[trigger] final(self).data@[k] == if p <= k < p + old(self).columns { final(r)@[k - p] } else { old(self).data@[k] } })
@at start
    proof { lemma_mod_bound(i as int, self.max_rows as int); lemma_row_range(i as int % (self.max_rows as int), self.columns as int, self.max_rows as int); }
@fn rolling_image::RollingIntegralImage::add_row
@spec
    requires old(self).base(), row.len() > 0, old(self).columns > 0 ==> row.len() == old(self).columns, row.len() * old(self).max_rows <= usize::MAX, old(self).rows < usize::MAX,
    ensures forall|h: Seq<Seq<real>>| old(self).repr(h) ==> #[trigger] final(self).repr(h.push(rvs(row@))),
        final(self).base(), final(self).max_rows == old(self).max_rows, final(self).columns == row.len(), final(self).rows == old(self).rows + 1,
@at start
    broadcast use {real_ax, seq_ax};
    let ghost o = *self;
    let ghost v = rvs(row@);
    proof { if self.columns == 0 { assert(self.columns * self.max_rows == 0) by(nonlinear_arith) requires self.columns == 0; } assert(row.len() * self.max_rows == self.max_rows * row.len()) by(nonlinear_arith); }
@at before 1
    let ghost max = self.max_rows as int;
    let ghost cols = row.len() as int;
    let ghost p = (self.rows as int % max) * cols;
    let ghost d0 = self.data@;
    proof { lemma_mod_bound(self.rows as int, max); lemma_row_range(self.rows as int % max, cols, max); }
@loop 1
    invariant k1 <= n1, n1 == cols, self.base(), self.columns == cols, row.len() == cols, self.max_rows == max, self.rows == o.rows, v == rvs(row@),
        p == (self.rows as int % max) * cols, 0 <= p, p + cols <= cols * max, 
        sum@ == psum(v, k1 as int),
        d0.len() == self.data@.len(),
        forall|c: int| 0 <= c < k1 ==> #[trigger] self.data@[p + c]@ == psum(v, c + 1),
        forall|k: int| 0 <= k < d0.len() && !(p <= k < p + cols) ==> #[trigger] self.data@[k] == d0[k],
    decreases n1 - k1
@at body 1
    broadcast use {real_ax, seq_ax};
    let ghost dp = self.data@;
@at tail 1
    assert(forall|c: int| 0 <= c < k1 ==> #[trigger] self.data@[p + c]@ == psum(v, c + 1));
@at before 2
    let ghost q = ((self.rows - 1) as int % max) * cols;
    proof {
        lemma_mod_bound((self.rows - 1) as int, max); lemma_row_range((self.rows - 1) as int % max, cols, max);
        if max > 1 { lemma_mod_distinct((self.rows - 1) as int, self.rows as int, max); lemma_rows_disjoint((self.rows - 1) as int % max, self.rows as int % max, cols); }
    }
@loop 2
    invariant k2 <= n2, n2 == cols, self.base(), self.columns == cols, self.max_rows == max, self.rows == o.rows, self.rows > 0, max > 1,
        p == (self.rows as int % max) * cols, 0 <= p, p + cols <= cols * max, 
        q == ((self.rows - 1) as int % max) * cols, 0 <= q, q + cols <= cols * max, q + cols <= p || p + cols <= q,
        d0.len() == self.data@.len(),
        forall|c: int| 0 <= c < k2 ==> #[trigger] self.data@[p + c]@ == psum(v, c + 1) + d0[q + c]@,
        forall|c: int| k2 <= c < cols ==> #[trigger] self.data@[p + c]@ == psum(v, c + 1),
        forall|k: int| 0 <= k < d0.len() && !(p <= k < p + cols) ==> #[trigger] self.data@[k] == d0[k],
    decreases n2 - k2
@at body 2
    broadcast use {real_ax, seq_ax};
    let ghost dp = self.data@;
@at end
    proof {
        assert forall|h: Seq<Seq<real>>| o.repr(h) implies #[trigger] self.repr(h.push(v)) by {
            let h2 = h.push(v);
            assert forall|r: int, c: int| 0 <= r <= h2.len() && r > h2.len() - self.max_rows && 0 <= c <= self.columns implies #[trigger] self.cell(r, c) == irect(h2, r, c) by {
                if r == 0 { }
                else if c == 0 { lemma_irect_zero(h2, r); }
                else if r == h2.len() {
                    lemma_irect_push(h, v, h.len() as int, c);
                    assert(irect(h2, r, c) == irect(h, r - 1, c) + psum(v, c));
                    assert(self.cell(r, c) == self.data@[p + (c - 1)]@);
                    if o.rows > 0 { assert(o.cell(r - 1, c) == irect(h, r - 1, c)); let q = ((r - 2) % max) * cols; assert(d0[q + (c - 1)] == o.data@[q + (c - 1)]); }
                } else {
                    lemma_irect_push(h, v, r, c);
                    assert(o.cell(r, c) == irect(h, r, c));
                    lemma_mod_distinct(r - 1, o.rows as int, max);
                    lemma_mod_bound(r - 1, max);
                    lemma_row_range((r - 1) % max, cols, max);
                    lemma_rows_disjoint((r - 1) % max, o.rows as int % max, cols);
                    let k = ((r - 1) % max) * cols + (c - 1);
                    assert(self.data@[k] == d0[k]);
                }
            }
        }
    }
@fn rolling_image::RollingIntegralImage.Image::area
@at start
    broadcast use {real_ax, seq_ax};
