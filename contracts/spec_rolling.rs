pub proof fn lemma_mod_distinct(r: int, s: int, m: int) requires m > 0, 0 <= r, r < s, s - r < m ensures r % m != s % m
{
    lemma_fundamental_div_mod(r, m); lemma_fundamental_div_mod(s, m);
    if r % m == s % m {
        let (a, b) = (r / m, s / m);
        assert(s - r == m * (b - a)) by(nonlinear_arith) requires r == m * a + r % m, s == m * b + s % m, r % m == s % m;
        assert(false) by(nonlinear_arith) requires s - r == m * (b - a), 0 < s - r < m;
    }
}
pub proof fn lemma_row_range(i: int, cols: int, max: int) requires 0 <= i < max, 0 <= cols ensures 0 <= i * cols, i * cols + cols <= cols * max, (i + 1) * cols == i * cols + cols
{ assert(0 <= i * cols) by(nonlinear_arith) requires 0 <= i, 0 <= cols; assert((i + 1) * cols <= max * cols) by(nonlinear_arith) requires i < max, 0 <= cols; assert((i + 1) * cols == i * cols + cols) by(nonlinear_arith); assert(max * cols == cols * max) by(nonlinear_arith); }
// cells of different rows do not overlap
pub proof fn lemma_rows_disjoint(i: int, k: int, cols: int) requires i != k, 0 <= cols ensures i < k ==> i * cols + cols <= k * cols, k < i ==> k * cols + cols <= i * cols
{
    if i < k { assert((i + 1) * cols <= k * cols) by(nonlinear_arith) requires i < k, 0 <= cols; assert((i + 1) * cols == i * cols + cols) by(nonlinear_arith); }
    else { assert((k + 1) * cols <= i * cols) by(nonlinear_arith) requires k < i, 0 <= cols; assert((k + 1) * cols == k * cols + cols) by(nonlinear_arith); }
}
impl RollingIntegralImage {
    pub open spec fn base(&self) -> bool { self.max_rows > 1 && self.data@.len() == self.columns * self.max_rows && self.columns * self.max_rows <= usize::MAX && (self.rows > 0 ==> self.columns > 0) }
    // stored running sum for the r-th row ever added (1-based; 0 is the empty prefix)
    pub open spec fn cell(&self, r: int, c: int) -> real { if r <= 0 || c <= 0 { 0real } else { self.data@[((r - 1) % (self.max_rows as int)) * self.columns + (c - 1)]@ } }
    // the image represents the rows h added since creation or reset
    pub open spec fn repr(&self, h: Seq<Seq<real>>) -> bool {
        &&& self.base()
        &&& self.rows == h.len()
        &&& forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]).len() == self.columns
        &&& forall|r: int, c: int| 0 <= r <= h.len() && r > h.len() - self.max_rows && 0 <= c <= self.columns ==> #[trigger] self.cell(r, c) == irect(h, r, c)
    }
    pub open spec fn ok(&self, r1: int, c1: int, r2: int, c2: int) -> bool {
        &&& self.base() && 0 <= r1 <= r2 <= self.rows && 0 <= c1 <= c2 <= self.columns
        &&& self.rows > self.max_rows ==> r1 > self.rows - self.max_rows
    }
    pub open spec fn val(&self, r1: int, c1: int, r2: int, c2: int) -> real { if r1 == r2 || c1 == c2 { 0real } else { self.cell(r2, c2) - self.cell(r1, c2) - self.cell(r2, c1) + self.cell(r1, c1) } }
    // C12: the queried value is the sum of the cells of the rectangle
    pub proof fn lemma_area(&self, h: Seq<Seq<real>>, r1: int, c1: int, r2: int, c2: int)
        requires self.repr(h), self.ok(r1, c1, r2, c2)
        ensures self.val(r1, c1, r2, c2) == rect(h, r1, c1, r2, c2)
    {
        if r1 == r2 || c1 == c2 { lemma_rect_empty(h, r1, c1, r2, c2); }
        else {
            lemma_rect(h, r1, c1, r2, c2);
            assert(self.cell(r2, c2) == irect(h, r2, c2)); assert(self.cell(r2, c1) == irect(h, r2, c1));
            assert(self.cell(r1, c2) == irect(h, r1, c2)); assert(self.cell(r1, c1) == irect(h, r1, c1));
        }
    }
}
