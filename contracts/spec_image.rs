// sum of the first c values of a row
pub open spec fn psum(s: Seq<real>, c: int) -> real decreases c { if c <= 0 { 0real } else { psum(s, c - 1) + s[c - 1] } }
// sum of the cells of rows [r1, r2) and columns [c1, c2)
pub open spec fn rowsum(s: Seq<real>, c1: int, c2: int) -> real decreases c2 - c1 { if c2 <= c1 { 0real } else { rowsum(s, c1, c2 - 1) + s[c2 - 1] } }
pub open spec fn rect(h: Seq<Seq<real>>, r1: int, c1: int, r2: int, c2: int) -> real decreases r2 - r1 { if r2 <= r1 { 0real } else { rect(h, r1, c1, r2 - 1, c2) + rowsum(h[r2 - 1], c1, c2) } }
// running sum over all rows before r and all columns before c
pub open spec fn irect(h: Seq<Seq<real>>, r: int, c: int) -> real decreases r { if r <= 0 { 0real } else { irect(h, r - 1, c) + psum(h[r - 1], c) } }
pub proof fn lemma_rowsum(s: Seq<real>, c1: int, c2: int) requires 0 <= c1 <= c2 ensures rowsum(s, c1, c2) == psum(s, c2) - psum(s, c1) decreases c2 - c1
{ if c1 < c2 { lemma_rowsum(s, c1, c2 - 1); } }
pub proof fn lemma_rect(h: Seq<Seq<real>>, r1: int, c1: int, r2: int, c2: int) requires 0 <= r1 <= r2, 0 <= c1 <= c2
    ensures rect(h, r1, c1, r2, c2) == irect(h, r2, c2) - irect(h, r1, c2) - irect(h, r2, c1) + irect(h, r1, c1) decreases r2 - r1
{ if r1 < r2 { lemma_rect(h, r1, c1, r2 - 1, c2); lemma_rowsum(h[r2 - 1], c1, c2); } }
pub proof fn lemma_rect_empty(h: Seq<Seq<real>>, r1: int, c1: int, r2: int, c2: int) requires r1 == r2 || c1 == c2 ensures rect(h, r1, c1, r2, c2) == 0real decreases r2 - r1
{ if r1 < r2 { lemma_rect_empty(h, r1, c1, r2 - 1, c2); } }
pub proof fn lemma_irect_zero(h: Seq<Seq<real>>, r: int) ensures irect(h, r, 0) == 0real decreases r { if r > 0 { lemma_irect_zero(h, r - 1); } }
pub proof fn lemma_irect_push(h: Seq<Seq<real>>, x: Seq<real>, r: int, c: int) requires r <= h.len() ensures irect(h.push(x), r, c) == irect(h, r, c) decreases r { if r > 0 { lemma_irect_push(h, x, r - 1, c); } }

