// Euclidean length and the normalised row (C18)
pub open spec fn sq_sum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sq_sum(s.drop_last()) + r_pow(s.last(), 2) } }
pub broadcast proof fn lemma_sq(x: real) ensures #[trigger] r_mul(x, x) == r_pow(x, 2) { reveal(r_mul); reveal_with_fuel(r_pow, 3); }
pub broadcast group sq_ax { lemma_sq }
pub open spec fn norm_of(s: Seq<real>) -> real { r_sqrt(sq_sum(s)) }
pub open spec fn normalized_eps(s: Seq<real>, eps: real) -> Seq<real> { Seq::new(s.len(), |i: int| if norm_of(s) < eps { 0real } else { r_div(s[i], norm_of(s)) }) }
pub open spec fn normalized(s: Seq<real>) -> Seq<real> { normalized_eps(s, 1real / 100real) }
pub open spec fn norm_rows(h: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(h.len(), |i: int| normalized(h[i])) }
pub proof fn lemma_sq_sum_nonneg(s: Seq<real>) ensures sq_sum(s) >= 0real decreases s.len()
{ if s.len() > 0 { lemma_sq_sum_nonneg(s.drop_last()); reveal_with_fuel(r_pow, 3); let x = s.last(); assert(x * x >= 0real) by(nonlinear_arith); } }
pub proof fn lemma_sq_sum_scale(s: Seq<real>, n: real) requires n > 0real
    ensures sq_sum(Seq::new(s.len(), |i: int| r_div(s[i], n))) * (n * n) == sq_sum(s) decreases s.len()
{
    let t = Seq::new(s.len(), |i: int| r_div(s[i], n));
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_sq_sum_scale(d, n);
        assert(t.drop_last() =~= Seq::new(d.len(), |i: int| r_div(d[i], n)));
        reveal_with_fuel(r_pow, 3);
        reveal(r_div);
        let (x, y) = (s.last(), t.last());
        assert(y * n == x) by(nonlinear_arith) requires y == x / n, n > 0real;
        assert((y * y) * (n * n) == x * x) by(nonlinear_arith) requires y * n == x;
        let a = sq_sum(t.drop_last());
        let b = sq_sum(d);
        assert((a + y * y) * (n * n) == b + x * x) by(nonlinear_arith) requires a * (n * n) == b, (y * y) * (n * n) == x * x;
        assert(r_pow(x, 2) == x * x);
        assert(r_pow(y, 2) == y * y);
    } else { assert(sq_sum(t) == 0real); assert(sq_sum(s) == 0real); assert(0real * (n * n) == 0real) by(nonlinear_arith); }
}
// C18: the row passed on is zero, exactly when the norm is below 0.01, or has norm 1 and keeps direction and signs
pub proof fn theorem_normalized(s: Seq<real>)
    ensures
        normalized(s).len() == s.len(),
        norm_of(s) < 1real / 100real ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] normalized(s)[i] == 0real,
        norm_of(s) >= 1real / 100real ==> {
            &&& norm_of(normalized(s)) == 1real
            &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] normalized(s)[i]) * norm_of(s) == s[i]
            &&& forall|i: int| 0 <= i < s.len() ==> ((#[trigger] normalized(s)[i] > 0real) == (s[i] > 0real)) && ((normalized(s)[i] < 0real) == (s[i] < 0real))
        },
{
    lemma_sq_sum_nonneg(s);
    ax_sqrt(sq_sum(s));
    let n = norm_of(s);
    let t = normalized(s);
    if n >= 1real / 100real {
        assert(t =~= Seq::new(s.len(), |i: int| r_div(s[i], n)));
        lemma_sq_sum_scale(s, n);
        lemma_sq_sum_nonneg(t);
        ax_sqrt(sq_sum(t));
        let q = sq_sum(t);
        assert(q == 1real) by(nonlinear_arith) requires q * (n * n) == n * n, n >= 1real / 100real;
        let r = r_sqrt(q);
        assert(r == 1real) by(nonlinear_arith) requires r * r == 1real, r >= 0real;
        reveal(r_div);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i]) * n == s[i] && ((t[i] > 0real) == (s[i] > 0real)) && ((t[i] < 0real) == (s[i] < 0real)) by {
            let (x, y) = (s[i], t[i]);
            assert(y * n == x && (y > 0real) == (x > 0real) && (y < 0real) == (x < 0real)) by(nonlinear_arith) requires y == x / n, n > 0real;
        }
    }
}
