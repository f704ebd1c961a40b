// position of time t on a sequence of n values that is mirrored at both ends (period 2n)
pub open spec fn refl(t: int, n: int) -> int { let r = t % (2 * n); if r < n { r } else { 2 * n - 1 - r } }
// sum of w consecutive values of the mirrored sequence, starting at time t
pub open spec fn wsum(s: Seq<real>, t: int, w: nat) -> real decreases w {
    if w == 0 { 0real } else { wsum(s, t, (w - 1) as nat) + s[refl(t + w - 1, s.len() as int)] }
}
// box filter: mean of the window of width w that starts w/2 values before i
pub open spec fn box_at(s: Seq<real>, w: int, i: int) -> real { r_div(wsum(s, i - w / 2, w as nat), w as real) }
pub open spec fn box_spec(s: Seq<real>, w: int) -> Seq<real> { if w <= 0 { s } else { Seq::new(s.len(), |i: int| box_at(s, w, i)) } }
pub open spec fn boxes(s: Seq<real>, w: int, m: nat) -> Seq<real> decreases m { if m == 0 { s } else { box_spec(boxes(s, w, (m - 1) as nat), w) } }

pub proof fn lemma_wsum_step(s: Seq<real>, t: int, w: nat)
    requires w >= 1,
    ensures wsum(s, t + 1, w) == wsum(s, t, w) - s[refl(t, s.len() as int)] + s[refl(t + w, s.len() as int)],
    decreases w,
{
    reveal_with_fuel(wsum, 3);
    if w >= 2 { lemma_wsum_step(s, t, (w - 1) as nat); assert(t + 1 + (w - 1) - 1 == t + (w - 1)); }
    else { assert(t + 1 + 1 - 1 == t + 1); }
}
pub proof fn lemma_mod_step(t: int, n: int)
    requires n > 0,
    ensures (t + 1) % n == if t % n + 1 == n { 0 } else { t % n + 1 }, 0 <= t % n < n,
        (t - 1) % n == if t % n == 0 { n - 1 } else { t % n - 1 },
{
    lemma_mod_bound(t, n);
    lemma_fundamental_div_mod(t, n);
    let q = t / n; let r = t % n;
    assert(q * n == n * q) by(nonlinear_arith);
    if r + 1 == n { assert((q + 1) * n == q * n + n) by(nonlinear_arith); lemma_fundamental_div_mod_converse(t + 1, n, q + 1, 0); }
    else { lemma_fundamental_div_mod_converse(t + 1, n, q, r + 1); }
    if r == 0 { assert((q - 1) * n == q * n - n) by(nonlinear_arith); lemma_fundamental_div_mod_converse(t - 1, n, q - 1, n - 1); }
    else { lemma_fundamental_div_mod_converse(t - 1, n, q, r - 1); }
}
pub proof fn lemma_refl_small(t: int, n: int) requires 0 <= t < n ensures t % (2 * n) == t, refl(t, n) == t { lemma_small_mod(t as nat, (2 * n) as nat); }

// widths and pass counts that make n box filters approximate a Gaussian of deviation sigma
pub open spec fn gw(sigma: real, n: int) -> int { r_trunc(r_sqrt(r_div(r_mul(r_mul(12real, sigma), sigma), n as real) + 1real).floor() as real) }
pub open spec fn gwl(sigma: real, n: int) -> int { let w = gw(sigma, n); if w % 2 == 0 { w - 1 } else { w } }
pub open spec fn gm(sigma: real, n: int) -> int {
    let wl = gwl(sigma, n) as real; let nn = n as real;
    let x = r_round(r_div(r_mul(r_mul(12real, sigma), sigma) - r_mul(r_mul(nn, wl), wl) - r_mul(r_mul(4real, nn), wl) - r_mul(3real, nn), r_mul(0real - 4real, wl) - 4real));
    if x < 0 { 0 } else { x }
}
pub open spec fn gauss_spec(s: Seq<real>, sigma: real, n: int) -> Seq<real> {
    let m = gm(sigma, n); let wl = gwl(sigma, n);
    boxes(boxes(s, wl, m as nat), wl + 2, if m < n { (n - m) as nat } else { 0 })
}
