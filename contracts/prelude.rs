
// ---------------------------------------------------------------------------
// Machine floating point treated as mathematical: f64/f32 become `Real`, a type whose
// view is a real number and whose operations are exact.  TRUSTED (see DESIGN.md).
// ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct Real { v: f64 }
impl Copy for Real {}
impl Clone for Real { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl View for Real { type V = real; uninterp spec fn view(&self) -> real; }
pub uninterp spec fn mk(r: real) -> Real;
pub broadcast axiom fn ax_mk(r: real) ensures #[trigger] mk(r)@ == r;
pub broadcast axiom fn ax_mk2(r: Real) ensures mk(#[trigger] r@) == r;
pub broadcast proof fn lemma_mul_comm(a: real, b: real) ensures #[trigger] r_mul(a, b) == r_mul(b, a) { reveal(r_mul); assert(a * b == b * a) by(nonlinear_arith); }
pub broadcast group real_ax { ax_mk, ax_mk2, lemma_mul_comm }

impl AddSpecImpl<Real> for Real {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Real) -> bool { true }
    open spec fn add_spec(self, o: Real) -> Real { mk(self@ + o@) }
}
impl core::ops::Add<Real> for Real { type Output = Real; #[verifier::external_body] fn add(self, o: Real) -> (r: Real) { Real { v: self.v + o.v } } }
impl AddSpecImpl<&Real> for Real {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &Real) -> bool { true }
    open spec fn add_spec(self, o: &Real) -> Real { mk(self@ + o@) }
}
impl core::ops::Add<&Real> for Real { type Output = Real; #[verifier::external_body] fn add(self, o: &Real) -> (r: Real) { Real { v: self.v + o.v } } }
impl<'a> AddSpecImpl<Real> for &'a Real {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Real) -> bool { true }
    open spec fn add_spec(self, o: Real) -> Real { mk(self@ + o@) }
}
impl<'a> core::ops::Add<Real> for &'a Real { type Output = Real; #[verifier::external_body] fn add(self, o: Real) -> (r: Real) { Real { v: self.v + o.v } } }
impl AddAssignSpecImpl<Real> for Real {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: Real) -> bool { true }
    open spec fn add_assign_spec(&self, o: Real) -> &Real { arbitrary() }
}
impl core::ops::AddAssign<Real> for Real { #[verifier::external_body] fn add_assign(&mut self, o: Real) ensures final(self)@ == old(self)@ + o@ { self.v += o.v } }

impl SubSpecImpl<Real> for Real {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Real) -> bool { true }
    open spec fn sub_spec(self, o: Real) -> Real { mk(self@ - o@) }
}
impl core::ops::Sub<Real> for Real { type Output = Real; #[verifier::external_body] fn sub(self, o: Real) -> (r: Real) { Real { v: self.v - o.v } } }
impl SubSpecImpl<&Real> for Real {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &Real) -> bool { true }
    open spec fn sub_spec(self, o: &Real) -> Real { mk(self@ - o@) }
}
impl core::ops::Sub<&Real> for Real { type Output = Real; #[verifier::external_body] fn sub(self, o: &Real) -> (r: Real) { Real { v: self.v - o.v } } }
impl<'a> SubSpecImpl<Real> for &'a Real {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Real) -> bool { true }
    open spec fn sub_spec(self, o: Real) -> Real { mk(self@ - o@) }
}
impl<'a> core::ops::Sub<Real> for &'a Real { type Output = Real; #[verifier::external_body] fn sub(self, o: Real) -> (r: Real) { Real { v: self.v - o.v } } }
impl SubAssignSpecImpl<Real> for Real {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: Real) -> bool { true }
    open spec fn sub_assign_spec(&self, o: Real) -> &Real { arbitrary() }
}
impl core::ops::SubAssign<Real> for Real { #[verifier::external_body] fn sub_assign(&mut self, o: Real) ensures final(self)@ == old(self)@ - o@ { self.v -= o.v } }

impl MulSpecImpl<Real> for Real {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Real) -> bool { true }
    open spec fn mul_spec(self, o: Real) -> Real { mk(r_mul(self@, o@)) }
}
impl core::ops::Mul<Real> for Real { type Output = Real; #[verifier::external_body] fn mul(self, o: Real) -> (r: Real) { Real { v: self.v * o.v } } }
impl MulSpecImpl<&Real> for Real {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &Real) -> bool { true }
    open spec fn mul_spec(self, o: &Real) -> Real { mk(r_mul(self@, o@)) }
}
impl core::ops::Mul<&Real> for Real { type Output = Real; #[verifier::external_body] fn mul(self, o: &Real) -> (r: Real) { Real { v: self.v * o.v } } }
impl<'a> MulSpecImpl<Real> for &'a Real {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Real) -> bool { true }
    open spec fn mul_spec(self, o: Real) -> Real { mk(r_mul(self@, o@)) }
}
impl<'a> core::ops::Mul<Real> for &'a Real { type Output = Real; #[verifier::external_body] fn mul(self, o: Real) -> (r: Real) { Real { v: self.v * o.v } } }
impl MulAssignSpecImpl<Real> for Real {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, o: Real) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Real) -> &Real { arbitrary() }
}
impl core::ops::MulAssign<Real> for Real { #[verifier::external_body] fn mul_assign(&mut self, o: Real) ensures final(self)@ == r_mul(old(self)@, o@) { self.v *= o.v } }

impl DivSpecImpl<Real> for Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Real) -> bool { true }
    open spec fn div_spec(self, o: Real) -> Real { mk(r_div(self@, o@)) }
}
impl core::ops::Div<Real> for Real { type Output = Real; #[verifier::external_body] fn div(self, o: Real) -> (r: Real) { Real { v: self.v / o.v } } }
impl DivSpecImpl<&Real> for Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &Real) -> bool { true }
    open spec fn div_spec(self, o: &Real) -> Real { mk(r_div(self@, o@)) }
}
impl core::ops::Div<&Real> for Real { type Output = Real; #[verifier::external_body] fn div(self, o: &Real) -> (r: Real) { Real { v: self.v / o.v } } }
impl<'a> DivSpecImpl<Real> for &'a Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Real) -> bool { true }
    open spec fn div_spec(self, o: Real) -> Real { mk(r_div(self@, o@)) }
}
impl<'a> core::ops::Div<Real> for &'a Real { type Output = Real; #[verifier::external_body] fn div(self, o: Real) -> (r: Real) { Real { v: self.v / o.v } } }
impl DivAssignSpecImpl<Real> for Real {
    open spec fn obeys_div_assign_spec() -> bool { false }
    open spec fn div_assign_req(&self, o: Real) -> bool { true }
    open spec fn div_assign_spec(&self, o: Real) -> &Real { arbitrary() }
}
impl core::ops::DivAssign<Real> for Real { #[verifier::external_body] fn div_assign(&mut self, o: Real) ensures final(self)@ == r_div(old(self)@, o@) { self.v /= o.v } }

impl AddAssignSpecImpl<&Real> for Real {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: &Real) -> bool { true }
    open spec fn add_assign_spec(&self, o: &Real) -> &Real { arbitrary() }
}
impl core::ops::AddAssign<&Real> for Real { #[verifier::external_body] fn add_assign(&mut self, o: &Real) ensures final(self)@ == old(self)@ + o@ { self.v += o.v } }
impl SubAssignSpecImpl<&Real> for Real {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: &Real) -> bool { true }
    open spec fn sub_assign_spec(&self, o: &Real) -> &Real { arbitrary() }
}
impl core::ops::SubAssign<&Real> for Real { #[verifier::external_body] fn sub_assign(&mut self, o: &Real) ensures final(self)@ == old(self)@ - o@ { self.v -= o.v } }
impl MulAssignSpecImpl<&Real> for Real {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, o: &Real) -> bool { true }
    open spec fn mul_assign_spec(&self, o: &Real) -> &Real { arbitrary() }
}
impl core::ops::MulAssign<&Real> for Real { #[verifier::external_body] fn mul_assign(&mut self, o: &Real) ensures final(self)@ == r_mul(old(self)@, o@) { self.v *= o.v } }
impl DivAssignSpecImpl<&Real> for Real {
    open spec fn obeys_div_assign_spec() -> bool { false }
    open spec fn div_assign_req(&self, o: &Real) -> bool { true }
    open spec fn div_assign_spec(&self, o: &Real) -> &Real { arbitrary() }
}
impl core::ops::DivAssign<&Real> for Real { #[verifier::external_body] fn div_assign(&mut self, o: &Real) ensures final(self)@ == r_div(old(self)@, o@) { self.v /= o.v } }
impl<'a, 'b> AddSpecImpl<&'b Real> for &'a Real {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &'b Real) -> bool { true }
    open spec fn add_spec(self, o: &'b Real) -> Real { mk(self@ + o@) }
}
impl<'a, 'b> core::ops::Add<&'b Real> for &'a Real { type Output = Real; #[verifier::external_body] fn add(self, o: &'b Real) -> (r: Real) { Real { v: self.v + o.v } } }
impl<'a, 'b> SubSpecImpl<&'b Real> for &'a Real {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'b Real) -> bool { true }
    open spec fn sub_spec(self, o: &'b Real) -> Real { mk(self@ - o@) }
}
impl<'a, 'b> core::ops::Sub<&'b Real> for &'a Real { type Output = Real; #[verifier::external_body] fn sub(self, o: &'b Real) -> (r: Real) { Real { v: self.v - o.v } } }
impl<'a, 'b> MulSpecImpl<&'b Real> for &'a Real {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'b Real) -> bool { true }
    open spec fn mul_spec(self, o: &'b Real) -> Real { mk(r_mul(self@, o@)) }
}
impl<'a, 'b> core::ops::Mul<&'b Real> for &'a Real { type Output = Real; #[verifier::external_body] fn mul(self, o: &'b Real) -> (r: Real) { Real { v: self.v * o.v } } }
impl<'a, 'b> DivSpecImpl<&'b Real> for &'a Real {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &'b Real) -> bool { true }
    open spec fn div_spec(self, o: &'b Real) -> Real { mk(r_div(self@, o@)) }
}
impl<'a, 'b> core::ops::Div<&'b Real> for &'a Real { type Output = Real; #[verifier::external_body] fn div(self, o: &'b Real) -> (r: Real) { Real { v: self.v / o.v } } }
impl NegSpecImpl for Real {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Real { mk(0real - self@) }
}
impl core::ops::Neg for Real { type Output = Real; #[verifier::external_body] fn neg(self) -> (r: Real) { Real { v: -self.v } } }
impl PartialEqSpecImpl<Real> for Real { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Real) -> bool { self@ == o@ } }
impl core::cmp::PartialEq<Real> for Real { #[verifier::external_body] fn eq(&self, o: &Real) -> bool { self.v == o.v } }
impl PartialOrdSpecImpl<Real> for Real {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Real) -> Option<core::cmp::Ordering> { if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ > o@ { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } }
}
impl core::cmp::PartialOrd<Real> for Real { #[verifier::external_body] fn partial_cmp(&self, o: &Real) -> Option<core::cmp::Ordering> { self.v.partial_cmp(&o.v) } }

// products and quotients are opaque unless a proof reveals them
#[verifier::opaque] pub open spec fn r_mul(a: real, b: real) -> real { a * b }
#[verifier::opaque] pub open spec fn r_div(a: real, b: real) -> real { a / b }
pub uninterp spec fn r_ln(x: real) -> real;
pub uninterp spec fn r_log2(x: real) -> real;
pub uninterp spec fn r_cos(x: real) -> real;
pub uninterp spec fn r_sqrt(x: real) -> real;
pub uninterp spec fn r_pi() -> real;
pub open spec fn r_abs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn r_pow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * r_pow(x, (n - 1) as nat) } }
// floor and rounding of reals (half away from zero, as f64::round)
pub open spec fn r_round(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((0real - x) + 0.5real).floor() } }
pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures r_sqrt(x) >= 0real, r_sqrt(x) * r_sqrt(x) == x;
pub open spec fn sat(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
// truncation toward zero of a real, as `as` casts do before saturating
pub open spec fn r_trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((0real - x).floor()) } }
impl Real {
    #[verifier::external_body] pub fn lit(n: u128, d: u128) -> (r: Real) requires d > 0 ensures r@ == (n as real) / (d as real), d == 1 ==> r@ == n as real { unimplemented!() }
    #[verifier::external_body] pub fn neg_lit(n: u128, d: u128) -> (r: Real) requires d > 0 ensures r@ == 0real - (n as real) / (d as real), d == 1 ==> r@ == 0real - n as real { unimplemented!() }
    #[verifier::external_body] pub fn pi() -> (r: Real) ensures r@ == r_pi() { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Real) ensures r@ == r_sqrt(self@) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: Real) ensures r@ == self@.floor() as real { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: Real) ensures r@ == r_round(self@) as real { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Real) ensures r@ == r_abs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: Real) ensures r@ == r_ln(self@) { unimplemented!() }
    #[verifier::external_body] pub fn log2(self) -> (r: Real) ensures r@ == r_log2(self@) { unimplemented!() }
    #[verifier::external_body] pub fn cos(self) -> (r: Real) ensures r@ == r_cos(self@) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: Real) requires n >= 0 ensures r@ == r_pow(self@, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
    #[verifier::external_body] pub fn to_usize_sat(self) -> (r: usize) ensures r as int == sat(r_trunc(self@), 0, usize::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn to_u8_sat(self) -> (r: u8) ensures r as int == sat(r_trunc(self@), 0, 255) { unimplemented!() }
    #[verifier::external_body] pub fn to_u64_sat(self) -> (r: u64) ensures r as int == sat(r_trunc(self@), 0, u64::MAX as int) { unimplemented!() }
    #[verifier::external_body] pub fn to_u32_sat(self) -> (r: u32) ensures r as int == sat(r_trunc(self@), 0, u32::MAX as int) { unimplemented!() }
}
pub trait ToReal : Sized { spec fn rv(self) -> real; fn to_real(self) -> (r: Real) ensures r@ == self.rv(); }
impl ToReal for Real { open spec fn rv(self) -> real { self@ } fn to_real(self) -> (r: Real) { self } }
impl ToReal for u8 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { Real::lit(self as u128, 1) } }
impl ToReal for u16 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { Real::lit(self as u128, 1) } }
impl ToReal for u32 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { Real::lit(self as u128, 1) } }
impl ToReal for u64 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { Real::lit(self as u128, 1) } }
impl ToReal for usize { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { Real::lit(self as u128, 1) } }
impl ToReal for i8 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { if self >= 0 { Real::lit(self as u128, 1) } else { Real::neg_lit((-(self as i128)) as u128, 1) } } }
impl ToReal for i16 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { if self >= 0 { Real::lit(self as u128, 1) } else { Real::neg_lit((-(self as i128)) as u128, 1) } } }
impl ToReal for i32 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { if self >= 0 { Real::lit(self as u128, 1) } else { Real::neg_lit((-(self as i128)) as u128, 1) } } }
impl ToReal for i64 { open spec fn rv(self) -> real { self as int as real } fn to_real(self) -> (r: Real) { if self >= 0 { Real::lit(self as u128, 1) } else { Real::neg_lit((-(self as i128)) as u128, 1) } } }

pub open spec fn rvs(s: Seq<Real>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn lemma_rvs_push(s: Seq<Real>, x: Real) ensures #[trigger] rvs(s.push(x)) == rvs(s).push(x@) { assert(rvs(s.push(x)) =~= rvs(s).push(x@)); }
pub broadcast proof fn lemma_take_push<T>(s: Seq<T>, n: int, x: T) requires 0 <= n < s.len(), x == s[n] ensures #[trigger] s.take(n).push(x) == s.take(n + 1) { assert(s.take(n).push(x) =~= s.take(n + 1)); }
pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast group seq_ax { lemma_rvs_push, lemma_take_push, lemma_take_all }
pub fn rt_assert(b: bool) requires b { }
pub fn rt_unreachable() -> ! requires false { vstd::pervasive::unreached() }
pub trait VcOrd : Sized { spec fn vle(self, o: Self) -> bool; fn vc_le(self, o: Self) -> (r: bool) ensures r == self.vle(o); }
impl VcOrd for u8 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for u16 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for u32 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for u64 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for usize { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for i8 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for i16 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for i32 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for i64 { open spec fn vle(self, o: Self) -> bool { self <= o } fn vc_le(self, o: Self) -> bool { self <= o } }
impl VcOrd for Real { open spec fn vle(self, o: Self) -> bool { self@ <= o@ } fn vc_le(self, o: Self) -> bool { self <= o } }
pub fn vc_min<T: VcOrd + Copy>(a: T, b: T) -> (r: T) ensures r == if a.vle(b) { a } else { b } { if a.vc_le(b) { a } else { b } }
pub fn vc_max<T: VcOrd + Copy>(a: T, b: T) -> (r: T) ensures r == if a.vle(b) { b } else { a } { if a.vc_le(b) { b } else { a } }
pub trait VcPush<T> { spec fn vcs(&self) -> Seq<T>; fn vc_do_push(&mut self, x: T) ensures final(self).vcs() == old(self).vcs().push(x); fn vc_do_drain(&mut self, n: usize) requires n <= old(self).vcs().len() ensures final(self).vcs() == old(self).vcs().skip(n as int); }
impl<T> VcPush<T> for Vec<T> { open spec fn vcs(&self) -> Seq<T> { self@ } fn vc_do_push(&mut self, x: T) { self.push(x) } fn vc_do_drain(&mut self, n: usize) {
    let ghost o = self@;
    let mut k: usize = 0;
    while k < n invariant k <= n, n <= o.len(), self@ == o.skip(k as int) decreases n - k
    { self.remove(0); proof { assert(o.skip(k as int).skip(1) =~= o.skip(k + 1)); assert(self@ =~= o.skip(k + 1)); } k = k + 1; }
}  }
impl<T> VcPush<T> for VecDeque<T> { open spec fn vcs(&self) -> Seq<T> { self@ } fn vc_do_push(&mut self, x: T) { self.push_back(x) } fn vc_do_drain(&mut self, n: usize) {
    let ghost o = self@;
    let mut k: usize = 0;
    while k < n invariant k <= n, n <= o.len(), self@ == o.skip(k as int) decreases n - k
    { self.pop_front(); proof { assert(o.skip(k as int).skip(1) =~= o.skip(k + 1)); assert(self@ =~= o.skip(k + 1)); } k = k + 1; }
}  }
pub fn vc_push<T, C: VcPush<T>>(c: &mut C, x: T) ensures final(c).vcs() == old(c).vcs().push(x) { c.vc_do_push(x) }
pub fn vc_drain_front<C: VcPush<Real>>(c: &mut C, n: usize) requires n <= old(c).vcs().len() ensures final(c).vcs() == old(c).vcs().skip(n as int) { c.vc_do_drain(n) }
pub fn vc_dq_get<T>(d: &VecDeque<T>, k: usize) -> (r: &T) requires k < d@.len() ensures *r == d@[k as int] { &d[k] }
pub fn vc_vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ let mut r: Vec<T> = Vec::new(); let mut k: usize = 0; while k < n invariant k <= n, r@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] r@[i] == x decreases n - k { r.push(x); k = k + 1; } r }
pub open spec fn popcount(x: u32) -> nat { vc_pop(x, 32) }
pub open spec fn vc_pop(x: u32, n: nat) -> nat decreases n { if n == 0 { 0 } else { vc_pop(x, (n - 1) as nat) + (if (x >> ((n - 1) as u32)) & 1 == 1 { 1nat } else { 0nat }) } }
pub fn vc_count_ones(x: u32) -> (r: u32) ensures r as nat == popcount(x), r <= 32
{ let mut r: u32 = 0; let mut k: u32 = 0; while k < 32 invariant k <= 32, r <= k, r as nat == vc_pop(x, k as nat) decreases 32 - k { if (x >> k) & 1 == 1 { r = r + 1; } k = k + 1; } r }
// mutable view of the whole contents (used where the source takes a mutable sub-range)
pub trait VcSlice<T> { spec fn vsl(&self) -> Seq<T>; fn vc_ms(&mut self) -> (r: &mut [T]) ensures r@ == old(self).vsl(), final(r)@ == final(self).vsl(); }
impl<T> VcSlice<T> for Vec<T> { open spec fn vsl(&self) -> Seq<T> { self@ } fn vc_ms(&mut self) -> (r: &mut [T]) { self.as_mut_slice() } }
impl<T> VcSlice<T> for [T] { open spec fn vsl(&self) -> Seq<T> { self@ } fn vc_ms(&mut self) -> (r: &mut [T]) { self } }
impl<T> VcSlice<T> for Box<[T]> { open spec fn vsl(&self) -> Seq<T> { self@ } fn vc_ms(&mut self) -> (r: &mut [T]) { self } }
// an iterator over the given items
pub struct VIter<T> { pub v: Vec<T>, pub pos: usize }
impl<T: Copy> VIter<T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
    pub open spec fn rest(&self) -> Seq<T> { self.v@.skip(self.pos as int) }
    pub fn new(v: Vec<T>) -> (r: Self) ensures r.v == v, r.pos == 0, r.wf() { VIter { v, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<T>) requires old(self).wf() ensures final(self).wf(), final(self).v == old(self).v,
        old(self).pos < old(self).v@.len() ==> r == Some(old(self).v@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
        old(self).pos >= old(self).v@.len() ==> r is None && final(self).pos == old(self).pos,
    { if self.pos < self.v.len() { let x = self.v[self.pos]; self.pos = self.pos + 1; Some(x) } else { None } }
    pub fn has_next(&self) -> (r: bool) ensures r == (self.pos < self.v@.len()) { self.pos < self.v.len() }
}
// slice chunking
pub fn vc_nchunks_exact(len: usize, n: usize) -> (r: usize) requires n > 0 ensures r == len / n { len / n }
pub fn vc_nchunks(len: usize, n: usize) -> (r: usize) requires n > 0 ensures r as int == (len as int + n as int - 1) / n as int, n < usize::MAX ==> (r > 0 <==> len > 0) {
    proof {
        let (l, m) = (len as int, n as int);
        lemma_fundamental_div_mod(l, m);
        lemma_mod_bound(l, m);
        if l % m == 0 {
            assert(l + m - 1 == (l / m) * m + (m - 1)) by(nonlinear_arith) requires l == m * (l / m) + l % m, l % m == 0;
            lemma_fundamental_div_mod_converse(l + m - 1, m, l / m, m - 1);
        } else {
            assert(m >= 2);
            assert(l / m <= l / 2) by(nonlinear_arith) requires m >= 2, l == m * (l / m) + l % m, 0 <= l % m, l >= 0;
            assert(l + m - 1 == (l / m + 1) * m + (l % m - 1)) by(nonlinear_arith) requires l == m * (l / m) + l % m;
            lemma_fundamental_div_mod_converse(l + m - 1, m, l / m + 1, l % m - 1);
        }
        if l > 0 { assert((l + m - 1) / m >= 1) by(nonlinear_arith) requires l >= 1, m >= 1; } else { lemma_small_mod((m - 1) as nat, m as nat); assert((m - 1) / m == 0) by(nonlinear_arith) requires m >= 1; }
    }
    if len % n == 0 { len / n } else { len / n + 1 }
}
pub fn vc_chunk_exact<T>(s: &[T], n: usize, k: usize) -> (r: &[T]) requires n > 0, (k + 1) * n <= s@.len() ensures r@ == s@.subrange(k * n, k * n + n)
{ let len = s.len(); proof { assert(k * n + n == (k + 1) * n && 0 <= k * n) by (nonlinear_arith) requires k >= 0, n >= 0; } &s[k * n..k * n + n] }
pub fn vc_chunk<T>(s: &[T], n: usize, k: usize) -> (r: &[T]) requires n > 0, k * n < s@.len() ensures r@ == s@.subrange(k * n, if k * n + n <= s@.len() { k * n + n } else { s@.len() as int }) 
{ let len = s.len(); proof { assert(0 <= k * n) by (nonlinear_arith) requires k >= 0, n >= 0; } let a = k * n; let b = if n <= len - a { a + n } else { len }; &s[a..b] }
pub assume_specification<T> [ <[T]>::fill ] (s: &mut [T], x: T) where T: std::clone::Clone
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned(x, #[trigger] final(s)@[i]);
pub assume_specification<T> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>) where T: std::clone::Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
pub fn vc_array_of<T: Copy, const N: usize>(x: T) -> (r: [T; N]) ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == x { [x; N] }
#[verifier::external_body] pub fn vc_boxed<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { v.into_boxed_slice() }

pub trait VcZero : Sized { spec fn zv() -> Self; fn vc_zv() -> (r: Self) ensures r == Self::zv(); }
impl VcZero for u8 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for u16 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for u32 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for u64 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for usize { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for i8 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for i16 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for i32 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for i64 { open spec fn zv() -> Self { 0 } fn vc_zv() -> Self { 0 } }
impl VcZero for Real { open spec fn zv() -> Self { mk(0real) } fn vc_zv() -> Self { broadcast use real_ax; Real::lit(0, 1) } }
pub fn vc_div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == (a as int + b as int - 1) / b as int { vc_nchunks(a, b) }
pub fn vc_zero<T: VcZero>() -> (r: T) ensures r == T::zv() { T::vc_zv() }
