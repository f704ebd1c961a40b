// specifications of standard-library functions the verifier's library does not cover; a block is included only when the
// extracted text names the function (assumed contracts, listed in the evidence of the checks that use them)
//@when abs_diff
pub assume_specification [ u8::abs_diff ] (a: u8, b: u8) -> (r: u8) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ u16::abs_diff ] (a: u16, b: u16) -> (r: u16) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ u32::abs_diff ] (a: u32, b: u32) -> (r: u32) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ u64::abs_diff ] (a: u64, b: u64) -> (r: u64) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ usize::abs_diff ] (a: usize, b: usize) -> (r: usize) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ i8::abs_diff ] (a: i8, b: i8) -> (r: u8) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ i16::abs_diff ] (a: i16, b: i16) -> (r: u16) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ i32::abs_diff ] (a: i32, b: i32) -> (r: u32) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ i64::abs_diff ] (a: i64, b: i64) -> (r: u64) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
pub assume_specification [ isize::abs_diff ] (a: isize, b: isize) -> (r: usize) ensures r as int == if a <= b { b as int - a as int } else { a as int - b as int };
//@when div_euclid
pub assume_specification [ u8::div_euclid ] (a: u8, b: u8) -> (r: u8) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [ u16::div_euclid ] (a: u16, b: u16) -> (r: u16) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [ u32::div_euclid ] (a: u32, b: u32) -> (r: u32) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [ u64::div_euclid ] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [ usize::div_euclid ] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == a as int / b as int;
pub assume_specification [ i8::div_euclid ] (a: i8, b: i8) -> (r: i8) requires b != 0, !(a == i8::MIN && b == -1) ensures r as int == a as int / b as int;
pub assume_specification [ i16::div_euclid ] (a: i16, b: i16) -> (r: i16) requires b != 0, !(a == i16::MIN && b == -1) ensures r as int == a as int / b as int;
pub assume_specification [ i32::div_euclid ] (a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r as int == a as int / b as int;
pub assume_specification [ i64::div_euclid ] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r as int == a as int / b as int;
pub assume_specification [ isize::div_euclid ] (a: isize, b: isize) -> (r: isize) requires b != 0, !(a == isize::MIN && b == -1) ensures r as int == a as int / b as int;
//@when rem_euclid
pub assume_specification [ u8::rem_euclid ] (a: u8, b: u8) -> (r: u8) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [ u16::rem_euclid ] (a: u16, b: u16) -> (r: u16) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [ u32::rem_euclid ] (a: u32, b: u32) -> (r: u32) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [ u64::rem_euclid ] (a: u64, b: u64) -> (r: u64) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [ usize::rem_euclid ] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r as int == a as int % b as int;
pub assume_specification [ i8::rem_euclid ] (a: i8, b: i8) -> (r: i8) requires b != 0, !(a == i8::MIN && b == -1) ensures r as int == a as int % b as int;
pub assume_specification [ i16::rem_euclid ] (a: i16, b: i16) -> (r: i16) requires b != 0, !(a == i16::MIN && b == -1) ensures r as int == a as int % b as int;
pub assume_specification [ i32::rem_euclid ] (a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r as int == a as int % b as int;
pub assume_specification [ i64::rem_euclid ] (a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r as int == a as int % b as int;
pub assume_specification [ isize::rem_euclid ] (a: isize, b: isize) -> (r: isize) requires b != 0, !(a == isize::MIN && b == -1) ensures r as int == a as int % b as int;
//@when pow
pub open spec fn vc_ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * vc_ipow(b, (e - 1) as nat) } }
pub assume_specification [ u8::pow ] (a: u8, n: u32) -> (r: u8) requires u8::MIN <= vc_ipow(a as int, n as nat) <= u8::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ u16::pow ] (a: u16, n: u32) -> (r: u16) requires u16::MIN <= vc_ipow(a as int, n as nat) <= u16::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ u32::pow ] (a: u32, n: u32) -> (r: u32) requires u32::MIN <= vc_ipow(a as int, n as nat) <= u32::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ u64::pow ] (a: u64, n: u32) -> (r: u64) requires u64::MIN <= vc_ipow(a as int, n as nat) <= u64::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ usize::pow ] (a: usize, n: u32) -> (r: usize) requires usize::MIN <= vc_ipow(a as int, n as nat) <= usize::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ i8::pow ] (a: i8, n: u32) -> (r: i8) requires i8::MIN <= vc_ipow(a as int, n as nat) <= i8::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ i16::pow ] (a: i16, n: u32) -> (r: i16) requires i16::MIN <= vc_ipow(a as int, n as nat) <= i16::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ i32::pow ] (a: i32, n: u32) -> (r: i32) requires i32::MIN <= vc_ipow(a as int, n as nat) <= i32::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ i64::pow ] (a: i64, n: u32) -> (r: i64) requires i64::MIN <= vc_ipow(a as int, n as nat) <= i64::MAX ensures r as int == vc_ipow(a as int, n as nat);
pub assume_specification [ isize::pow ] (a: isize, n: u32) -> (r: isize) requires isize::MIN <= vc_ipow(a as int, n as nat) <= isize::MAX ensures r as int == vc_ipow(a as int, n as nat);
//@when next_multiple_of
pub assume_specification [ u8::next_multiple_of ] (a: u8, b: u8) -> (r: u8) requires b != 0, ((a as int + b as int - 1) / b as int) * b as int <= u8::MAX ensures r as int == ((a as int + b as int - 1) / b as int) * b as int;
pub assume_specification [ u16::next_multiple_of ] (a: u16, b: u16) -> (r: u16) requires b != 0, ((a as int + b as int - 1) / b as int) * b as int <= u16::MAX ensures r as int == ((a as int + b as int - 1) / b as int) * b as int;
pub assume_specification [ u32::next_multiple_of ] (a: u32, b: u32) -> (r: u32) requires b != 0, ((a as int + b as int - 1) / b as int) * b as int <= u32::MAX ensures r as int == ((a as int + b as int - 1) / b as int) * b as int;
pub assume_specification [ u64::next_multiple_of ] (a: u64, b: u64) -> (r: u64) requires b != 0, ((a as int + b as int - 1) / b as int) * b as int <= u64::MAX ensures r as int == ((a as int + b as int - 1) / b as int) * b as int;
pub assume_specification [ usize::next_multiple_of ] (a: usize, b: usize) -> (r: usize) requires b != 0, ((a as int + b as int - 1) / b as int) * b as int <= usize::MAX ensures r as int == ((a as int + b as int - 1) / b as int) * b as int;
//@when is_power_of_two
pub assume_specification [ u8::is_power_of_two ] (a: u8) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
pub assume_specification [ u16::is_power_of_two ] (a: u16) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
pub assume_specification [ u32::is_power_of_two ] (a: u32) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
pub assume_specification [ u64::is_power_of_two ] (a: u64) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
pub assume_specification [ usize::is_power_of_two ] (a: usize) -> (r: bool) ensures r == (a != 0 && a & sub(a, 1) == 0);
//@when midpoint
pub assume_specification [ u8::midpoint ] (a: u8, b: u8) -> (r: u8) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ u16::midpoint ] (a: u16, b: u16) -> (r: u16) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ u32::midpoint ] (a: u32, b: u32) -> (r: u32) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ u64::midpoint ] (a: u64, b: u64) -> (r: u64) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ usize::midpoint ] (a: usize, b: usize) -> (r: usize) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ i8::midpoint ] (a: i8, b: i8) -> (r: i8) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ i16::midpoint ] (a: i16, b: i16) -> (r: i16) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ i32::midpoint ] (a: i32, b: i32) -> (r: i32) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ i64::midpoint ] (a: i64, b: i64) -> (r: i64) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
pub assume_specification [ isize::midpoint ] (a: isize, b: isize) -> (r: isize) ensures r as int == (if a as int + b as int >= 0 { (a as int + b as int) / 2 } else { -((-(a as int + b as int)) / 2) });
//@when saturating_add
pub assume_specification [ i8::saturating_add ] (a: i8, b: i8) -> (r: i8) ensures r as int == sat(a as int + b as int, i8::MIN as int, i8::MAX as int);
pub assume_specification [ i16::saturating_add ] (a: i16, b: i16) -> (r: i16) ensures r as int == sat(a as int + b as int, i16::MIN as int, i16::MAX as int);
pub assume_specification [ i32::saturating_add ] (a: i32, b: i32) -> (r: i32) ensures r as int == sat(a as int + b as int, i32::MIN as int, i32::MAX as int);
pub assume_specification [ i64::saturating_add ] (a: i64, b: i64) -> (r: i64) ensures r as int == sat(a as int + b as int, i64::MIN as int, i64::MAX as int);
pub assume_specification [ isize::saturating_add ] (a: isize, b: isize) -> (r: isize) ensures r as int == sat(a as int + b as int, isize::MIN as int, isize::MAX as int);
//@when saturating_sub
pub assume_specification [ i8::saturating_sub ] (a: i8, b: i8) -> (r: i8) ensures r as int == sat(a as int - b as int, i8::MIN as int, i8::MAX as int);
pub assume_specification [ i16::saturating_sub ] (a: i16, b: i16) -> (r: i16) ensures r as int == sat(a as int - b as int, i16::MIN as int, i16::MAX as int);
pub assume_specification [ i32::saturating_sub ] (a: i32, b: i32) -> (r: i32) ensures r as int == sat(a as int - b as int, i32::MIN as int, i32::MAX as int);
pub assume_specification [ i64::saturating_sub ] (a: i64, b: i64) -> (r: i64) ensures r as int == sat(a as int - b as int, i64::MIN as int, i64::MAX as int);
pub assume_specification [ isize::saturating_sub ] (a: isize, b: isize) -> (r: isize) ensures r as int == sat(a as int - b as int, isize::MIN as int, isize::MAX as int);
//@when saturating_mul
pub assume_specification [ i8::saturating_mul ] (a: i8, b: i8) -> (r: i8) ensures r as int == sat(a as int * b as int, i8::MIN as int, i8::MAX as int);
pub assume_specification [ i16::saturating_mul ] (a: i16, b: i16) -> (r: i16) ensures r as int == sat(a as int * b as int, i16::MIN as int, i16::MAX as int);
pub assume_specification [ i32::saturating_mul ] (a: i32, b: i32) -> (r: i32) ensures r as int == sat(a as int * b as int, i32::MIN as int, i32::MAX as int);
pub assume_specification [ i64::saturating_mul ] (a: i64, b: i64) -> (r: i64) ensures r as int == sat(a as int * b as int, i64::MIN as int, i64::MAX as int);
pub assume_specification [ isize::saturating_mul ] (a: isize, b: isize) -> (r: isize) ensures r as int == sat(a as int * b as int, isize::MIN as int, isize::MAX as int);
//@when rotate_left
pub open spec fn vc_rotl(a: u32, n: u32) -> u32 { if n % 32 == 0 { a } else { (a << (n % 32)) | (a >> sub(32, n % 32)) } }
pub assume_specification [ u32::rotate_left ] (a: u32, n: u32) -> (r: u32) ensures r == vc_rotl(a, n);
//@when rotate_right
pub open spec fn vc_rotr(a: u32, n: u32) -> u32 { if n % 32 == 0 { a } else { (a >> (n % 32)) | (a << sub(32, n % 32)) } }
pub assume_specification [ u32::rotate_right ] (a: u32, n: u32) -> (r: u32) ensures r == vc_rotr(a, n);
//@when abs
pub assume_specification [ i8::abs ] (a: i8) -> (r: i8) requires a != i8::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i16::abs ] (a: i16) -> (r: i16) requires a != i16::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i32::abs ] (a: i32) -> (r: i32) requires a != i32::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i64::abs ] (a: i64) -> (r: i64) requires a != i64::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ isize::abs ] (a: isize) -> (r: isize) requires a != isize::MIN ensures r as int == if a < 0 { -(a as int) } else { a as int };
//@when unsigned_abs
pub assume_specification [ i8::unsigned_abs ] (a: i8) -> (r: u8) ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i16::unsigned_abs ] (a: i16) -> (r: u16) ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i32::unsigned_abs ] (a: i32) -> (r: u32) ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ i64::unsigned_abs ] (a: i64) -> (r: u64) ensures r as int == if a < 0 { -(a as int) } else { a as int };
pub assume_specification [ isize::unsigned_abs ] (a: isize) -> (r: usize) ensures r as int == if a < 0 { -(a as int) } else { a as int };
//@when signum
pub assume_specification [ i8::signum ] (a: i8) -> (r: i8) ensures r as int == if a < 0 { -1int } else if a == 0 { 0int } else { 1int };
pub assume_specification [ i16::signum ] (a: i16) -> (r: i16) ensures r as int == if a < 0 { -1int } else if a == 0 { 0int } else { 1int };
pub assume_specification [ i32::signum ] (a: i32) -> (r: i32) ensures r as int == if a < 0 { -1int } else if a == 0 { 0int } else { 1int };
pub assume_specification [ i64::signum ] (a: i64) -> (r: i64) ensures r as int == if a < 0 { -1int } else if a == 0 { 0int } else { 1int };
pub assume_specification [ isize::signum ] (a: isize) -> (r: isize) ensures r as int == if a < 0 { -1int } else if a == 0 { 0int } else { 1int };
//@when is_negative
pub assume_specification [ i8::is_negative ] (a: i8) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ i16::is_negative ] (a: i16) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ i32::is_negative ] (a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ i64::is_negative ] (a: i64) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ isize::is_negative ] (a: isize) -> (r: bool) ensures r == (a < 0);
//@when is_positive
pub assume_specification [ i8::is_positive ] (a: i8) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ i16::is_positive ] (a: i16) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ i32::is_positive ] (a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ i64::is_positive ] (a: i64) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ isize::is_positive ] (a: isize) -> (r: bool) ensures r == (a > 0);
//@when count_zeros
pub assume_specification [ u32::count_zeros ] (a: u32) -> (r: u32) ensures r as int == 32 - popcount(a);
//@when checked_shl
pub assume_specification [ u32::checked_shl ] (a: u32, n: u32) -> (r: Option<u32>) ensures r == if n < u32::BITS { Some(a << n) } else { None };
pub assume_specification [ u64::checked_shl ] (a: u64, n: u32) -> (r: Option<u64>) ensures r == if n < u64::BITS { Some(a << n) } else { None };
//@when swap
pub assume_specification<T> [ <[T]>::swap ] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T, A: core::alloc::Allocator> [ VecDeque::<T, A>::swap ] (s: &mut VecDeque<T, A>, a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//@when reverse
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
//@when split_last
pub assume_specification<T> [ <[T]>::split_last ] (s: &[T]) -> (r: Option<(&T, &[T])>) ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> (r matches Some((a, b)) && *a == s@.last() && b@ == s@.drop_last());
//@when clone_from_slice
pub assume_specification<T> [ <[T]>::clone_from_slice ] (s: &mut [T], x: &[T]) where T: std::clone::Clone requires old(s)@.len() == x@.len() ensures final(s)@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> cloned(x@[i], #[trigger] final(s)@[i]);
//@when shrink_to_fit
pub assume_specification<T, A: core::alloc::Allocator> [ Vec::<T, A>::shrink_to_fit ] (s: &mut Vec<T, A>) ensures final(s)@ == old(s)@;
//@when replace
pub assume_specification<T> [ Option::<T>::replace ] (s: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(s), *final(s) == Some(x);
pub assume_specification<T> [ core::mem::replace ] (s: &mut T, x: T) -> (r: T) ensures r == *old(s), *final(s) == x;
//@when zip
pub assume_specification<T, U> [ Option::<T>::zip ] (s: Option<T>, x: Option<U>) -> (r: Option<(T, U)>) ensures r == match (s, x) { (Some(a), Some(b)) => Some((a, b)), _ => None };
//@when or
pub assume_specification<T> [ Option::<T>::or ] (s: Option<T>, x: Option<T>) -> (r: Option<T>) ensures r == if s is Some { s } else { x };
//@when and
pub assume_specification<T, U> [ Option::<T>::and ] (s: Option<T>, x: Option<U>) -> (r: Option<U>) ensures r == if s is Some { x } else { None };
//@when copied
pub assume_specification<'a, T> [ Option::<&'a T>::copied ] (s: Option<&'a T>) -> (r: Option<T>) where T: Copy ensures r == match s { Some(v) => Some(*v), None => None };
//@when is_empty
pub assume_specification<T, A: core::alloc::Allocator> [ VecDeque::<T, A>::is_empty ] (s: &VecDeque<T, A>) -> (r: bool) ensures r == (s@.len() == 0);
//@when get
pub assume_specification<T, A: core::alloc::Allocator> [ VecDeque::<T, A>::get ] (s: &VecDeque<T, A>, k: usize) -> (r: Option<&T>) ensures k < s@.len() ==> r is Some && *r->0 == s@[k as int], k >= s@.len() ==> r is None;
//@when front
pub assume_specification<T, A: core::alloc::Allocator> [ VecDeque::<T, A>::front ] (s: &VecDeque<T, A>) -> (r: Option<&T>) ensures s@.len() > 0 ==> r is Some && *r->0 == s@[0], s@.len() == 0 ==> r is None;
//@when back
pub assume_specification<T, A: core::alloc::Allocator> [ VecDeque::<T, A>::back ] (s: &VecDeque<T, A>) -> (r: Option<&T>) ensures s@.len() > 0 ==> r is Some && *r->0 == s@.last(), s@.len() == 0 ==> r is None;
//@when from_ref
pub assume_specification<T> [ std::slice::from_ref::<T> ] (s: &T) -> (r: &[T]) ensures r@ == seq![*s];
//@when ceil
impl Real { #[verifier::external_body] pub fn ceil(self) -> (r: Real) ensures r@ == 0real - ((0real - self@).floor() as real) { unimplemented!() } }
//@when trunc
impl Real { #[verifier::external_body] pub fn trunc(self) -> (r: Real) ensures r@ == r_trunc(self@) as real { unimplemented!() } }
//@when fract
impl Real { #[verifier::external_body] pub fn fract(self) -> (r: Real) ensures r@ == self@ - (r_trunc(self@) as real) { unimplemented!() } }
//@when mul_add
impl Real { #[verifier::external_body] pub fn mul_add(self, a: Real, b: Real) -> (r: Real) ensures r@ == r_mul(self@, a@) + b@ { unimplemented!() } }
//@when recip
impl Real { #[verifier::external_body] pub fn recip(self) -> (r: Real) ensures r@ == r_div(1real, self@) { unimplemented!() } }
//@when hypot
impl Real { #[verifier::external_body] pub fn hypot(self, b: Real) -> (r: Real) ensures r@ == r_sqrt(r_mul(self@, self@) + r_mul(b@, b@)) { unimplemented!() } }
//@when is_finite
impl Real { #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r { unimplemented!() } }
//@when is_infinite
impl Real { #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures !r { unimplemented!() } }
//@when is_sign_negative
impl Real { #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures self@ < 0real ==> r, self@ > 0real ==> !r { unimplemented!() } }
//@when clamp
impl Real { #[verifier::external_body] pub fn clamp(self, lo: Real, hi: Real) -> (r: Real) requires lo@ <= hi@ ensures r@ == if self@ < lo@ { lo@ } else if self@ > hi@ { hi@ } else { self@ } { unimplemented!() } }
