// ---- standard library functions the present tree does not use: a block is part of the extracted
// ---- file only if the source mentions its name (changed trees)
pub mod vxm {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
//? to_vec
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
//? cmp :: max|{ max|, max
pub assume_specification<T: Ord> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) is Greater { a } else { b };
//? cmp :: min|{ min|, min
pub assume_specification<T: Ord> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures r == a || r == b, T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) is Greater { b } else { a };
//? mem :: replace
pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
//? swap
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//? reverse
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == old(s)@[old(s)@.len() - 1 - i];
//? identity
pub assume_specification<T> [std::convert::identity] (t: T) -> (r: T)
    ensures r == t;
//? drop (|mem :: drop
pub assume_specification<T> [std::mem::drop] (t: T);
//? abs_diff
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { b - a } else { a - b };
//? copied
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r is Some <==> o is Some, o is Some ==> r->0 == *o->0;
//? fill
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == v || cloned(v, final(s)@[i]);
//? clone_from_slice
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (s: &mut [T], v: &[T])
    requires old(s)@.len() == v@.len(),
    ensures final(s)@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> cloned(#[trigger] v@[i], final(s)@[i]);
//? into|Box :: from|Box :: < [ T ] > :: from
pub assume_specification<T, A: std::alloc::Allocator> [<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
//? mem :: take
pub assume_specification<T: Default> [std::mem::take] (d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
//? TAU
pub assume_specification [core::f32::consts::TAU] -> (r: f32) ensures r == crate::vxf::f32_tau();
//? FRAC_PI_2
pub assume_specification [core::f32::consts::FRAC_PI_2] -> (r: f32) ensures r == crate::vxf::f32_frac_pi_2();
//? powi
pub assume_specification [f32::powi] (x: f32, n: i32) -> (r: f32) ensures r == crate::vxf::f32_powi(x, n);
//? hypot
pub assume_specification [f32::hypot] (x: f32, y: f32) -> (r: f32) ensures r == crate::vxf::f32_hypot(x, y);
//? mul_add
pub assume_specification [f32::mul_add] (x: f32, y: f32, z: f32) -> (r: f32) ensures r == crate::vxf::f32_mul_add(x, y, z);
//? capacity
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::capacity] (v: &std::vec::Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();
//? reserve_exact
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::reserve_exact] (v: &mut std::vec::Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;
//? shrink_to_fit
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut std::vec::Vec<T, A>)
    ensures final(v)@ == old(v)@;
//? split_last
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: std::option::Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some(p) => s@.len() > 0 && *p.0 == s@[s@.len() - 1] && p.1@ == s@.subrange(0, s@.len() - 1) };
//? rotate_left
pub assume_specification<T> [<[T]>::rotate_left] (s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(k as int, old(s)@.len() as int) + old(s)@.subrange(0, k as int);
//? rotate_right
pub assume_specification<T> [<[T]>::rotate_right] (s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(old(s)@.len() - k, old(s)@.len() as int) + old(s)@.subrange(0, old(s)@.len() - k);
//? swap_with_slice
pub assume_specification<T> [<[T]>::swap_with_slice] (s: &mut [T], o: &mut [T])
    requires old(s)@.len() == old(o)@.len(),
    ensures final(s)@ == old(o)@, final(o)@ == old(s)@;
//? to_owned
pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
//? div_ceil
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int);
//? rem_euclid
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a % b;
//? div_euclid
pub assume_specification [usize::div_euclid] (a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == a / b;
//? is_power_of_two
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool)
    ensures a == 0 ==> !r, a == 1 ==> r;
//? leading_zeros
pub assume_specification [usize::leading_zeros] (a: usize) -> (r: u32)
    ensures r <= usize::BITS;
//? trailing_zeros
pub assume_specification [usize::trailing_zeros] (a: usize) -> (r: u32)
    ensures r <= usize::BITS;
//? count_ones
pub assume_specification [usize::count_ones] (a: usize) -> (r: u32)
    ensures r <= usize::BITS, r == 0 <==> a == 0;
//? overflowing_add
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a + b > usize::MAX), r.0 as int == if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b };
//? overflowing_sub
pub assume_specification [usize::overflowing_sub] (a: usize, b: usize) -> (r: (usize, bool))
    ensures r.1 == (a < b), r.0 as int == if a < b { a - b + usize::MAX + 1 } else { a - b };
//? then_some
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: std::option::Option<T>)
    ensures r == if b { Some(t) } else { None };
//? . or (
pub assume_specification<T> [std::option::Option::<T>::or] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == if o is Some { o } else { p };
//? . replace
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut std::option::Option<T>, t: T) -> (r: std::option::Option<T>)
    ensures r == *old(o), *final(o) == Some(t);
//? black_box
pub assume_specification<T> [std::hint::black_box] (t: T) -> (r: T)
    ensures r == t;
//? forget
pub assume_specification<T> [std::mem::forget] (t: T);
//? needs_drop
pub assume_specification<T: ?Sized> [std::mem::needs_drop::<T>] () -> (r: bool);
//? . as_ref
pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref] (v: &std::vec::Vec<T, A>) -> (r: &[T])
    ensures r@ == v@;
//? is_lt
pub assume_specification [std::cmp::Ordering::is_lt] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Less);
//? is_le
pub assume_specification [std::cmp::Ordering::is_le] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Greater);
//? is_gt
pub assume_specification [std::cmp::Ordering::is_gt] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Greater);
//? is_ge
pub assume_specification [std::cmp::Ordering::is_ge] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Less);
//? is_eq
pub assume_specification [std::cmp::Ordering::is_eq] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o is Equal);
//? is_ne
pub assume_specification [std::cmp::Ordering::is_ne] (o: std::cmp::Ordering) -> (r: bool) ensures r == !(o is Equal);
//?
}
