// ---- standard library functions Verus has no contract for ----------------------------------
pub mod vxs {
use vstd::prelude::*;
pub assume_specification<T, A: std::alloc::Allocator, F: std::ops::FnMut() -> T> [std::vec::Vec::<T, A>::resize_with] (v: &mut std::vec::Vec<T, A>, n: usize, f: F)
    requires f.requires(()),
    ensures
        final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> f.ensures((), #[trigger] final(v)@[i]);
pub assume_specification<T: Clone, A: std::alloc::Allocator + Clone> [<std::boxed::Box<[T], A> as std::clone::Clone>::clone] (b: &std::boxed::Box<[T], A>) -> (r: std::boxed::Box<[T], A>)
    ensures
        r@.len() == b@.len(),
        forall|i: int| 0 <= i < b@.len() ==> call_ensures(T::clone, (&b@[i],), #[trigger] r@[i]);
pub assume_specification<T: PartialEq + ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::cmp::PartialEq>::eq] (a: &std::boxed::Box<T, A>, b: &std::boxed::Box<T, A>) -> (r: bool)
    ensures call_ensures(<T as std::cmp::PartialEq>::eq, (&**a, &**b), r);
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>)
    ensures r@ == v@;
pub assume_specification<T, const N: usize> [<std::vec::Vec<T> as std::convert::From<[T; N]>>::from] (a: [T; N]) -> (r: std::vec::Vec<T>)
    ensures r@ == a@;
pub assume_specification<T, A: std::alloc::Allocator, const N: usize> [<[T; N] as std::convert::TryFrom<std::vec::Vec<T, A>>>::try_from] (v: std::vec::Vec<T, A>) -> (r: Result<[T; N], std::vec::Vec<T, A>>)
    ensures v@.len() == N ==> (r matches Ok(a) && a@ == v@);
}
