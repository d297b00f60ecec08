pub mod vxp {
pub use crate::vxa::*;
pub use crate::vxl;
pub use crate::rand;
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;

// ---- run-time checks that stop the program -------------------------------------------------
// may_panic() is left open, so every contract is proved for both of its values: with it false
// no check may fail (freedom from panics under the stated conditions), with it true a failed
// check diverges and the code behind it can rely on the condition.
pub uninterp spec fn may_panic() -> bool;

pub fn rt_assert(b: bool)
    requires b || may_panic(),
    ensures b,
{ if !b { rt_panic(); } }

// checks that only some builds contain: they may stop the program, but nothing may rely on them
pub fn rt_debug_assert(b: bool)
    requires b || may_panic(),
{}

#[verifier::external_body]
pub fn rt_panic() -> !
    requires may_panic(),
    ensures false,
{ panic!() }

pub fn rt_idx(i: usize, n: usize) -> (r: usize)
    requires i < n || may_panic(),
    ensures r == i, i < n,
{ rt_assert(i < n); i }

// ---- helpers of the iterator desugaring ----------------------------------------------------
pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }

pub fn vx_range_len(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { b - a } else { 0 },
{ if a < b { b - a } else { 0 } }

pub fn vx_range_len_incl(a: usize, b: usize) -> (r: usize)
    requires b < usize::MAX,
    ensures r == if a <= b { b - a + 1 } else { 0 },
{ if a <= b { b - a + 1 } else { 0 } }

// by-value iteration: element i is moved out by take(i), once
#[verifier::reject_recursive_types(T)]
pub struct Owned<T> { x: Vec<Option<T>>, all: Ghost<Seq<T>> }
impl<T> View for Owned<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.all@ } }
impl<T> Owned<T> {
    pub closed spec fn wf(&self) -> bool {
        self.x@.len() == self.all@.len()
            && forall|i: int| 0 <= i < self.x@.len() && (#[trigger] self.x@[i]) is Some ==> self.x@[i] == Some(self.all@[i])
    }
    // element i is still there
    pub closed spec fn has(&self, i: int) -> bool { 0 <= i < self.x@.len() && self.x@[i] is Some }
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == self@.len(),
    { self.x.len() }
    pub fn take(&mut self, i: usize) -> (r: T)
        requires old(self).wf(), old(self).has(i as int),
        ensures
            r == old(self)@[i as int], final(self)@ == old(self)@, final(self).wf(),
            forall|j: int| #[trigger] final(self).has(j) == (old(self).has(j) && j != i),
    {
        let o = self.x[i].take();
        match o { Some(v) => v, None => rt_panic() }
    }
}
pub fn vx_own<X: VxSeq>(x: X) -> (r: Owned<X::E>)
    ensures r@ == x.vxs(), r.wf(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r.has(i),
{
    let v = x.vx_vec();
    let ghost all = v@;
    // the last element first, then the other way round
    let mut v = v;
    let mut y: Vec<Option<X::E>> = Vec::new();
    let n = v.len();
    let mut k: usize = 0;
    while k < n
        invariant
            k <= n, n == all.len(), v@ == all.subrange(0, n - k), y@.len() == k,
            forall|i: int| 0 <= i < k ==> (#[trigger] y@[i]) == Some(all[n - 1 - i]),
        decreases n - k,
    {
        let o = v.pop();
        y.push(o);
        k = k + 1;
    }
    let mut z: Vec<Option<X::E>> = Vec::new();
    k = 0;
    while k < n
        invariant
            k <= n, n == all.len(), y@.len() == n - k, z@.len() == k,
            forall|i: int| 0 <= i < n - k ==> (#[trigger] y@[i]) == Some(all[n - 1 - i]),
            forall|i: int| 0 <= i < k ==> (#[trigger] z@[i]) == Some(all[i]),
        decreases n - k,
    {
        let o = y.pop();
        match o { Some(e) => z.push(e), None => {} }
        k = k + 1;
    }
    Owned { x: z, all: Ghost(all) }
}
// the same of an array, whose length stays in the type
#[verifier::reject_recursive_types(T)]
pub struct OwnedArr<T, const N: usize> { o: Owned<T>, t: [(); N] }
impl<T, const N: usize> View for OwnedArr<T, N> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.o@ } }
impl<T, const N: usize> OwnedArr<T, N> {
    pub closed spec fn wf(&self) -> bool { self.o.wf() && self.o@.len() == N }
    pub closed spec fn has(&self, i: int) -> bool { self.o.has(i) }
    pub fn len(&self) -> (r: usize)
        requires self.wf(),
        ensures r == N, self@.len() == N,
    { self.o.len() }
    pub fn take(&mut self, i: usize) -> (r: T)
        requires old(self).wf(), old(self).has(i as int),
        ensures
            r == old(self)@[i as int], final(self)@ == old(self)@, final(self).wf(),
            forall|j: int| #[trigger] final(self).has(j) == (old(self).has(j) && j != i),
    { self.o.take(i) }
}
pub fn vx_own_arr<T, const N: usize>(x: [T; N]) -> (r: OwnedArr<T, N>)
    ensures r@ == x@, r.wf(), forall|i: int| 0 <= i < N ==> #[trigger] r.has(i),
{ OwnedArr { o: vx_own(x), t: [(); N] } }
pub trait VxSeq: Sized {
    type E;
    spec fn vxs(self) -> Seq<Self::E>;
    fn vx_vec(self) -> (r: Vec<Self::E>) ensures r@ == self.vxs();
}
impl<T> VxSeq for Vec<T> { type E = T; open spec fn vxs(self) -> Seq<T> { self@ } fn vx_vec(self) -> Vec<T> { self } }
impl<T> VxSeq for Box<[T]> { type E = T; open spec fn vxs(self) -> Seq<T> { self@ } fn vx_vec(self) -> Vec<T> { <[T]>::into_vec(self) } }
impl<T, const N: usize> VxSeq for [T; N] { type E = T; open spec fn vxs(self) -> Seq<T> { self@ } fn vx_vec(self) -> Vec<T> { <Vec<T> as From<[T; N]>>::from(self) } }
pub fn vx_arr<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@
{ match <[T; N] as TryFrom<Vec<T>>>::try_from(v) { Ok(a) => a, Err(_) => rt_panic() } }
pub fn vx_arr_like<A, T, const N: usize>(s: &OwnedArr<A, N>, v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@
{ vx_arr::<T, N>(v) }
pub trait VxCollect<T>: Sized {
    spec fn vxc(self) -> Seq<T>;
    fn vx_of(v: Vec<T>) -> (r: Self) ensures r.vxc() == v@;
}
impl<T> VxCollect<T> for Vec<T> { open spec fn vxc(self) -> Seq<T> { self@ } fn vx_of(v: Vec<T>) -> Self { v } }
impl<T> VxCollect<T> for Box<[T]> { open spec fn vxc(self) -> Seq<T> { self@ } fn vx_of(v: Vec<T>) -> Self { v.into_boxed_slice() } }
pub fn vx_collect<T, C: VxCollect<T>>(v: Vec<T>) -> (r: C) ensures r.vxc() == v@ { C::vx_of(v) }
// the values a caller writes while iterating over `&mut` elements
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Written<T> { x: Vec<T> }
impl<T> View for Written<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Written<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}

// membership tests
pub fn vx_in_incl<T: PartialOrd>(a: T, b: T, x: &T) -> (r: bool)
    ensures <T as PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == (crate::rand::le(a, *x) && crate::rand::le(*x, b)),
{ a <= *x && *x <= b }
pub fn vx_in_excl<T: PartialOrd>(a: T, b: T, x: &T) -> (r: bool)
    ensures <T as PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == (crate::rand::le(a, *x) && crate::rand::lt(*x, b)),
{ a <= *x && *x < b }
pub trait VxMut<T>: Sized {
    spec fn vxm(self) -> Seq<T>;
    fn as_mut_(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).vxm(), final(r)@ == final(self).vxm();
}
impl<T> VxMut<T> for Box<[T]> {
    open spec fn vxm(self) -> Seq<T> { self@ }
    fn as_mut_(&mut self) -> &mut [T] { &mut **self }
}
impl<T> VxMut<T> for Vec<T> {
    open spec fn vxm(self) -> Seq<T> { self@ }
    fn as_mut_(&mut self) -> &mut [T] { self.as_mut_slice() }
}
pub fn vx_as_mut<T, C: VxMut<T>>(b: &mut C) -> (r: &mut [T])
    ensures r@ == old(b).vxm(), final(r)@ == final(b).vxm(),
{ b.as_mut_() }

// a function-valued parameter: any function at all, with a record of its calls. gate() says
// whether it may be called at all.
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct CallLog<A, B> { x: (A, B) }
impl<A: VxSeq, B: VxSeq> CallLog<A, B> {
    pub uninterp spec fn log(&self) -> Seq<(Seq<A::E>, Seq<B::E>, bool)>;
    pub uninterp spec fn gate(&self) -> bool;
    #[verifier::external_body]
    pub fn log_call(&mut self, a: &A, b: &B) -> (r: bool)
        requires old(self).gate(),
        ensures final(self).gate(), final(self).log() == old(self).log().push((a.vxs(), b.vxs(), r)),
    { unimplemented!() }
}
}
