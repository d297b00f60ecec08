// ---- the operations a coefficient type offers, as mathematical functions -------------------
// x_ok: the operator is total and computes a function of its operands (exact arithmetic).
pub mod vxa {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::*;
use crate::algebra::*;
use crate::functions::*;

pub open spec fn aa<'a, T: AddAssign<&'a T> + 'a>(a: T, b: T) -> T { *a.add_assign_spec(&b) }
pub open spec fn aa_ok<'a, T: AddAssign<&'a T> + 'a>() -> bool { T::obeys_add_assign_spec() && forall |a: T, b: T| #[trigger] T::add_assign_req(&a, &b) }
pub open spec fn sa<'a, T: SubAssign<&'a T> + 'a>(a: T, b: T) -> T { *a.sub_assign_spec(&b) }
pub open spec fn sa_ok<'a, T: SubAssign<&'a T> + 'a>() -> bool { T::obeys_sub_assign_spec() && forall |a: T, b: T| #[trigger] T::sub_assign_req(&a, &b) }
pub open spec fn av<U, T: AddAssign<U>>(a: T, b: U) -> T { *a.add_assign_spec(b) }
pub open spec fn av_ok<U, T: AddAssign<U>>() -> bool { T::obeys_add_assign_spec() && forall |a: T, b: U| #[trigger] T::add_assign_req(&a, b) }
pub open spec fn sv<U, T: SubAssign<U>>(a: T, b: U) -> T { *a.sub_assign_spec(b) }
pub open spec fn sv_ok<U, T: SubAssign<U>>() -> bool { T::obeys_sub_assign_spec() && forall |a: T, b: U| #[trigger] T::sub_assign_req(&a, b) }
pub open spec fn mm<T: MulRefs>(a: T, b: T) -> T { T::mr(&a, &b) }
pub open spec fn mm_ok<T: MulRefs>() -> bool { T::mr_ok() && forall |a: T, b: T| #[trigger] T::mr_req(&a, &b) }
pub open spec fn dd<T: DivRefs>(a: T, b: T) -> T { T::dr(&a, &b) }
pub open spec fn dd_ok<T: DivRefs>() -> bool { T::dr_ok() && forall |a: T, b: T| #[trigger] T::dr_req(&a, &b) }
pub open spec fn ng<T: Neg<Output = T>>(a: T) -> T { a.neg_spec() }
pub open spec fn ng_ok<T: Neg<Output = T>>() -> bool { T::obeys_neg_spec() && forall |a: T| #[trigger] T::neg_req(a) }
pub open spec fn zz<T: Zero>() -> T { T::zero_spec() }
pub open spec fn zz_ok<T: Zero>() -> bool { T::zero_ok() }
pub open spec fn oo<T: One>() -> T { T::one_spec() }
pub open spec fn oo_ok<T: One>() -> bool { T::one_ok() }
pub open spec fn cj_ok<T: Conj>() -> bool { T::conj_ok() && T::conj_req() }
pub open spec fn cj<T: Conj>(a: T) -> T { a.conj_spec() }
pub open spec fn cl_ok<T: Clone>() -> bool { forall |a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
pub open spec fn eq_ok<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall |a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b }

// the exact ring operations (no laws)
pub open spec fn ring_ops<T: Ring>() -> bool {
    &&& aa_ok::<T>() && sa_ok::<T>() && mm_ok::<T>() && ng_ok::<T>() && zz_ok::<T>() && oo_ok::<T>() && cl_ok::<T>()
}
// x == y as the type's own comparison sees it
pub open spec fn same<T: PartialEq>(a: T, b: T) -> bool { a.eq_spec(&b) }
pub open spec fn add_laws<T: Ring>() -> bool {
    &&& forall |a: T, b: T| #[trigger] same(aa(a, b), aa(b, a))
    &&& forall |a: T, b: T, c: T| #[trigger] same(aa(aa(a, b), c), aa(a, aa(b, c)))
    &&& forall |a: T| #[trigger] same(aa(a, zz()), a)
    &&& forall |a: T| #[trigger] same(aa(a, ng(a)), zz())
    &&& forall |a: T, b: T| #[trigger] same(sa(a, b), aa(a, ng(b)))
}
pub open spec fn mul_laws<T: Ring>() -> bool {
    &&& forall |a: T, b: T, c: T| #[trigger] same(mm(mm(a, b), c), mm(a, mm(b, c)))
    &&& forall |a: T| #[trigger] same(mm(a, oo()), a)
    &&& forall |a: T| #[trigger] same(mm(oo(), a), a)
    &&& forall |a: T, b: T, c: T| #[trigger] same(mm(a, aa(b, c)), aa(mm(a, b), mm(a, c)))
    &&& forall |a: T, b: T, c: T| #[trigger] same(mm(aa(a, b), c), aa(mm(a, c), mm(b, c)))
}
pub open spec fn comm_law<T: Ring>() -> bool { forall |a: T, b: T| #[trigger] same(mm(a, b), mm(b, a)) }
pub open spec fn ring<T: Ring>() -> bool { ring_ops::<T>() && eq_ok::<T>() && add_laws::<T>() && mul_laws::<T>() }
}
