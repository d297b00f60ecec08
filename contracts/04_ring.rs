// ---- consequences of the ring laws ---------------------------------------------------------
pub mod vxl {
use vstd::prelude::*;
use crate::vxp::*;
use crate::algebra::*;

pub proof fn eqs<T: Ring>(a: T, b: T) requires eq_ok::<T>() ensures same(a, b) <==> a == b {}
pub proof fn add_comm<T: Ring>(a: T, b: T) requires ring::<T>() ensures aa(a, b) == aa(b, a)
{ assert(same(aa(a, b), aa(b, a))); }
pub proof fn add_assoc<T: Ring>(a: T, b: T, c: T) requires ring::<T>() ensures aa(aa(a, b), c) == aa(a, aa(b, c))
{ assert(same(aa(aa(a, b), c), aa(a, aa(b, c)))); }
pub proof fn add_zero<T: Ring>(a: T) requires ring::<T>() ensures aa(a, zz()) == a, aa(zz(), a) == a
{ assert(same(aa(a, zz()), a)); add_comm(a, zz()); }
pub proof fn add_neg<T: Ring>(a: T) requires ring::<T>() ensures aa(a, ng(a)) == zz::<T>(), aa(ng(a), a) == zz::<T>()
{ assert(same(aa(a, ng(a)), zz())); add_comm(a, ng(a)); }
pub proof fn sub_def<T: Ring>(a: T, b: T) requires ring::<T>() ensures sa(a, b) == aa(a, ng(b))
{ assert(same(sa(a, b), aa(a, ng(b)))); }
pub proof fn mul_assoc<T: Ring>(a: T, b: T, c: T) requires ring::<T>() ensures mm(mm(a, b), c) == mm(a, mm(b, c))
{ assert(same(mm(mm(a, b), c), mm(a, mm(b, c)))); }
pub proof fn mul_one<T: Ring>(a: T) requires ring::<T>() ensures mm(a, oo()) == a, mm(oo(), a) == a
{ assert(same(mm(a, oo()), a)); assert(same(mm(oo(), a), a)); }
pub proof fn dist_l<T: Ring>(a: T, b: T, c: T) requires ring::<T>() ensures mm(a, aa(b, c)) == aa(mm(a, b), mm(a, c))
{ assert(same(mm(a, aa(b, c)), aa(mm(a, b), mm(a, c)))); }
pub proof fn dist_r<T: Ring>(a: T, b: T, c: T) requires ring::<T>() ensures mm(aa(a, b), c) == aa(mm(a, c), mm(b, c))
{ assert(same(mm(aa(a, b), c), aa(mm(a, c), mm(b, c)))); }
pub proof fn mul_comm<T: Ring>(a: T, b: T) requires ring::<T>(), comm_law::<T>() ensures mm(a, b) == mm(b, a)
{ assert(same(mm(a, b), mm(b, a))); }

// cancellation: x + y == x + z implies y == z
pub proof fn add_cancel<T: Ring>(x: T, y: T, z: T) requires ring::<T>(), aa(x, y) == aa(x, z) ensures y == z
{
    add_assoc(ng(x), x, y); add_assoc(ng(x), x, z); add_neg(x); add_zero(y); add_zero(z);
}
pub proof fn mul_zero<T: Ring>(a: T) requires ring::<T>() ensures mm(a, zz()) == zz::<T>(), mm(zz(), a) == zz::<T>()
{
    let z = zz::<T>();
    add_zero(z); dist_l(a, z, z); dist_r(z, z, a);
    add_zero(mm(a, z)); add_zero(mm(z, a));
    add_cancel(mm(a, z), mm(a, z), z);
    add_cancel(mm(z, a), mm(z, a), z);
}
pub proof fn neg_unique<T: Ring>(a: T, b: T) requires ring::<T>(), aa(a, b) == zz::<T>() ensures b == ng(a)
{ add_neg(a); add_cancel(a, b, ng(a)); }
pub proof fn neg_neg<T: Ring>(a: T) requires ring::<T>() ensures ng(ng(a)) == a
{ add_neg(a); neg_unique(ng(a), a); }
pub proof fn neg_zero<T: Ring>() requires ring::<T>() ensures ng(zz::<T>()) == zz::<T>()
{ add_zero(zz::<T>()); neg_unique(zz::<T>(), zz::<T>()); }
// (a + b) + (c + d) == (a + c) + (b + d)
pub proof fn add_mid<T: Ring>(a: T, b: T, c: T, d: T) requires ring::<T>() ensures aa(aa(a, b), aa(c, d)) == aa(aa(a, c), aa(b, d))
{
    add_assoc(a, b, aa(c, d)); add_assoc(b, c, d); add_comm(b, c); add_assoc(c, b, d); add_assoc(a, c, aa(b, d));
}
pub proof fn neg_add<T: Ring>(a: T, b: T) requires ring::<T>() ensures ng(aa(a, b)) == aa(ng(a), ng(b))
{ add_mid(a, b, ng(a), ng(b)); add_neg(a); add_neg(b); add_zero(zz::<T>()); neg_unique(aa(a, b), aa(ng(a), ng(b))); }
pub proof fn mul_neg<T: Ring>(a: T, b: T) requires ring::<T>() ensures mm(ng(a), b) == ng(mm(a, b)), mm(a, ng(b)) == ng(mm(a, b))
{
    dist_r(a, ng(a), b); add_neg(a); mul_zero(b); neg_unique(mm(a, b), mm(ng(a), b));
    dist_l(a, b, ng(b)); add_neg(b); mul_zero(a); neg_unique(mm(a, b), mm(a, ng(b)));
}
pub proof fn sub_mid<T: Ring>(a: T, b: T, c: T, d: T) requires ring::<T>() ensures sa(aa(a, b), aa(c, d)) == aa(sa(a, c), sa(b, d))
{ sub_def(aa(a, b), aa(c, d)); neg_add(c, d); add_mid(a, b, ng(c), ng(d)); sub_def(a, c); sub_def(b, d); }
pub proof fn sub_self<T: Ring>(a: T) requires ring::<T>() ensures sa(a, a) == zz::<T>()
{ sub_def(a, a); add_neg(a); }
pub proof fn sub_zero<T: Ring>(a: T) requires ring::<T>() ensures sa(a, zz()) == a
{ sub_def(a, zz()); neg_zero::<T>(); add_zero(a); }

// addition laws in a form the solver applies on its own; only for few terms
pub open spec fn ac<T: Ring>() -> bool {
    &&& forall|a: T, b: T| #[trigger] aa(a, b) == aa(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] aa(aa(a, b), c) == aa(a, aa(b, c))
}
pub proof fn get_ac<T: Ring>() requires ring::<T>() ensures ac::<T>()
{
    assert forall|a: T, b: T| #[trigger] aa(a, b) == aa(b, a) by { add_comm(a, b); }
    assert forall|a: T, b: T, c: T| #[trigger] aa(aa(a, b), c) == aa(a, aa(b, c)) by { add_assoc(a, b, c); }
}
// everything multiplied out
pub open spec fn expand<T: Ring>() -> bool {
    &&& forall|a: T, b: T, c: T| #[trigger] mm(a, aa(b, c)) == aa(mm(a, b), mm(a, c))
    &&& forall|a: T, b: T, c: T| #[trigger] mm(aa(a, b), c) == aa(mm(a, c), mm(b, c))
    &&& forall|a: T, b: T| #[trigger] mm(ng(a), b) == ng(mm(a, b))
    &&& forall|a: T, b: T| #[trigger] mm(a, ng(b)) == ng(mm(a, b))
    &&& forall|a: T, b: T| #[trigger] sa(a, b) == aa(a, ng(b))
    &&& forall|a: T, b: T| #[trigger] ng(aa(a, b)) == aa(ng(a), ng(b))
    &&& forall|a: T| #[trigger] ng(ng(a)) == a
    &&& forall|a: T, b: T, c: T| #[trigger] mm(mm(a, b), c) == mm(a, mm(b, c))
}
pub proof fn get_expand<T: Ring>() requires ring::<T>() ensures expand::<T>()
{
    assert forall|a: T, b: T, c: T| #[trigger] mm(a, aa(b, c)) == aa(mm(a, b), mm(a, c)) by { dist_l(a, b, c); }
    assert forall|a: T, b: T, c: T| #[trigger] mm(aa(a, b), c) == aa(mm(a, c), mm(b, c)) by { dist_r(a, b, c); }
    assert forall|a: T, b: T| #[trigger] mm(ng(a), b) == ng(mm(a, b)) by { mul_neg(a, b); }
    assert forall|a: T, b: T| #[trigger] mm(a, ng(b)) == ng(mm(a, b)) by { mul_neg(a, b); }
    assert forall|a: T, b: T| #[trigger] sa(a, b) == aa(a, ng(b)) by { sub_def(a, b); }
    assert forall|a: T, b: T| #[trigger] ng(aa(a, b)) == aa(ng(a), ng(b)) by { neg_add(a, b); }
    assert forall|a: T| #[trigger] ng(ng(a)) == a by { neg_neg(a); }
    assert forall|a: T, b: T, c: T| #[trigger] mm(mm(a, b), c) == mm(a, mm(b, c)) by { mul_assoc(a, b, c); }
}

// ---- finite sums ---------------------------------------------------------------------------
pub open spec fn sum<'a, T: core::ops::AddAssign<&'a T> + Zero + 'a>(f: spec_fn(int) -> T, n: int) -> T
    decreases n
{ if n <= 0 { zz() } else { aa(sum(f, n - 1), f(n - 1)) } }
pub open spec fn pow<T: Ring>(x: T, n: int) -> T
    decreases n
{ if n <= 0 { oo() } else { mm(pow(x, n - 1), x) } }

pub proof fn sum_ext<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
    ensures sum(f, n) == sum(g, n)
    decreases n
{ if n > 0 { sum_ext(f, g, n - 1); } }
pub proof fn sum_zero<T: Ring>(f: spec_fn(int) -> T, n: int)
    requires ring::<T>(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == zz::<T>()
    ensures sum(f, n) == zz::<T>()
    decreases n
{ if n > 0 { sum_zero(f, n - 1); add_zero(zz::<T>()); } }
// terms from m on are zero
pub proof fn sum_tail<T: Ring>(f: spec_fn(int) -> T, m: int, n: int)
    requires ring::<T>(), 0 <= m <= n, forall|i: int| m <= i < n ==> #[trigger] f(i) == zz::<T>()
    ensures sum(f, n) == sum(f, m)
    decreases n
{ if n > m { sum_tail(f, m, n - 1); add_zero(sum(f, n - 1)); } }
pub proof fn sum_one<T: Ring>(f: spec_fn(int) -> T, m: int, n: int)
    requires ring::<T>(), 0 <= m < n, forall|i: int| 0 <= i < n && i != m ==> #[trigger] f(i) == zz::<T>()
    ensures sum(f, n) == f(m)
{ sum_tail(f, m + 1, n); sum_zero(f, m); add_zero(f(m)); }
pub proof fn sum_add<T: Ring>(f: spec_fn(int) -> T, g: spec_fn(int) -> T, n: int)
    requires ring::<T>()
    ensures sum(|i: int| aa(f(i), g(i)), n) == aa(sum(f, n), sum(g, n))
    decreases n
{
    if n > 0 { sum_add(f, g, n - 1); add_mid(sum(f, n - 1), sum(g, n - 1), f(n - 1), g(n - 1)); } else { add_zero(zz::<T>()); }
}
pub proof fn sum_neg<T: Ring>(f: spec_fn(int) -> T, n: int)
    requires ring::<T>()
    ensures sum(|i: int| ng(f(i)), n) == ng(sum(f, n))
    decreases n
{ if n > 0 { sum_neg(f, n - 1); neg_add(sum(f, n - 1), f(n - 1)); } else { neg_zero::<T>(); } }
pub proof fn sum_mul_l<T: Ring>(a: T, f: spec_fn(int) -> T, n: int)
    requires ring::<T>()
    ensures sum(|i: int| mm(a, f(i)), n) == mm(a, sum(f, n))
    decreases n
{ if n > 0 { sum_mul_l(a, f, n - 1); dist_l(a, sum(f, n - 1), f(n - 1)); } else { mul_zero(a); } }
pub proof fn sum_mul_r<T: Ring>(f: spec_fn(int) -> T, a: T, n: int)
    requires ring::<T>()
    ensures sum(|i: int| mm(f(i), a), n) == mm(sum(f, n), a)
    decreases n
{ if n > 0 { sum_mul_r(f, a, n - 1); dist_r(sum(f, n - 1), f(n - 1), a); } else { mul_zero(a); } }
pub proof fn sum_swap<T: Ring>(f: spec_fn(int, int) -> T, m: int, n: int)
    requires ring::<T>()
    ensures sum(|i: int| sum(|j: int| f(i, j), n), m) == sum(|j: int| sum(|i: int| f(i, j), m), n)
    decreases m
{
    let row = |i: int| sum(|j: int| f(i, j), n);
    let col = |j: int| sum(|i: int| f(i, j), m);
    if m > 0 {
        sum_swap(f, m - 1, n);
        let c1 = |j: int| sum(|i: int| f(i, j), m - 1);
        let last = |j: int| f(m - 1, j);
        sum_add(c1, last, n);
        sum_ext(col, |j: int| aa(c1(j), last(j)), n);
        assert(sum(row, m) == aa(sum(row, m - 1), row(m - 1)));
    } else {
        sum_zero(col, n);
    }
}
// first term split off
pub proof fn sum_front<T: Ring>(f: spec_fn(int) -> T, n: int)
    requires ring::<T>(), n >= 1
    ensures sum(f, n) == aa(f(0), sum(|i: int| f(i + 1), n - 1))
    decreases n
{
    let g = |i: int| f(i + 1);
    if n > 1 {
        sum_front(f, n - 1);
        add_assoc(f(0), sum(g, n - 2), f(n - 1));
        assert(sum(g, n - 1) == aa(sum(g, n - 2), g(n - 2)));
    } else {
        assert(sum(f, 0) == zz::<T>());
        assert(sum(g, 0) == zz::<T>());
        add_zero(f(0));
    }
}
// the other way round
pub proof fn sum_rev<T: Ring>(f: spec_fn(int) -> T, n: int)
    requires ring::<T>(), 0 <= n
    ensures sum(f, n) == sum(|i: int| f(n - 1 - i), n)
    decreases n
{
    let g = |i: int| f(n - 1 - i);
    if n > 0 {
        sum_rev(f, n - 1);
        let h = |i: int| f(n - 1 - 1 - i);
        let g1 = |i: int| g(i + 1);
        sum_front(g, n);
        sum_ext(h, g1, n - 1);
        assert(sum(f, n) == aa(sum(f, n - 1), f(n - 1)));
        add_comm(sum(f, n - 1), f(n - 1));
    }
}
// terms below s are zero
pub proof fn sum_shift<T: Ring>(f: spec_fn(int) -> T, s: int, n: int)
    requires ring::<T>(), 0 <= s <= n, forall|i: int| 0 <= i < s ==> #[trigger] f(i) == zz::<T>()
    ensures sum(f, n) == sum(|i: int| f(i + s), n - s)
    decreases n
{
    let g = |i: int| f(i + s);
    if n == s { sum_zero(f, n); }
    else { sum_shift(f, s, n - 1); assert(sum(g, n - s) == aa(sum(g, n - s - 1), g(n - s - 1))); }
}
pub proof fn pow_add<T: Ring>(x: T, m: int, n: int)
    requires ring::<T>(), m >= 0, n >= 0
    ensures pow(x, m + n) == mm(pow(x, m), pow(x, n))
    decreases n
{
    if n > 0 { pow_add(x, m, n - 1); mul_assoc(pow(x, m), pow(x, n - 1), x); } else { mul_one(pow(x, m)); }
}
}
