#impl<T: Zero, const DIM: usize> Zero for SVector<T, DIM>
items:
  open spec fn zero_ok() -> bool { false }
  open spec fn zero_spec() -> Self { arbitrary() }
#fn zero
spec:
  ensures zz_ok::<T>() ==> forall|i: int| 0 <= i < DIM ==> #[trigger] r.0@[i] == zz::<T>(),
loop 0:
  out0@.len() == k0,
  zz_ok::<T>() ==> forall|i: int| 0 <= i < k0 ==> #[trigger] out0@[i] == zz::<T>(),

#impl<T, const DIM: usize> From<[T; DIM]> for SVector<T, DIM>
val: SVector(rhs)

#impl<T, const DIM: usize> Add for SVector<T, DIM>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add
spec:
  ensures sv_add(r, self, other),

#impl<T, const DIM: usize> AddAssign<Self> for SVector<T, DIM>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures sv_add(*final(self), *old(self), other),

#impl<T, const DIM: usize> Add<&Self> for SVector<T, DIM>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add
spec:
  ensures sv_add(r, self, *other),

#impl<T, const DIM: usize> AddAssign<&Self> for SVector<T, DIM>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures sv_add(*final(self), *old(self), *other),
pre:
  let ghost v0 = self.0@;
loop 0:
  forall|i: int| 0 <= i < k0 ==> #[trigger] self.0@[i] == aa(v0[i], other.0@[i]),
  forall|i: int| k0 <= i < DIM ==> #[trigger] self.0@[i] == v0[i],

#impl<T, const DIM: usize> Sub for SVector<T, DIM>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub
spec:
  ensures sv_sub(r, self, other),

#impl<T, const DIM: usize> SubAssign<Self> for SVector<T, DIM>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures sv_sub(*final(self), *old(self), other),

#impl<T, const DIM: usize> Sub<&Self> for SVector<T, DIM>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub
spec:
  ensures sv_sub(r, self, *other),

#impl<T, const DIM: usize> SubAssign<&Self> for SVector<T, DIM>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures sv_sub(*final(self), *old(self), *other),
pre:
  let ghost v0 = self.0@;
loop 0:
  forall|i: int| 0 <= i < k0 ==> #[trigger] self.0@[i] == sa(v0[i], other.0@[i]),
  forall|i: int| k0 <= i < DIM ==> #[trigger] self.0@[i] == v0[i],

#impl<T, const DIM: usize> Mul<Self> for SVector<T, DIM> where for<'a> Self: Mul<&'a Self, Output = T>
ok: <Self as MulSpec<&Self>>::obeys_mul_spec()
req: <Self as MulSpec<&Self>>::mul_req(self, &rhs)
val: <Self as MulSpec<&Self>>::mul_spec(self, &rhs)
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]

#impl<T, const DIM: usize> Mul<&Self> for SVector<T, DIM>
req: aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
val: sdot(self.0@, rhs.0@, DIM as int)
#fn mul
loop 0:
  sum == sdot(self.0@, other.0@, k0 as int),

#impl<T, const DIM: usize> Mul<T> for SVector<T, DIM>
ok: false
req: mm_ok::<T>()
val: arbitrary()
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures sv_mul(r, self, other),

#impl<T, const DIM: usize> Mul<&T> for SVector<T, DIM>
ok: false
req: mm_ok::<T>()
val: arbitrary()
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures sv_mul(r, self, *other),

#impl<T, const DIM: usize> MulAssign<T> for SVector<T, DIM>
ok: false
req: mm_ok::<T>()
val: arbitrary()
#fn mul_assign
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures sv_mul(*final(self), *old(self), other),

#impl<T, const DIM: usize> MulAssign<&T> for SVector<T, DIM>
ok: false
req: mm_ok::<T>()
val: arbitrary()
#fn mul_assign
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures sv_mul(*final(self), *old(self), *other),
pre:
  let ghost v0 = self.0@;
loop 0:
  forall|i: int| 0 <= i < k0 ==> #[trigger] self.0@[i] == mm(v0[i], *other),
  forall|i: int| k0 <= i < DIM ==> #[trigger] self.0@[i] == v0[i],

#impl<T, const DIM: usize> IntoIterator for SVector<T, DIM>
#fn into_iter
elem: T
spec:
  ensures r@ == self_.0@,
loop 0:
  vx_out@ =~= self_.0@.take(k0 as int),
end:
  assert(r_@ =~= self_.0@);

#impl<'a, T, const DIM: usize> IntoIterator for &'a SVector<T, DIM>
#fn into_iter
elem: &'a T
spec:
  ensures r@.len() == DIM, forall|i: int| 0 <= i < DIM ==> *#[trigger] r@[i] == self_.0@[i],
loop 0:
  vx_out@.len() == k0,
  forall|i: int| 0 <= i < k0 ==> *#[trigger] vx_out@[i] == self_.0@[i],

#impl<'a, T, const DIM: usize> IntoIterator for &'a mut SVector<T, DIM>
#fn into_iter
elem: T
spec:
  requires w@.len() == DIM,
  ensures final(self_).0@ == w@,
loop 0:
  vx_k == k0,
  forall|i: int| 0 <= i < k0 ==> #[trigger] self_.0@[i] == w@[i],
end:
  assert(self_.0@ =~= w@);

#impl<T, const DIM: usize> Index<usize> for SVector<T, DIM>
req: *index < DIM || may_panic()
#fn index
rtidx:
spec:
  ensures index < DIM, *r == self.0@[index as int],

#impl<T, const DIM: usize> IndexMut<usize> for SVector<T, DIM>
#fn index_mut
rtidx:
spec:
  ensures index < DIM, *r == old(self).0@[index as int], final(self).0@ == old(self).0@.update(index as int, *final(r)),

#impl<T: Clone, const DIM: usize> Clone for SVector<T, DIM>
#fn clone
spec:
  ensures forall|i: int| 0 <= i < DIM ==> cloned(#[trigger] self.0@[i], r.0@[i]),

#impl<T: PartialEq, const DIM: usize> PartialEq for SVector<T, DIM>
ok: T::obeys_eq_spec()
val: forall|i: int| 0 <= i < DIM ==> (#[trigger] self.0@[i]).eq_spec(&rhs.0@[i])

#mod linalg::svector
raw:
  pub open spec fn sv_add<'a, T: AddAssign<&'a T> + 'a, const N: usize>(r: SVector<T, N>, a: SVector<T, N>, b: SVector<T, N>) -> bool {
      forall|i: int| 0 <= i < N ==> #[trigger] r.0@[i] == aa(a.0@[i], b.0@[i])
  }
  pub open spec fn sv_sub<'a, T: SubAssign<&'a T> + 'a, const N: usize>(r: SVector<T, N>, a: SVector<T, N>, b: SVector<T, N>) -> bool {
      forall|i: int| 0 <= i < N ==> #[trigger] r.0@[i] == sa(a.0@[i], b.0@[i])
  }
  pub open spec fn sv_mul<T: MulRefs, const N: usize>(r: SVector<T, N>, a: SVector<T, N>, s: T) -> bool {
      forall|i: int| 0 <= i < N ==> #[trigger] r.0@[i] == mm(a.0@[i], s)
  }
  pub open spec fn sdot<'a, T: MulRefs + AddAssign<&'a T> + Zero + 'a>(a: Seq<T>, b: Seq<T>, n: int) -> T { vxl::sum(|i: int| mm(a[i], b[i]), n) }
  // a client: both forms of the product of two vectors are the dot product
  pub fn dot_forms<T, const N: usize>(a: SVector<T, N>, b: SVector<T, N>) -> (r: T) where for<'a> T: MulRefs + AddAssign<&'a T> + Zero
      requires aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
      ensures r == sdot(a.0@, b.0@, N as int)
  { Mul::mul(a, b) }
