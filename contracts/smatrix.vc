#impl<T: Zero, const NUM_ROWS: usize, const NUM_COLS: usize> Zero for SMatrix<T, NUM_ROWS, NUM_COLS>
items:
  open spec fn zero_ok() -> bool { false }
  open spec fn zero_spec() -> Self { arbitrary() }
#fn zero
spec:
  ensures zz_ok::<T>() ==> sm_const(r, zz()),
loop 0:
  out0@.len() == k0,
  zz_ok::<T>() ==> forall|i: int, j: int| 0 <= i < k0 && 0 <= j < NUM_COLS ==> #[trigger] gr(out0@, i, j) == zz::<T>(),
loop 1:
  out1@.len() == k1,
  zz_ok::<T>() ==> forall|j: int| 0 <= j < k1 ==> #[trigger] out1@[j] == zz::<T>(),

#impl<T: Zero + One, const NUM_ROWS: usize, const NUM_COLS: usize> One for SMatrix<T, NUM_ROWS, NUM_COLS>
items:
  open spec fn one_ok() -> bool { false }
  open spec fn one_spec() -> Self { arbitrary() }
#fn one
spec:
  ensures zz_ok::<T>() && oo_ok::<T>() ==> sm_one(r),
loop 0:
  out0@.len() == k0,
  m == k0,
  zz_ok::<T>() && oo_ok::<T>() ==> forall|i: int, j: int| 0 <= i < k0 && 0 <= j < NUM_COLS ==> #[trigger] gr(out0@, i, j) == if i == j { oo::<T>() } else { zz::<T>() },
  alt zz_ok::<T>() && oo_ok::<T>() ==> forall|i: int, j: int| 0 <= i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(ACC, i, j) == if i == j && i < k0 { oo::<T>() } else { zz::<T>() },
loop 1:
  out1@.len() == k1,
  n == k1,
  zz_ok::<T>() && oo_ok::<T>() ==> forall|j: int| 0 <= j < k1 ==> #[trigger] out1@[j] == if i0 == j { oo::<T>() } else { zz::<T>() },

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> From<[[T; NUM_COLS]; NUM_ROWS]> for SMatrix<T, NUM_ROWS, NUM_COLS>
val: SMatrix(rhs)

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> Add for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add
spec:
  ensures sm_add(r, self, other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> AddAssign<Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures sm_add(*final(self), *old(self), other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> Add<&Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add
spec:
  ensures sm_add(r, self, *other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> AddAssign<&Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: aa_ok::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures sm_add(*final(self), *old(self), *other),
pre:
  let ghost v0 = *self;
loop 0:
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == aa(se(v0, i, j), se(*other, i, j)),
  forall|i: int, j: int| k0 <= i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == se(v0, i, j),
loop 1:
  forall|j: int| 0 <= j < k1 ==> #[trigger] lo@[j] == aa(se(v0, i0 as int, j), se(*other, i0 as int, j)),
  forall|j: int| k1 <= j < NUM_COLS ==> #[trigger] lo@[j] == se(v0, i0 as int, j),
  alt forall|i: int, j: int| (0 <= i < i0 || i == i0 && j < k1) && i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == aa(se(v0, i, j), se(*other, i, j)),
  alt forall|i: int, j: int| (i0 < i || i == i0 && k1 <= j) && i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == se(v0, i, j),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> Sub for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub
spec:
  ensures sm_sub(r, self, other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> SubAssign<Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures sm_sub(*final(self), *old(self), other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> Sub<&Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub
spec:
  ensures sm_sub(r, self, *other),

#impl<T, const NUM_ROWS: usize, const NUM_COLS: usize> SubAssign<&Self> for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: false
req: sa_ok::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures sm_sub(*final(self), *old(self), *other),
pre:
  let ghost v0 = *self;
loop 0:
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == sa(se(v0, i, j), se(*other, i, j)),
  forall|i: int, j: int| k0 <= i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == se(v0, i, j),
loop 1:
  forall|j: int| 0 <= j < k1 ==> #[trigger] lo@[j] == sa(se(v0, i0 as int, j), se(*other, i0 as int, j)),
  forall|j: int| k1 <= j < NUM_COLS ==> #[trigger] lo@[j] == se(v0, i0 as int, j),
  alt forall|i: int, j: int| (0 <= i < i0 || i == i0 && j < k1) && i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == sa(se(v0, i, j), se(*other, i, j)),
  alt forall|i: int, j: int| (i0 < i || i == i0 && k1 <= j) && i < NUM_ROWS && 0 <= j < NUM_COLS ==> #[trigger] se(*self, i, j) == se(v0, i, j),

#impl<'a, T, const L: usize, const M: usize, const N: usize> Mul<&'a SMatrix<T, M, N>> for &'a SMatrix<T, L, M>
ok: false
req: aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
val: arbitrary()
#fn mul
spec:
  ensures sm_mul(r, *self, *other),
loop 0:
  out0@.len() == k0,
  l == k0,
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < N ==> #[trigger] gr(out0@, i, j) == rowcol(*self, *other, i, j, M as int),
loop 1:
  out1@.len() == k1,
  n == k1,
  forall|j: int| 0 <= j < k1 ==> #[trigger] out1@[j] == rowcol(*self, *other, i0 as int, j, M as int),
loop 2:
  sum == rowcol(*self, *other, i0 as int, i1 as int, k2 as int),

#impl<T, const L: usize, const M: usize, const N: usize> Mul<SMatrix<T, M, N>> for SMatrix<T, L, M>
ok: false
req: aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
val: arbitrary()
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures sm_mul(r, self, other),

#impl<T, const M: usize, const N: usize> MulAssign<&SMatrix<T, N, N>> for SMatrix<T, M, N>
ok: false
req: <&Self as MulSpec<&SMatrix<T, N, N>>>::mul_req(self, rhs)
val: arbitrary()
#fn mul_assign
spec:
  ensures call_ensures(<&Self as Mul<&SMatrix<T, N, N>>>::mul, (old(self), other), *final(self)),

#impl<T, const M: usize, const N: usize> MulAssign<SMatrix<T, N, N>> for SMatrix<T, M, N>
ok: false
req: <&Self as MulSpec<&SMatrix<T, N, N>>>::mul_req(self, &rhs)
val: arbitrary()
#fn mul_assign
spec:
  ensures call_ensures(<&Self as Mul<&SMatrix<T, N, N>>>::mul, (old(self), &other), *final(self)),

#impl<'a, T, const M: usize, const N: usize> Mul<&'a SVector<T, N>> for &'a SMatrix<T, M, N>
ok: false
req: aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
val: arbitrary()
#fn mul
spec:
  ensures sm_mulv(r, *self, *vec),
loop 0:
  out0@.len() == k0,
  i == k0,
  forall|l: int| 0 <= l < k0 ==> #[trigger] out0@[l] == rowvec(*self, *vec, l, N as int),
loop 1:
  sum == rowvec(*self, *vec, i0 as int, k1 as int),

#impl<T: Neg<Output = T>, const M: usize, const N: usize> Neg for SMatrix<T, M, N>
ok: false
req: ng_ok::<T>()
val: arbitrary()
#fn neg
spec:
  ensures forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == ng(se(self, i, j)),
loop 0:
  out0@.len() == k0,
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < N ==> #[trigger] gr(out0@, i, j) == ng(self.0@[i]@[j]),
loop 1:
  out1@.len() == k1,
  forall|j: int| 0 <= j < k1 ==> #[trigger] out1@[j] == ng(self.0@[i0 as int]@[j]),

#impl<T: Conj, const M: usize, const N: usize> Conj for SMatrix<T, M, N>
items:
  open spec fn conj_ok() -> bool { false }
  open spec fn conj_spec(self) -> Self { arbitrary() }
  open spec fn conj_req() -> bool { cj_ok::<T>() }
#fn conj
spec:
  ensures forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == cj(se(self, i, j)),
loop 0:
  out0@.len() == k0,
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < N ==> #[trigger] gr(out0@, i, j) == cj(self.0@[i]@[j]),
loop 1:
  out1@.len() == k1,
  forall|j: int| 0 <= j < k1 ==> #[trigger] out1@[j] == cj(self.0@[i0 as int]@[j]),

#impl<T: Clone, const NUM_ROWS: usize, const NUM_COLS: usize> Clone for SMatrix<T, NUM_ROWS, NUM_COLS>
#fn clone
spec:
  ensures forall|i: int, j: int| 0 <= i < NUM_ROWS && 0 <= j < NUM_COLS ==> cloned(#[trigger] se(*self, i, j), se(r, i, j)),

#impl<T: PartialEq, const NUM_ROWS: usize, const NUM_COLS: usize> PartialEq for SMatrix<T, NUM_ROWS, NUM_COLS>
ok: T::obeys_eq_spec()
val: forall|i: int, j: int| 0 <= i < NUM_ROWS && 0 <= j < NUM_COLS ==> (#[trigger] se(*self, i, j)).eq_spec(&se(*rhs, i, j))

#mod linalg::smatrix
raw:
  #[verifier::inline]
  pub open spec fn se<T, const M: usize, const N: usize>(a: SMatrix<T, M, N>, i: int, j: int) -> T { a.0@[i]@[j] }
  pub open spec fn sm_const<T, const M: usize, const N: usize>(r: SMatrix<T, M, N>, c: T) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == c
  }
  pub open spec fn sm_one<T: Zero + One, const M: usize, const N: usize>(r: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == if i == j { oo::<T>() } else { zz::<T>() }
  }
  pub open spec fn sm_add<'a, T: AddAssign<&'a T> + 'a, const M: usize, const N: usize>(r: SMatrix<T, M, N>, a: SMatrix<T, M, N>, b: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == aa(se(a, i, j), se(b, i, j))
  }
  pub open spec fn sm_sub<'a, T: SubAssign<&'a T> + 'a, const M: usize, const N: usize>(r: SMatrix<T, M, N>, a: SMatrix<T, M, N>, b: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == sa(se(a, i, j), se(b, i, j))
  }
  pub open spec fn rowcol<'a, T: MulRefs + AddAssign<&'a T> + Zero + 'a, const L: usize, const M: usize, const N: usize>(a: SMatrix<T, L, M>, b: SMatrix<T, M, N>, i: int, j: int, n: int) -> T {
      vxl::sum(|k: int| mm(se(a, i, k), se(b, k, j)), n)
  }
  pub open spec fn sm_mul<'a, T: MulRefs + AddAssign<&'a T> + Zero + 'a, const L: usize, const M: usize, const N: usize>(r: SMatrix<T, L, N>, a: SMatrix<T, L, M>, b: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < L && 0 <= j < N ==> #[trigger] se(r, i, j) == rowcol(a, b, i, j, M as int)
  }
  pub open spec fn rowvec<'a, T: MulRefs + AddAssign<&'a T> + Zero + 'a, const M: usize, const N: usize>(a: SMatrix<T, M, N>, v: SVector<T, N>, i: int, n: int) -> T {
      vxl::sum(|k: int| mm(se(a, i, k), v.0@[k]), n)
  }
  pub open spec fn sm_mulv<'a, T: MulRefs + AddAssign<&'a T> + Zero + 'a, const M: usize, const N: usize>(r: SVector<T, M>, a: SMatrix<T, M, N>, v: SVector<T, N>) -> bool {
      forall|i: int| 0 <= i < M ==> #[trigger] r.0@[i] == rowvec(a, v, i, N as int)
  }
  // clients of the compound assignment: with the product above it is a * b
  pub fn mul_assign_ref_client<T, const M: usize, const N: usize>(a: &mut SMatrix<T, M, N>, b: &SMatrix<T, N, N>) where for<'b> T: MulRefs + AddAssign<&'b T> + Zero
      requires aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
      ensures sm_mul(*final(a), *old(a), *b)
  { MulAssign::mul_assign(a, b) }
  pub fn mul_assign_client<T, const M: usize, const N: usize>(a: &mut SMatrix<T, M, N>, b: SMatrix<T, N, N>) where for<'b> T: MulRefs + AddAssign<&'b T> + Zero
      requires aa_ok::<T>() && mm_ok::<T>() && zz_ok::<T>()
      ensures sm_mul(*final(a), *old(a), b)
  { MulAssign::mul_assign(a, b) }
  #[verifier::inline]
  pub open spec fn gr<T, const N: usize>(s: Seq<[T; N]>, i: int, j: int) -> T { s[i]@[j] }
  // ---- square matrices form a ring ------------------------------------------------------------
  pub open spec fn sm_neg<T: Neg<Output = T>, const M: usize, const N: usize>(r: SMatrix<T, M, N>, a: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(r, i, j) == ng(se(a, i, j))
  }
  pub open spec fn sm_eq<T, const M: usize, const N: usize>(a: SMatrix<T, M, N>, b: SMatrix<T, M, N>) -> bool {
      forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] se(a, i, j) == se(b, i, j)
  }
  pub proof fn s_add_comm<T: Ring, const M: usize, const N: usize>(a: SMatrix<T, M, N>, b: SMatrix<T, M, N>, r1: SMatrix<T, M, N>, r2: SMatrix<T, M, N>)
      requires ring::<T>(), sm_add(r1, a, b), sm_add(r2, b, a) ensures sm_eq(r1, r2)
  { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] se(r1, i, j) == se(r2, i, j) by { vxl::add_comm(se(a, i, j), se(b, i, j)); } }
  pub proof fn s_add_assoc<T: Ring, const M: usize, const N: usize>(a: SMatrix<T, M, N>, b: SMatrix<T, M, N>, c: SMatrix<T, M, N>, ab: SMatrix<T, M, N>, bc: SMatrix<T, M, N>, r1: SMatrix<T, M, N>, r2: SMatrix<T, M, N>)
      requires ring::<T>(), sm_add(ab, a, b), sm_add(r1, ab, c), sm_add(bc, b, c), sm_add(r2, a, bc) ensures sm_eq(r1, r2)
  {
      assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] se(r1, i, j) == se(r2, i, j) by {
          vxl::add_assoc(se(a, i, j), se(b, i, j), se(c, i, j));
          assert(se(ab, i, j) == aa(se(a, i, j), se(b, i, j)));
          assert(se(bc, i, j) == aa(se(b, i, j), se(c, i, j)));
      }
  }
  pub proof fn s_zero_neg<T: Ring, const M: usize, const N: usize>(a: SMatrix<T, M, N>, z: SMatrix<T, M, N>, n: SMatrix<T, M, N>, r1: SMatrix<T, M, N>, r2: SMatrix<T, M, N>, r3: SMatrix<T, M, N>)
      requires ring::<T>(), sm_const(z, zz()), sm_neg(n, a), sm_add(r1, a, z), sm_add(r2, a, n), sm_sub(r3, a, a) ensures sm_eq(r1, a), sm_eq(r2, z), sm_eq(r3, z)
  {
      assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] se(r1, i, j) == se(a, i, j) by { vxl::add_zero(se(a, i, j)); assert(se(z, i, j) == zz::<T>()); }
      assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] se(r2, i, j) == se(z, i, j) by { vxl::add_neg(se(a, i, j)); assert(se(n, i, j) == ng(se(a, i, j))); }
      assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] se(r3, i, j) == se(z, i, j) by { vxl::sub_self(se(a, i, j)); }
  }
  pub proof fn s_mul_one<T: Ring, const N: usize>(a: SMatrix<T, N, N>, e: SMatrix<T, N, N>, r1: SMatrix<T, N, N>, r2: SMatrix<T, N, N>)
      requires ring::<T>(), sm_one(e), sm_mul(r1, a, e), sm_mul(r2, e, a) ensures sm_eq(r1, a), sm_eq(r2, a)
  {
      assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] se(r1, i, j) == se(a, i, j) by {
          let f = |k: int| mm(se(a, i, k), se(e, k, j));
          assert forall|k: int| 0 <= k < N && k != j implies #[trigger] f(k) == zz::<T>() by { assert(se(e, k, j) == zz::<T>()); vxl::mul_zero(se(a, i, k)); }
          vxl::sum_one(f, j, N as int);
          assert(se(e, j, j) == oo::<T>());
          vxl::mul_one(se(a, i, j));
      }
      assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] se(r2, i, j) == se(a, i, j) by {
          let f = |k: int| mm(se(e, i, k), se(a, k, j));
          assert forall|k: int| 0 <= k < N && k != i implies #[trigger] f(k) == zz::<T>() by { assert(se(e, i, k) == zz::<T>()); vxl::mul_zero(se(a, k, j)); }
          vxl::sum_one(f, i, N as int);
          assert(se(e, i, i) == oo::<T>());
          vxl::mul_one(se(a, i, j));
      }
  }
  pub proof fn s_mul_assoc<T: Ring, const L: usize, const M: usize, const N: usize, const P: usize>(a: SMatrix<T, L, M>, b: SMatrix<T, M, N>, c: SMatrix<T, N, P>, ab: SMatrix<T, L, N>, bc: SMatrix<T, M, P>, r1: SMatrix<T, L, P>, r2: SMatrix<T, L, P>)
      requires ring::<T>(), sm_mul(ab, a, b), sm_mul(r1, ab, c), sm_mul(bc, b, c), sm_mul(r2, a, bc) ensures sm_eq(r1, r2)
  {
      assert forall|i: int, j: int| 0 <= i < L && 0 <= j < P implies #[trigger] se(r1, i, j) == se(r2, i, j) by {
          let ff = |l: int, k: int| mm(mm(se(a, i, k), se(b, k, l)), se(c, l, j));
          let lhs = |l: int| mm(se(ab, i, l), se(c, l, j));
          let row = |l: int| vxl::sum(|k: int| ff(l, k), M as int);
          assert forall|l: int| 0 <= l < N implies #[trigger] lhs(l) == row(l) by {
              let t = |k: int| mm(se(a, i, k), se(b, k, l));
              vxl::sum_mul_r(t, se(c, l, j), M as int);
              vxl::sum_ext(|k: int| mm(t(k), se(c, l, j)), |k: int| ff(l, k), M as int);
              assert(se(ab, i, l) == rowcol(a, b, i, l, M as int));
          }
          vxl::sum_ext(lhs, row, N as int);
          vxl::sum_swap(ff, N as int, M as int);
          let rhs = |k: int| mm(se(a, i, k), se(bc, k, j));
          let col = |k: int| vxl::sum(|l: int| ff(l, k), N as int);
          assert forall|k: int| 0 <= k < M implies #[trigger] col(k) == rhs(k) by {
              let u = |l: int| mm(se(b, k, l), se(c, l, j));
              vxl::sum_mul_l(se(a, i, k), u, N as int);
              assert forall|l: int| 0 <= l < N implies #[trigger] mm(se(a, i, k), u(l)) == ff(l, k) by { vxl::mul_assoc(se(a, i, k), se(b, k, l), se(c, l, j)); }
              vxl::sum_ext(|l: int| mm(se(a, i, k), u(l)), |l: int| ff(l, k), N as int);
              assert(se(bc, k, j) == rowcol(b, c, k, j, N as int));
          }
          vxl::sum_ext(col, rhs, M as int);
          assert(se(r1, i, j) == rowcol(ab, c, i, j, N as int));
          assert(se(r2, i, j) == rowcol(a, bc, i, j, M as int));
      }
  }
  pub proof fn s_dist<T: Ring, const L: usize, const M: usize, const N: usize>(a: SMatrix<T, L, M>, b: SMatrix<T, M, N>, c: SMatrix<T, M, N>, bc: SMatrix<T, M, N>, ab: SMatrix<T, L, N>, ac: SMatrix<T, L, N>, r1: SMatrix<T, L, N>, r2: SMatrix<T, L, N>)
      requires ring::<T>(), sm_add(bc, b, c), sm_mul(r1, a, bc), sm_mul(ab, a, b), sm_mul(ac, a, c), sm_add(r2, ab, ac) ensures sm_eq(r1, r2)
  {
      assert forall|i: int, j: int| 0 <= i < L && 0 <= j < N implies #[trigger] se(r1, i, j) == se(r2, i, j) by {
          let f = |k: int| mm(se(a, i, k), se(b, k, j));
          let g = |k: int| mm(se(a, i, k), se(c, k, j));
          let h = |k: int| mm(se(a, i, k), se(bc, k, j));
          assert forall|k: int| 0 <= k < M implies #[trigger] h(k) == aa(f(k), g(k)) by {
              assert(se(bc, k, j) == aa(se(b, k, j), se(c, k, j)));
              vxl::dist_l(se(a, i, k), se(b, k, j), se(c, k, j));
          }
          vxl::sum_ext(h, |k: int| aa(f(k), g(k)), M as int);
          vxl::sum_add(f, g, M as int);
          assert(se(ab, i, j) == rowcol(a, b, i, j, M as int));
          assert(se(ac, i, j) == rowcol(a, c, i, j, M as int));
      }
  }
  pub proof fn s_dist_r<T: Ring, const L: usize, const M: usize, const N: usize>(a: SMatrix<T, M, N>, b: SMatrix<T, L, M>, c: SMatrix<T, L, M>, bc: SMatrix<T, L, M>, ba: SMatrix<T, L, N>, ca: SMatrix<T, L, N>, r1: SMatrix<T, L, N>, r2: SMatrix<T, L, N>)
      requires ring::<T>(), sm_add(bc, b, c), sm_mul(r1, bc, a), sm_mul(ba, b, a), sm_mul(ca, c, a), sm_add(r2, ba, ca) ensures sm_eq(r1, r2)
  {
      assert forall|i: int, j: int| 0 <= i < L && 0 <= j < N implies #[trigger] se(r1, i, j) == se(r2, i, j) by {
          let f = |k: int| mm(se(b, i, k), se(a, k, j));
          let g = |k: int| mm(se(c, i, k), se(a, k, j));
          let h = |k: int| mm(se(bc, i, k), se(a, k, j));
          assert forall|k: int| 0 <= k < M implies #[trigger] h(k) == aa(f(k), g(k)) by {
              assert(se(bc, i, k) == aa(se(b, i, k), se(c, i, k)));
              vxl::dist_r(se(b, i, k), se(c, i, k), se(a, k, j));
          }
          vxl::sum_ext(h, |k: int| aa(f(k), g(k)), M as int);
          vxl::sum_add(f, g, M as int);
          assert(se(ba, i, j) == rowcol(b, a, i, j, M as int));
          assert(se(ca, i, j) == rowcol(c, a, i, j, M as int));
      }
  }
