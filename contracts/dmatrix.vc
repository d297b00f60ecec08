#trait MatrixExpr
items:
  spec fn ent(&self, i: int, j: int, x: Self::Entry) -> bool;
  spec fn ent_req(&self, i: int, j: int) -> bool;
  spec fn wf(&self) -> bool;
  spec fn nr(&self) -> nat;
  spec fn nc(&self) -> nat;
#fn entry
spec:
  requires self.ent_req(row as int, col as int),
  ensures self.ent(row as int, col as int, r),
#fn num_rows
spec:
  ensures r == self.nr(),
#fn num_cols
spec:
  ensures r == self.nc(),
#fn eval
spec:
  requires self.wf(), forall|i: int, j: int| 0 <= i < self.nr() && 0 <= j < self.nc() ==> #[trigger] self.ent_req(i, j),
  ensures r.num_rows == self.nr(), r.num_cols == self.nc(), dm_wf(r), forall|i: int, j: int| 0 <= i < self.nr() && 0 <= j < self.nc() ==> self.ent(i, j, #[trigger] dm_at(r, i, j)),
loop 0:
  n0 == self.nr(), out0@.len() == k0 * self.nc(),
  forall|i: int, j: int| 0 <= i < self.nr() && 0 <= j < self.nc() ==> #[trigger] self.ent_req(i, j),
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < self.nc() ==> self.ent(i, j, out0@[#[trigger] lin(i, j, self.nc() as int)]),
loop 1:
  n0 == self.nr(), n1 == self.nc(), i0 < n0, k0 == i0 + 1, out0@.len() == lin(i0 as int, k1 as int, n1 as int),
  forall|i: int, j: int| 0 <= i < self.nr() && 0 <= j < self.nc() ==> #[trigger] self.ent_req(i, j),
  forall|i: int, j: int| ((0 <= i < i0 && 0 <= j < n1) || (i == i0 && 0 <= j < k1)) ==> self.ent(i, j, out0@[#[trigger] lin(i, j, n1 as int)]),
loop-before 1:
  assert(lin(i0 as int, 0, n1 as int) == i0 * n1);
loop-start 1:
  proof { lin_lt_all(i0 as int, i1 as int, n1 as int); lin_step(i0 as int, i1 as int, n1 as int); }
loop-after 1:
  proof { lin_step(i0 as int, n1 as int, n1 as int); }
#fn wrap
spec:
  ensures r.0 == self,

#impl<T: MatrixExpr> MatrixExpr for MatrixExprWrapper<T>
items:
  open spec fn ent(&self, i: int, j: int, x: Self::Entry) -> bool { self.0.ent(i, j, x) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { self.0.ent_req(i, j) }
  open spec fn wf(&self) -> bool { self.0.wf() }
  open spec fn nr(&self) -> nat { self.0.nr() }
  open spec fn nc(&self) -> nat { self.0.nc() }
#fn entry
#fn num_rows
#fn num_cols
#fn eval
pre:
  assert forall|i: int, j: int| 0 <= i < self.0.nr() && 0 <= j < self.0.nc() implies #[trigger] self.0.ent_req(i, j) by { assert(self.ent_req(i, j)); }

#impl<F_, Out_> MatrixExpr for FnMatrixExpr<F_, Out_> where F_: Fn(usize, usize) -> Out_
items:
  open spec fn ent(&self, i: int, j: int, x: Self::Entry) -> bool { self.0.ensures((i as usize, j as usize), x) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { self.0.requires((i as usize, j as usize)) }
  open spec fn wf(&self) -> bool { true }
  open spec fn nr(&self) -> nat { self.1 as nat }
  open spec fn nc(&self) -> nat { self.2 as nat }
#fn entry
#fn num_rows
#fn num_cols

#impl<T: PartialEq> PartialEq for DMatrix<T>
ok: T::obeys_eq_spec()
val: self.num_rows == rhs.num_rows && self.num_cols == rhs.num_cols && self.data@.len() == rhs.data@.len() && forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i]).eq_spec(&rhs.data@[i])

#mod linalg::dmatrix
#fn make_matrix_expr
spec:
  ensures r.0.wf(), r.nr() == num_rows, r.nc() == num_cols, forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) == f.requires((i as usize, j as usize)), forall|i: int, j: int, x: Out| #[trigger] r.0.ent(i, j, x) == f.ensures((i as usize, j as usize), x),

#impl<Lhs: MatrixExpr> MatrixExprWrapper<Lhs>
#fn map
closure-params 0: row: usize, col: usize
closure 0:
  -> (y: Out)
  requires self.0.ent_req(c0_0 as int, c0_1 as int), forall|x: Lhs::Entry| #[trigger] self.0.ent(c0_0 as int, c0_1 as int, x) ==> f.requires((x,))
  ensures exists|x: Lhs::Entry| #[trigger] self.0.ent(c0_0 as int, c0_1 as int, x) && f.ensures((x,), y)
spec:
  ensures r.0.wf(), r.nr() == self.nr(), r.nc() == self.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nr() && 0 <= j < self.nc() && self.0.ent_req(i, j) && forall|x: Lhs::Entry| #[trigger] self.0.ent(i, j, x) ==> f.requires((x,)),
    forall|i: int, j: int, y: Out| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.nr() && 0 <= j < self.nc() ==> exists|x: Lhs::Entry| #[trigger] self.0.ent(i, j, x) && f.ensures((x,), y),
#fn zip
closure-params 0: row: usize, col: usize
closure 0:
  -> (y: (Lhs::Entry, Rhs::Entry))
  requires self.0.ent_req(c0_0 as int, c0_1 as int), rhs.ent_req(c0_0 as int, c0_1 as int)
  ensures self.0.ent(c0_0 as int, c0_1 as int, y.0), rhs.ent(c0_0 as int, c0_1 as int, y.1)
spec:
  requires (self.nr() == rhs.nr() && self.nc() == rhs.nc()) || may_panic(),
  ensures self.nr() == rhs.nr() && self.nc() == rhs.nc(), r.0.wf(), r.nr() == self.nr(), r.nc() == self.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nr() && 0 <= j < self.nc() && self.0.ent_req(i, j) && rhs.ent_req(i, j),
    forall|i: int, j: int, y: (Lhs::Entry, Rhs::Entry)| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.nr() && 0 <= j < self.nc() ==> self.0.ent(i, j, y.0) && rhs.ent(i, j, y.1),
#fn mul_elemwise
closure-params 0: p: (Lhs::Entry, Rhs::Entry)
closure 0:
  -> (z: <Lhs::Entry as Mul<Rhs::Entry>>::Output)
  requires c0_0.0.mul_req(c0_0.1)
  ensures call_ensures(<Lhs::Entry as Mul<Rhs::Entry>>::mul, (c0_0.0, c0_0.1), z)
spec:
  requires (self.nr() == rhs.nr() && self.nc() == rhs.nc()) || may_panic(),
  ensures self.nr() == rhs.nr() && self.nc() == rhs.nc(), r.0.wf(), r.nr() == self.nr(), r.nc() == self.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nr() && 0 <= j < self.nc() && self.0.ent_req(i, j) && rhs.ent_req(i, j) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] rhs.ent(i, j, y) ==> x.mul_req(y),
    forall|i: int, j: int, z: <Lhs::Entry as Mul<Rhs::Entry>>::Output| #[trigger] r.0.ent(i, j, z) ==> 0 <= i < self.nr() && 0 <= j < self.nc() ==> exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] rhs.ent(i, j, y) && call_ensures(<Lhs::Entry as Mul<Rhs::Entry>>::mul, (x, y), z),
#fn div_elemwise
closure-params 0: p: (Lhs::Entry, Rhs::Entry)
closure 0:
  -> (z: <Lhs::Entry as Div<Rhs::Entry>>::Output)
  requires c0_0.0.div_req(c0_0.1)
  ensures call_ensures(<Lhs::Entry as Div<Rhs::Entry>>::div, (c0_0.0, c0_0.1), z)
spec:
  requires (self.nr() == rhs.nr() && self.nc() == rhs.nc()) || may_panic(),
  ensures self.nr() == rhs.nr() && self.nc() == rhs.nc(), r.0.wf(), r.nr() == self.nr(), r.nc() == self.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nr() && 0 <= j < self.nc() && self.0.ent_req(i, j) && rhs.ent_req(i, j) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] rhs.ent(i, j, y) ==> x.div_req(y),
    forall|i: int, j: int, z: <Lhs::Entry as Div<Rhs::Entry>>::Output| #[trigger] r.0.ent(i, j, z) ==> 0 <= i < self.nr() && 0 <= j < self.nc() ==> exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] rhs.ent(i, j, y) && call_ensures(<Lhs::Entry as Div<Rhs::Entry>>::div, (x, y), z),

#impl<Rhs, Lhs> Add<Rhs> for MatrixExprWrapper<Lhs> where Lhs: MatrixExpr, Rhs: MatrixExpr, Lhs::Entry: Add<Rhs::Entry>
ok: false
req: (self.nr() == rhs.nr() && self.nc() == rhs.nc()) || may_panic()
val: arbitrary()
#fn add
spec:
  ensures r.0.0 == self.0, r.0.1 == rhs, self.nr() == rhs.nr(), self.nc() == rhs.nc(),

#impl<Lhs, Rhs> MatrixExpr for AddExpr<Lhs, Rhs> where Lhs: MatrixExpr, Rhs: MatrixExpr, Lhs::Entry: Add<Rhs::Entry>
items:
  open spec fn ent(&self, i: int, j: int, z: Self::Entry) -> bool { exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] self.1.ent(i, j, y) && call_ensures(<Lhs::Entry as Add<Rhs::Entry>>::add, (x, y), z) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { self.0.ent_req(i, j) && self.1.ent_req(i, j) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] self.1.ent(i, j, y) ==> x.add_req(y) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() }
  open spec fn nr(&self) -> nat { self.0.nr() }
  open spec fn nc(&self) -> nat { self.0.nc() }
#fn entry
#fn num_rows
#fn num_cols

#impl<T, Rhs> Add<Rhs> for &DMatrix<T> where Rhs: MatrixExpr, MatrixExprWrapper<Self>: Add<Rhs>, T: Clone
ok: false
req: <MatrixExprWrapper<Self> as AddSpec<Rhs>>::add_req(MatrixExprWrapper(self), rhs)
val: arbitrary()
#fn add
spec:
  ensures call_ensures(<MatrixExprWrapper<&DMatrix<T>> as Add<Rhs>>::add, (MatrixExprWrapper(self), rhs), r),

#impl<Rhs, Lhs> Sub<Rhs> for MatrixExprWrapper<Lhs> where Lhs: MatrixExpr, Rhs: MatrixExpr, Lhs::Entry: Sub<Rhs::Entry>
ok: false
req: (self.nr() == rhs.nr() && self.nc() == rhs.nc()) || may_panic()
val: arbitrary()
#fn sub
spec:
  ensures r.0.0 == self.0, r.0.1 == rhs, self.nr() == rhs.nr(), self.nc() == rhs.nc(),

#impl<Lhs, Rhs> MatrixExpr for SubExpr<Lhs, Rhs> where Lhs: MatrixExpr, Rhs: MatrixExpr, Lhs::Entry: Sub<Rhs::Entry>
items:
  open spec fn ent(&self, i: int, j: int, z: Self::Entry) -> bool { exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] self.1.ent(i, j, y) && call_ensures(<Lhs::Entry as Sub<Rhs::Entry>>::sub, (x, y), z) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { self.0.ent_req(i, j) && self.1.ent_req(i, j) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, j, x) && #[trigger] self.1.ent(i, j, y) ==> x.sub_req(y) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() }
  open spec fn nr(&self) -> nat { self.0.nr() }
  open spec fn nc(&self) -> nat { self.0.nc() }
#fn entry
#fn num_rows
#fn num_cols

#impl<T, Rhs> Sub<Rhs> for &DMatrix<T> where T: Clone, MatrixExprWrapper<Self>: Sub<Rhs>
ok: false
req: <MatrixExprWrapper<Self> as SubSpec<Rhs>>::sub_req(MatrixExprWrapper(self), rhs)
val: arbitrary()
#fn sub
spec:
  ensures call_ensures(<MatrixExprWrapper<&DMatrix<T>> as Sub<Rhs>>::sub, (MatrixExprWrapper(self), rhs), r),

#impl<Lhs> MatrixExprWrapper<Lhs> where Lhs: MatrixExpr
#fn t
closure-params 0: r: usize, c: usize
closure 0:
  -> (y: Lhs::Entry)
  requires self.0.ent_req(c0_1 as int, c0_0 as int)
  ensures self.0.ent(c0_1 as int, c0_0 as int, y)
spec:
  ensures r.0.wf(), r.nr() == self.nc(), r.nc() == self.nr(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nc() && 0 <= j < self.nr() && self.0.ent_req(j, i),
    forall|i: int, j: int, y: Lhs::Entry| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.nc() && 0 <= j < self.nr() ==> self.0.ent(j, i, y),
#fn diag
closure-params 0: index: usize
closure 0:
  -> (y: Lhs::Entry)
  requires self.0.ent_req(c0_0 as int, c0_0 as int)
  ensures self.0.ent(c0_0 as int, c0_0 as int, y)
spec:
  ensures r.n() == (if self.nr() < self.nc() { self.nr() } else { self.nc() }),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < r.n() && self.0.ent_req(i, i),
    forall|i: int, y: Lhs::Entry| #[trigger] r.0.ent(i, y) ==> 0 <= i < r.n() ==> self.0.ent(i, i, y),

#impl<Lhs> MatrixExprWrapper<Lhs> where Lhs: MatrixExpr, Lhs::Entry: Conj
#fn h
closure-params 0: r: usize, c: usize
closure 0:
  -> (y: Lhs::Entry)
  requires self.0.ent_req(c0_1 as int, c0_0 as int), Lhs::Entry::conj_req()
  ensures exists|x: Lhs::Entry| #[trigger] self.0.ent(c0_1 as int, c0_0 as int, x) && call_ensures(<Lhs::Entry as Conj>::conj, (x,), y)
spec:
  ensures r.0.wf(), r.nr() == self.nc(), r.nc() == self.nr(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.nc() && 0 <= j < self.nr() && self.0.ent_req(j, i) && Lhs::Entry::conj_req(),
    forall|i: int, j: int, y: Lhs::Entry| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.nc() && 0 <= j < self.nr() ==> exists|x: Lhs::Entry| #[trigger] self.0.ent(j, i, x) && call_ensures(<Lhs::Entry as Conj>::conj, (x,), y),

#impl<T: Clone> Clone for DMatrix<T>
#fn clone
spec:
  ensures self.num_rows == r.num_rows, self.num_cols == r.num_cols, self.data@.len() == r.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cle(self.data@[i], #[trigger] r.data@[i]),

#impl<T> MatrixExpr for DMatrix<T> where T: Clone
items:
  open spec fn ent(&self, i: int, j: int, x: T) -> bool { 0 <= i < self.num_rows && 0 <= j < self.num_cols && cle(dm_at(*self, i, j), x) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { dm_wf(*self) && ((i < self.num_rows && j < self.num_cols) || may_panic()) }
  open spec fn wf(&self) -> bool { dm_wf(*self) }
  open spec fn nr(&self) -> nat { self.num_rows as nat }
  open spec fn nc(&self) -> nat { self.num_cols as nat }
#fn entry
rtidx:
pre:
  let len_ = self.data.len();
  proof { lin_fits(row as int, col as int, self.num_rows as int, self.num_cols as int); }
#fn num_rows
#fn num_cols
#fn eval

#impl<T> MatrixExpr for &DMatrix<T> where T: Clone
items:
  open spec fn ent(&self, i: int, j: int, x: T) -> bool { 0 <= i < self.num_rows && 0 <= j < self.num_cols && cle(dm_at(**self, i, j), x) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { dm_wf(**self) && ((i < self.num_rows && j < self.num_cols) || may_panic()) }
  open spec fn wf(&self) -> bool { dm_wf(**self) }
  open spec fn nr(&self) -> nat { self.num_rows as nat }
  open spec fn nc(&self) -> nat { self.num_cols as nat }
#fn entry
rtidx:
pre:
  let len_ = self.data.len();
  proof { lin_fits(row as int, col as int, self.num_rows as int, self.num_cols as int); }
#fn num_rows
#fn num_cols
#fn eval
pre:
  proof { lin_inj_all(0, 0, self.num_rows as int, self.num_cols as int); }

#impl<T> DMatrix<T> where T: One + Zero
#fn eye
closure-params 0: r: usize, c: usize
closure 0:
  -> (z: T) ensures c0_0 == c0_1 && T::one_ok() ==> z == T::one_spec(), c0_0 != c0_1 && T::zero_ok() ==> z == T::zero_spec()
spec:
  ensures r.0.wf(), r.nr() == n, r.nc() == n, forall|i: int, j: int| #[trigger] r.0.ent_req(i, j),
    forall|i: int, j: int, x: T| #[trigger] r.0.ent(i, j, x) ==> 0 <= i < n && 0 <= j < n ==> (i == j && T::one_ok() ==> x == T::one_spec()) && (i != j && T::zero_ok() ==> x == T::zero_spec()),

#impl<T> DMatrix<T> where T: Zero
#fn zeros
closure-params 0: i: usize, j: usize
closure 0:
  -> (z: T) ensures T::zero_ok() ==> z == T::zero_spec()
spec:
  ensures r.0.wf(), r.nr() == num_rows, r.nc() == num_cols, forall|i: int, j: int| #[trigger] r.0.ent_req(i, j), forall|i: int, j: int, x: T| T::zero_ok() && #[trigger] r.0.ent(i, j, x) ==> x == T::zero_spec(),

#impl<T> DMatrix<T> where T: One
#fn ones
closure-params 0: i: usize, j: usize
closure 0:
  -> (z: T) ensures T::one_ok() ==> z == T::one_spec()
spec:
  ensures r.0.wf(), r.nr() == num_rows, r.nc() == num_cols, forall|i: int, j: int| #[trigger] r.0.ent_req(i, j), forall|i: int, j: int, x: T| T::one_ok() && #[trigger] r.0.ent(i, j, x) ==> x == T::one_spec(),

#impl<T> DMatrix<T> where T: Clone
#fn same
closure-params 0: i: usize, j: usize
closure 0:
  -> (z: T) ensures call_ensures(T::clone, (&val,), z)
spec:
  ensures r.0.wf(), r.nr() == num_rows, r.nc() == num_cols, forall|i: int, j: int| #[trigger] r.0.ent_req(i, j), forall|i: int, j: int, x: T| #[trigger] r.0.ent(i, j, x) ==> call_ensures(T::clone, (&val,), x),

#impl<T> Index<[usize; 2]> for DMatrix<T>
req: dm_wf(*self) && ((index@[0] < self.num_rows && index@[1] < self.num_cols) || may_panic())
#fn index
rtidx:
pre:
  let len_ = self.data.len();
  proof { lin_fits(row_and_col@[0] as int, row_and_col@[1] as int, self.num_rows as int, self.num_cols as int); }
spec:
  ensures row_and_col@[0] < self.num_rows, row_and_col@[1] < self.num_cols, *r == dm_at(*self, row_and_col@[0] as int, row_and_col@[1] as int),

#impl<T> IndexMut<[usize; 2]> for DMatrix<T>
#fn index_mut
rtidx:
pre:
  let len_ = self.data.len();
  proof { lin_fits(row_and_col@[0] as int, row_and_col@[1] as int, self.num_rows as int, self.num_cols as int); lin_inj_all(row_and_col@[0] as int, row_and_col@[1] as int, self.num_rows as int, self.num_cols as int); }
spec:
  ensures row_and_col@[0] < old(self).num_rows, row_and_col@[1] < old(self).num_cols, *r == dm_at(*old(self), row_and_col@[0] as int, row_and_col@[1] as int),
    final(self).num_rows == old(self).num_rows, final(self).num_cols == old(self).num_cols, dm_wf(*final(self)),
    dm_at(*final(self), row_and_col@[0] as int, row_and_col@[1] as int) == *final(r),
    forall|i: int, j: int| 0 <= i < old(self).num_rows && 0 <= j < old(self).num_cols && !(i == row_and_col@[0] && j == row_and_col@[1]) ==> #[trigger] dm_at(*final(self), i, j) == dm_at(*old(self), i, j),
    final(self).data@.len() == old(self).data@.len(), final(self).data@[lin(row_and_col@[0] as int, row_and_col@[1] as int, old(self).num_cols as int)] == *final(r),
    forall|p: int| 0 <= p < old(self).data@.len() && p != lin(row_and_col@[0] as int, row_and_col@[1] as int, old(self).num_cols as int) ==> #[trigger] final(self).data@[p] == old(self).data@[p],

#impl<T, Rhs> AddAssign<Rhs> for DMatrix<T> where T: AddAssign<Rhs::Entry> + Clone, Rhs: MatrixExpr
ok: false
req: dm_wf(*self) && ((self.num_rows == rhs.nr() && self.num_cols == rhs.nc()) || may_panic()) && (forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j)) && forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) && i < self.num_rows && j < self.num_cols ==> T::add_assign_req(&dm_at(*self, i, j), x)
val: arbitrary()
#fn add_assign
spec:
  ensures old(self).num_rows == rhs.nr(), old(self).num_cols == rhs.nc(), final(self).num_rows == rhs.nr(), final(self).num_cols == rhs.nc(), dm_wf(*final(self)),
    T::obeys_add_assign_spec() ==> forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> mav_at(rhs, i, j, dm_at(*old(self), i, j), #[trigger] dm_at(*final(self), i, j)),
pre:
  let len_ = self.data.len();
  let ghost v0 = self.data@;
  proof { assert forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) && i < self.num_rows && j < self.num_cols implies T::add_assign_req(&v0[lin(i, j, self.num_cols as int)], x) by { assert(T::add_assign_req(&dm_at(*self, i, j), x)); } }
loop 0:
  self.num_rows == rhs.nr(), self.num_cols == rhs.nc(), num_cols == rhs.nc(), n0 == rhs.nr(), v0.len() == n0 * num_cols, self.data@.len() == v0.len(), v0.len() <= usize::MAX,
  forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j),
  forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) ==> T::add_assign_req(&v0[lin(i, j, num_cols as int)], x),
  T::obeys_add_assign_spec() ==> forall|i: int, j: int| 0 <= i < k0 && 0 <= j < num_cols ==> mav_at(rhs, i, j, v0[lin(i, j, num_cols as int)], self.data@[#[trigger] lin(i, j, num_cols as int)]),
  forall|i: int, j: int| k0 <= i < n0 && 0 <= j < num_cols ==> self.data@[#[trigger] lin(i, j, num_cols as int)] == v0[lin(i, j, num_cols as int)],
loop 1:
  self.num_rows == rhs.nr(), self.num_cols == rhs.nc(), num_cols == rhs.nc(), n0 == rhs.nr(), v0.len() == n0 * num_cols, self.data@.len() == v0.len(), v0.len() <= usize::MAX,
  forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j),
  forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) ==> T::add_assign_req(&v0[lin(i, j, num_cols as int)], x),
  i0 < n0, n1 == num_cols,
  T::obeys_add_assign_spec() ==> forall|i: int, j: int| (0 <= i < i0 || (i == i0 && j < k1)) && 0 <= j < num_cols ==> mav_at(rhs, i, j, v0[lin(i, j, num_cols as int)], self.data@[#[trigger] lin(i, j, num_cols as int)]),
  forall|i: int, j: int| (i0 < i < n0 || (i == i0 && k1 <= j)) && 0 <= j < num_cols ==> self.data@[#[trigger] lin(i, j, num_cols as int)] == v0[lin(i, j, num_cols as int)],
loop-start 1:
  proof { lin_fits(i0 as int, i1 as int, n0 as int, num_cols as int); lin_inj_all(i0 as int, i1 as int, n0 as int, num_cols as int); assert(rhs.ent_req(i0 as int, i1 as int)); }
  let ghost w0 = self.data@; let ghost p0 = lin(i0 as int, i1 as int, num_cols as int);
  assert(w0[p0] == v0[p0]);
loop-end 1:
  assert(forall|p: int| 0 <= p < v0.len() && p != p0 ==> #[trigger] self.data@[p] == w0[p]);
  assert(T::obeys_add_assign_spec() ==> mav_at(rhs, i0 as int, i1 as int, v0[p0], self.data@[p0]));

#impl<T, Rhs> SubAssign<Rhs> for DMatrix<T> where T: SubAssign<Rhs::Entry> + Clone, Rhs: MatrixExpr
ok: false
req: dm_wf(*self) && ((self.num_rows == rhs.nr() && self.num_cols == rhs.nc()) || may_panic()) && (forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j)) && forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) && i < self.num_rows && j < self.num_cols ==> T::sub_assign_req(&dm_at(*self, i, j), x)
val: arbitrary()
#fn sub_assign
spec:
  ensures old(self).num_rows == rhs.nr(), old(self).num_cols == rhs.nc(), final(self).num_rows == rhs.nr(), final(self).num_cols == rhs.nc(), dm_wf(*final(self)),
    T::obeys_sub_assign_spec() ==> forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> msv_at(rhs, i, j, dm_at(*old(self), i, j), #[trigger] dm_at(*final(self), i, j)),
pre:
  let len_ = self.data.len();
  let ghost v0 = self.data@;
  proof { assert forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) && i < self.num_rows && j < self.num_cols implies T::sub_assign_req(&v0[lin(i, j, self.num_cols as int)], x) by { assert(T::sub_assign_req(&dm_at(*self, i, j), x)); } }
loop 0:
  self.num_rows == rhs.nr(), self.num_cols == rhs.nc(), num_cols == rhs.nc(), n0 == rhs.nr(), v0.len() == n0 * num_cols, self.data@.len() == v0.len(), v0.len() <= usize::MAX,
  forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j),
  forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) ==> T::sub_assign_req(&v0[lin(i, j, num_cols as int)], x),
  T::obeys_sub_assign_spec() ==> forall|i: int, j: int| 0 <= i < k0 && 0 <= j < num_cols ==> msv_at(rhs, i, j, v0[lin(i, j, num_cols as int)], self.data@[#[trigger] lin(i, j, num_cols as int)]),
  forall|i: int, j: int| k0 <= i < n0 && 0 <= j < num_cols ==> self.data@[#[trigger] lin(i, j, num_cols as int)] == v0[lin(i, j, num_cols as int)],
loop 1:
  self.num_rows == rhs.nr(), self.num_cols == rhs.nc(), num_cols == rhs.nc(), n0 == rhs.nr(), v0.len() == n0 * num_cols, self.data@.len() == v0.len(), v0.len() <= usize::MAX,
  forall|i: int, j: int| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() ==> #[trigger] rhs.ent_req(i, j),
  forall|i: int, j: int, x: Rhs::Entry| 0 <= i < rhs.nr() && 0 <= j < rhs.nc() && #[trigger] rhs.ent(i, j, x) ==> T::sub_assign_req(&v0[lin(i, j, num_cols as int)], x),
  i0 < n0, n1 == num_cols,
  T::obeys_sub_assign_spec() ==> forall|i: int, j: int| (0 <= i < i0 || (i == i0 && j < k1)) && 0 <= j < num_cols ==> msv_at(rhs, i, j, v0[lin(i, j, num_cols as int)], self.data@[#[trigger] lin(i, j, num_cols as int)]),
  forall|i: int, j: int| (i0 < i < n0 || (i == i0 && k1 <= j)) && 0 <= j < num_cols ==> self.data@[#[trigger] lin(i, j, num_cols as int)] == v0[lin(i, j, num_cols as int)],
loop-start 1:
  proof { lin_fits(i0 as int, i1 as int, n0 as int, num_cols as int); lin_inj_all(i0 as int, i1 as int, n0 as int, num_cols as int); assert(rhs.ent_req(i0 as int, i1 as int)); }
  let ghost w0 = self.data@; let ghost p0 = lin(i0 as int, i1 as int, num_cols as int);
  assert(w0[p0] == v0[p0]);
loop-end 1:
  assert(forall|p: int| 0 <= p < v0.len() && p != p0 ==> #[trigger] self.data@[p] == w0[p]);
  assert(T::obeys_sub_assign_spec() ==> msv_at(rhs, i0 as int, i1 as int, v0[p0], self.data@[p0]));

#impl<'a, T> MulDMatrix<'a, T>
#fn new
spec:
  ensures r.lhs == lhs, r.rhs == rhs,

#impl<'a, T> MatrixExpr for MulDMatrix<'a, T> where T: Mul<T> + Clone, <T as Mul<T>>::Output: AddAssign
items:
  open spec fn ent(&self, i: int, j: int, z: Self::Entry) -> bool { 0 <= i < self.lhs.num_rows && 0 <= j < self.rhs.num_cols && 1 <= self.lhs.num_cols && z == psum(*self.lhs, *self.rhs, i, j, self.lhs.num_cols as int) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { prod_ok::<T>() && self.wf() && ((i < self.lhs.num_rows && j < self.rhs.num_cols && 1 <= self.lhs.num_cols) || may_panic()) }
  open spec fn wf(&self) -> bool { dm_wf(*self.lhs) && dm_wf(*self.rhs) && self.lhs.num_cols == self.rhs.num_rows }
  open spec fn nr(&self) -> nat { self.lhs.num_rows as nat }
  open spec fn nc(&self) -> nat { self.rhs.num_cols as nat }
#fn entry
loop 0:
  sum == psum(*self.lhs, *self.rhs, row as int, col as int, k0 + 1),
#fn num_rows
#fn num_cols

#impl<'a, T> Mul<Self> for &'a DMatrix<T> where T: Mul<T> + Clone, <T as Mul<T>>::Output: AddAssign
ok: false
req: self.num_cols == rhs.num_rows || may_panic()
val: arbitrary()
#fn mul
spec:
  ensures self.num_cols == rhs.num_rows, r.lhs == self, r.rhs == rhs,

#impl<T> DMatrix<T>
#fn mul_elemwise
spec:
  requires dm_wf(*self), (self.num_rows == lhs.nr() && self.num_cols == lhs.nc()) || may_panic(),
  ensures self.num_rows == lhs.nr() && self.num_cols == lhs.nc(), r.0.wf(), r.nr() == lhs.nr(), r.nc() == lhs.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < lhs.nr() && 0 <= j < lhs.nc() && lhs.ent_req(i, j) && forall|x: T, y: Lhs::Entry| #[trigger] cle(dm_at(*self, i, j), x) && #[trigger] lhs.ent(i, j, y) ==> x.mul_req(y),
    forall|i: int, j: int, z: <T as Mul<Lhs::Entry>>::Output| #[trigger] r.0.ent(i, j, z) ==> 0 <= i < lhs.nr() && 0 <= j < lhs.nc() ==> exists|x: T, y: Lhs::Entry| #[trigger] cle(dm_at(*self, i, j), x) && #[trigger] lhs.ent(i, j, y) && call_ensures(<T as Mul<Lhs::Entry>>::mul, (x, y), z),
#fn div_elemwise
spec:
  requires dm_wf(*self), (self.num_rows == lhs.nr() && self.num_cols == lhs.nc()) || may_panic(),
  ensures self.num_rows == lhs.nr() && self.num_cols == lhs.nc(), r.0.wf(), r.nr() == lhs.nr(), r.nc() == lhs.nc(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < lhs.nr() && 0 <= j < lhs.nc() && lhs.ent_req(i, j) && forall|x: T, y: Lhs::Entry| #[trigger] cle(dm_at(*self, i, j), x) && #[trigger] lhs.ent(i, j, y) ==> x.div_req(y),
    forall|i: int, j: int, z: <T as Div<Lhs::Entry>>::Output| #[trigger] r.0.ent(i, j, z) ==> 0 <= i < lhs.nr() && 0 <= j < lhs.nc() ==> exists|x: T, y: Lhs::Entry| #[trigger] cle(dm_at(*self, i, j), x) && #[trigger] lhs.ent(i, j, y) && call_ensures(<T as Div<Lhs::Entry>>::div, (x, y), z),

#impl<T> DMatrix<T> where T: Clone
#fn t
spec:
  ensures r.0.wf(), r.nr() == self.num_cols, r.nc() == self.num_rows,
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.num_cols && 0 <= j < self.num_rows && dm_wf(*self),
    forall|i: int, j: int, y: T| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.num_cols && 0 <= j < self.num_rows ==> cle(dm_at(*self, j, i), y),
#fn diag
spec:
  ensures r.n() == (if self.num_rows < self.num_cols { self.num_rows } else { self.num_cols }),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < r.n() && dm_wf(*self),
    forall|i: int, y: T| #[trigger] r.0.ent(i, y) ==> 0 <= i < r.n() ==> cle(dm_at(*self, i, i), y),

#impl<T> DMatrix<T> where T: Clone + Conj
#fn h
spec:
  ensures r.0.wf(), r.nr() == self.num_cols, r.nc() == self.num_rows,
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.num_cols && 0 <= j < self.num_rows && dm_wf(*self) && T::conj_req(),
    forall|i: int, j: int, y: T| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.num_cols && 0 <= j < self.num_rows ==> exists|x: T| #[trigger] cle(dm_at(*self, j, i), x) && call_ensures(<T as Conj>::conj, (x,), y),

#impl<T: Clone, const NUM_ROWS: usize, const NUM_COLS: usize> MatrixExpr for [[T; NUM_COLS]; NUM_ROWS]
items:
  open spec fn ent(&self, i: int, j: int, x: T) -> bool { 0 <= i < NUM_ROWS && 0 <= j < NUM_COLS && cle(self@[i]@[j], x) }
  open spec fn ent_req(&self, i: int, j: int) -> bool { (i < NUM_ROWS && j < NUM_COLS) || may_panic() }
  open spec fn wf(&self) -> bool { true }
  open spec fn nr(&self) -> nat { NUM_ROWS as nat }
  open spec fn nc(&self) -> nat { NUM_COLS as nat }
#fn entry
rtidx:
#fn num_rows
#fn num_cols
#fn eval
pre:
  let ghost a0 = self;
loop 0:
  n0 == NUM_ROWS, out0@.len() == k0 * NUM_COLS, s0_@ == a0@,
  forall|i: int, j: int| 0 <= i < k0 && 0 <= j < NUM_COLS ==> a0@[i]@[j] == out0@[#[trigger] lin(i, j, NUM_COLS as int)],
loop 1:
  n0 == NUM_ROWS, n1 == NUM_COLS, i0 < n0, k0 == i0 + 1, out0@.len() == lin(i0 as int, k1 as int, n1 as int), s2_@ == a0@[i0 as int]@,
  forall|i: int, j: int| ((0 <= i < i0 && 0 <= j < n1) || (i == i0 && 0 <= j < k1)) ==> a0@[i]@[j] == out0@[#[trigger] lin(i, j, n1 as int)],
loop-before 1:
  assert(lin(i0 as int, 0, n1 as int) == i0 * n1);
loop-start 1:
  proof { lin_lt_all(i0 as int, i1 as int, n1 as int); lin_step(i0 as int, i1 as int, n1 as int); }
loop-after 1:
  proof { lin_step(i0 as int, n1 as int, n1 as int); }

#mod linalg::dmatrix
raw:
  use super::dvector::cle;
  // position of entry (i, j) in row-by-row storage
  pub open spec fn lin(i: int, j: int, nc: int) -> int { i * nc + j }
  pub open spec fn dm_wf<T>(m: DMatrix<T>) -> bool { m.data@.len() == m.num_rows * m.num_cols }
  pub open spec fn dm_at<T>(m: DMatrix<T>, i: int, j: int) -> T { m.data@[lin(i, j, m.num_cols as int)] }
  pub proof fn lin_bound(i: int, j: int, nr: int, nc: int)
      requires 0 <= i < nr, 0 <= j < nc
      ensures 0 <= lin(i, j, nc) < nr * nc, 0 <= i * nc <= lin(i, j, nc)
  { assert(i * nc + j < nr * nc && 0 <= i * nc) by (nonlinear_arith) requires 0 <= i < nr, 0 <= j < nc; }
  pub proof fn lin_fits(i: int, j: int, nr: int, nc: int)
      requires 0 <= i, 0 <= j
      ensures i < nr && j < nc ==> 0 <= lin(i, j, nc) < nr * nc && 0 <= i * nc <= lin(i, j, nc)
  { if i < nr && j < nc { lin_bound(i, j, nr, nc); } }
  pub proof fn lin_inj(i: int, j: int, k: int, l: int, nc: int)
      requires 0 <= j < nc, 0 <= l < nc, lin(i, j, nc) == lin(k, l, nc)
      ensures i == k && j == l
  { assert(i == k) by (nonlinear_arith) requires 0 <= j < nc, 0 <= l < nc, i * nc + j == k * nc + l; }
  // no other entry is stored in the place of entry (i, j)
  pub proof fn lin_inj_all(i: int, j: int, nr: int, nc: int)
      requires 0 <= i, 0 <= j
      ensures j < nc ==> forall|k: int, l: int| 0 <= k < nr && 0 <= l < nc ==> 0 <= #[trigger] lin(k, l, nc) < nr * nc && (lin(k, l, nc) == lin(i, j, nc) ==> k == i && l == j)
  {
      assert forall|k: int, l: int| j < nc && 0 <= k < nr && 0 <= l < nc implies 0 <= #[trigger] lin(k, l, nc) < nr * nc && (lin(k, l, nc) == lin(i, j, nc) ==> k == i && l == j) by {
          lin_bound(k, l, nr, nc);
          if lin(k, l, nc) == lin(i, j, nc) { lin_inj(k, l, i, j, nc); }
      }
  }
  pub proof fn lin_lt_all(i: int, j: int, nc: int)
      requires 0 <= i, 0 <= j, 0 <= nc
      ensures forall|k: int, l: int| ((0 <= k < i && 0 <= l < nc) || (k == i && 0 <= l < j)) ==> 0 <= #[trigger] lin(k, l, nc) < lin(i, j, nc)
  {
      assert forall|k: int, l: int| ((0 <= k < i && 0 <= l < nc) || (k == i && 0 <= l < j)) implies 0 <= #[trigger] lin(k, l, nc) < lin(i, j, nc) by {
          assert(0 <= k * nc + l < i * nc + j) by (nonlinear_arith) requires 0 <= i, 0 <= j, (0 <= k < i && 0 <= l < nc) || (k == i && 0 <= l < j && nc >= 0);
      }
  }
  pub proof fn lin_step(i: int, j: int, nc: int)
      ensures lin(i, j + 1, nc) == lin(i, j, nc) + 1, lin(i, 0, nc) == i * nc, j == nc ==> lin(i, j, nc) == (i + 1) * nc
  { assert((i + 1) * nc == i * nc + nc) by (nonlinear_arith); }
  pub open spec fn mav_at<E: MatrixExpr, T: AddAssign<E::Entry>>(e: E, i: int, j: int, a: T, r: T) -> bool { exists|x: E::Entry| #[trigger] e.ent(i, j, x) && av(a, x) == r }
  pub open spec fn msv_at<E: MatrixExpr, T: SubAssign<E::Entry>>(e: E, i: int, j: int, a: T, r: T) -> bool { exists|x: E::Entry| #[trigger] e.ent(i, j, x) && sv(a, x) == r }
  pub open spec fn prod_ok<T: Mul<T> + Clone>() -> bool where <T as Mul<T>>::Output: AddAssign {
      &&& cl_ok::<T>() && T::obeys_mul_spec() && forall|a: T, b: T| #[trigger] a.mul_req(b)
      &&& av_ok::<<T as Mul<T>>::Output, <T as Mul<T>>::Output>()
  }
  // a(i,0) b(0,j) + ... + a(i,n-1) b(n-1,j) for n >= 1
  pub open spec fn psum<T: Mul<T> + Clone>(a: DMatrix<T>, b: DMatrix<T>, i: int, j: int, n: int) -> <T as Mul<T>>::Output where <T as Mul<T>>::Output: AddAssign
      decreases n
  { if n <= 1 { dm_at(a, i, 0).mul_spec(dm_at(b, 0, j)) } else { av(psum(a, b, i, j, n - 1), dm_at(a, i, n - 1).mul_spec(dm_at(b, n - 1, j))) } }
