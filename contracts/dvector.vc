#trait VectorExpr
items:
  spec fn ent(&self, i: int, x: Self::Entry) -> bool;
  spec fn ent_req(&self, i: int) -> bool;
  spec fn n(&self) -> nat;
#fn entry
spec:
  requires self.ent_req(index as int),
  ensures self.ent(index as int, r),
#fn len
spec:
  ensures r == self.n(),
#fn is_empty
spec:
  ensures r == (self.n() == 0),
#fn eval
spec:
  requires forall|i: int| 0 <= i < self.n() ==> #[trigger] self.ent_req(i),
  ensures r.0@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> self.ent(i, #[trigger] r.0@[i]),
loop 0:
  forall|i: int| 0 <= i < self.n() ==> #[trigger] self.ent_req(i), n0 == self.n(), out0@.len() == k0,
  forall|i: int| 0 <= i < k0 ==> self.ent(i, #[trigger] out0@[i]),
#fn wrap
spec:
  ensures r.0 == self,

#impl<Expr: VectorExpr> VectorExpr for VectorExprWrapper<Expr>
items:
  open spec fn ent(&self, i: int, x: Self::Entry) -> bool { self.0.ent(i, x) }
  open spec fn ent_req(&self, i: int) -> bool { self.0.ent_req(i) }
  open spec fn n(&self) -> nat { self.0.n() }
#fn entry
#fn len
#fn eval
pre:
  assert forall|i: int| 0 <= i < self.0.n() implies #[trigger] self.0.ent_req(i) by { assert(self.ent_req(i)); }

#impl<F_, Out_> VectorExpr for FnVectorExpr<F_, Out_> where F_: Fn(usize) -> Out_
items:
  open spec fn ent(&self, i: int, x: Self::Entry) -> bool { self.0.ensures((i as usize,), x) }
  open spec fn ent_req(&self, i: int) -> bool { self.0.requires((i as usize,)) }
  open spec fn n(&self) -> nat { self.1 as nat }
#fn entry
#fn len

#impl<T: PartialEq> PartialEq for DVector<T>
ok: T::obeys_eq_spec()
val: self.0@.len() == rhs.0@.len() && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).eq_spec(&rhs.0@[i])

#mod linalg::dvector
#fn make_vector_expr
spec:
  ensures r.n() == len, forall|i: int| #[trigger] r.0.ent_req(i) == f.requires((i as usize,)), forall|i: int, x: Out| #[trigger] r.0.ent(i, x) == f.ensures((i as usize,), x),

#impl<Lhs: VectorExpr> VectorExprWrapper<Lhs>
#fn map
closure-params 0: index: usize
closure 0:
  -> (y: Out)
  requires self.0.ent_req(c0_0 as int), forall|x: Lhs::Entry| #[trigger] self.0.ent(c0_0 as int, x) ==> f.requires((x,))
  ensures exists|x: Lhs::Entry| #[trigger] self.0.ent(c0_0 as int, x) && f.ensures((x,), y)
spec:
  ensures r.n() == self.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.n() && self.0.ent_req(i) && forall|x: Lhs::Entry| #[trigger] self.0.ent(i, x) ==> f.requires((x,)),
    forall|i: int, y: Out| #[trigger] r.0.ent(i, y) ==> 0 <= i < self.n() ==> exists|x: Lhs::Entry| #[trigger] self.0.ent(i, x) && f.ensures((x,), y),
#fn zip
closure-params 0: index: usize
closure 0:
  -> (y: (Lhs::Entry, Rhs::Entry))
  requires self.0.ent_req(c0_0 as int), rhs.ent_req(c0_0 as int)
  ensures self.0.ent(c0_0 as int, y.0), rhs.ent(c0_0 as int, y.1)
spec:
  requires self.n() == rhs.n() || may_panic(),
  ensures self.n() == rhs.n(), r.n() == self.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.n() && self.0.ent_req(i) && rhs.ent_req(i),
    forall|i: int, y: (Lhs::Entry, Rhs::Entry)| #[trigger] r.0.ent(i, y) ==> 0 <= i < self.n() ==> self.0.ent(i, y.0) && rhs.ent(i, y.1),
#fn mul_elemwise
closure-params 0: p: (Lhs::Entry, Rhs::Entry)
closure 0:
  -> (z: <Lhs::Entry as Mul<Rhs::Entry>>::Output)
  requires c0_0.0.mul_req(c0_0.1)
  ensures call_ensures(<Lhs::Entry as Mul<Rhs::Entry>>::mul, (c0_0.0, c0_0.1), z)
spec:
  requires self.n() == rhs.n() || may_panic(),
  ensures self.n() == rhs.n(), r.n() == self.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.n() && self.0.ent_req(i) && rhs.ent_req(i) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] rhs.ent(i, y) ==> x.mul_req(y),
    forall|i: int, z: <Lhs::Entry as Mul<Rhs::Entry>>::Output| #[trigger] r.0.ent(i, z) ==> 0 <= i < self.n() ==> exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] rhs.ent(i, y) && call_ensures(<Lhs::Entry as Mul<Rhs::Entry>>::mul, (x, y), z),
#fn div_elemwise
closure-params 0: p: (Lhs::Entry, Rhs::Entry)
closure 0:
  -> (z: <Lhs::Entry as Div<Rhs::Entry>>::Output)
  requires c0_0.0.div_req(c0_0.1)
  ensures call_ensures(<Lhs::Entry as Div<Rhs::Entry>>::div, (c0_0.0, c0_0.1), z)
spec:
  requires self.n() == rhs.n() || may_panic(),
  ensures self.n() == rhs.n(), r.n() == self.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.n() && self.0.ent_req(i) && rhs.ent_req(i) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] rhs.ent(i, y) ==> x.div_req(y),
    forall|i: int, z: <Lhs::Entry as Div<Rhs::Entry>>::Output| #[trigger] r.0.ent(i, z) ==> 0 <= i < self.n() ==> exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] rhs.ent(i, y) && call_ensures(<Lhs::Entry as Div<Rhs::Entry>>::div, (x, y), z),
#fn conj
closure-params 0: x: Lhs::Entry
closure 0:
  -> (z: Lhs::Entry)
  requires Lhs::Entry::conj_req()
  ensures call_ensures(<Lhs::Entry as Conj>::conj, (c0_0,), z)
spec:
  ensures r.n() == self.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.n() && self.0.ent_req(i) && Lhs::Entry::conj_req(),
    forall|i: int, z: Lhs::Entry| #[trigger] r.0.ent(i, z) ==> 0 <= i < self.n() ==> exists|x: Lhs::Entry| #[trigger] self.0.ent(i, x) && call_ensures(<Lhs::Entry as Conj>::conj, (x,), z),

#impl<Rhs, Lhs> Add<Rhs> for VectorExprWrapper<Lhs> where Lhs: VectorExpr, Rhs: VectorExpr, Lhs::Entry: Add<Rhs::Entry>
ok: false
req: self.n() == rhs.n() || may_panic()
val: arbitrary()
#fn add
spec:
  ensures r.0.0 == self.0, r.0.1 == rhs, self.n() == rhs.n(),

#impl<Lhs, Rhs> VectorExpr for AddExpr<Lhs, Rhs> where Lhs: VectorExpr, Rhs: VectorExpr, Lhs::Entry: Add<Rhs::Entry>
items:
  open spec fn ent(&self, i: int, z: Self::Entry) -> bool { exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] self.1.ent(i, y) && call_ensures(<Lhs::Entry as Add<Rhs::Entry>>::add, (x, y), z) }
  open spec fn ent_req(&self, i: int) -> bool { self.0.ent_req(i) && self.1.ent_req(i) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] self.1.ent(i, y) ==> x.add_req(y) }
  open spec fn n(&self) -> nat { self.0.n() }
#fn entry
#fn len

#impl<Rhs, Lhs> Sub<Rhs> for VectorExprWrapper<Lhs> where Lhs: VectorExpr, Rhs: VectorExpr, Lhs::Entry: Sub<Rhs::Entry>
ok: false
req: self.n() == rhs.n() || may_panic()
val: arbitrary()
#fn sub
spec:
  ensures r.0.0 == self.0, r.0.1 == rhs, self.n() == rhs.n(),

#impl<Lhs, Rhs> VectorExpr for SubExpr<Lhs, Rhs> where Lhs: VectorExpr, Rhs: VectorExpr, Lhs::Entry: Sub<Rhs::Entry>
items:
  open spec fn ent(&self, i: int, z: Self::Entry) -> bool { exists|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] self.1.ent(i, y) && call_ensures(<Lhs::Entry as Sub<Rhs::Entry>>::sub, (x, y), z) }
  open spec fn ent_req(&self, i: int) -> bool { self.0.ent_req(i) && self.1.ent_req(i) && forall|x: Lhs::Entry, y: Rhs::Entry| #[trigger] self.0.ent(i, x) && #[trigger] self.1.ent(i, y) ==> x.sub_req(y) }
  open spec fn n(&self) -> nat { self.0.n() }
#fn entry
#fn len

#impl<T: Clone> Clone for DVector<T>
#fn clone
spec:
  ensures self.0@.len() == r.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> cle(self.0@[i], #[trigger] r.0@[i]),

#impl<T: Clone> VectorExpr for DVector<T>
items:
  open spec fn ent(&self, i: int, x: T) -> bool { i < self.0@.len() && cle(self.0@[i as int], x) }
  open spec fn ent_req(&self, i: int) -> bool { i < self.0@.len() || may_panic() }
  open spec fn n(&self) -> nat { self.0@.len() }
#fn entry
rtidx:
#fn len
#fn eval

#impl<T: Clone> VectorExpr for &DVector<T>
items:
  open spec fn ent(&self, i: int, x: T) -> bool { i < self.0@.len() && cle(self.0@[i as int], x) }
  open spec fn ent_req(&self, i: int) -> bool { i < self.0@.len() || may_panic() }
  open spec fn n(&self) -> nat { self.0@.len() }
#fn entry
rtidx:
#fn len
#fn eval

#impl<T> DVector<T> where T: Zero
#fn zeros
closure-params 0: i: usize
closure 0:
  -> (z: T) ensures T::zero_ok() ==> z == T::zero_spec()
spec:
  ensures r.n() == len, forall|i: int| #[trigger] r.0.ent_req(i), forall|i: int, x: T| T::zero_ok() && #[trigger] r.0.ent(i, x) ==> x == T::zero_spec(),

#impl<T> DVector<T> where T: One
#fn ones
closure-params 0: i: usize
closure 0:
  -> (z: T) ensures T::one_ok() ==> z == T::one_spec()
spec:
  ensures r.n() == len, forall|i: int| #[trigger] r.0.ent_req(i), forall|i: int, x: T| T::one_ok() && #[trigger] r.0.ent(i, x) ==> x == T::one_spec(),

#impl<T> DVector<T> where T: Clone
#fn same
closure-params 0: i: usize
closure 0:
  -> (z: T) ensures call_ensures(T::clone, (&val,), z)
spec:
  ensures r.n() == len, forall|i: int| #[trigger] r.0.ent_req(i), forall|i: int, x: T| #[trigger] r.0.ent(i, x) ==> call_ensures(T::clone, (&val,), x),

#impl<T> Index<usize> for DVector<T>
req: *index < self.0@.len() || may_panic()
#fn index
rtidx:
spec:
  ensures index < self.0@.len(), *r == self.0@[index as int],

#impl<T> IndexMut<usize> for DVector<T>
#fn index_mut
rtidx:
spec:
  ensures index < old(self).0@.len(), *r == old(self).0@[index as int], final(self).0@ == old(self).0@.update(index as int, *final(r)),

#impl<T: Clone> VectorExpr for &[T]
items:
  open spec fn ent(&self, i: int, x: T) -> bool { i < self@.len() && cle(self@[i as int], x) }
  open spec fn ent_req(&self, i: int) -> bool { i < self@.len() || may_panic() }
  open spec fn n(&self) -> nat { self@.len() }
#fn entry
rtidx:
#fn len
#fn eval
loop 0:
  out0@.len() == k0,
  forall|i: int| 0 <= i < k0 ==> cle(self@[i], #[trigger] out0@[i]),

#mod linalg::dvector
raw:
  // an element handed out: moved or cloned
  pub open spec fn cle<T: Clone>(a: T, b: T) -> bool { a == b || call_ensures(T::clone, (&a,), b) }
  pub open spec fn vx_wf<E: VectorExpr>(e: E) -> bool { forall|i: int| 0 <= i < e.n() ==> #[trigger] e.ent_req(i) }
  pub open spec fn ve_evals<E: VectorExpr>(e: E, r: DVector<E::Entry>) -> bool {
      r.0@.len() == e.n() && forall|i: int| 0 <= i < e.n() ==> e.ent(i, #[trigger] r.0@[i])
  }

#impl<T, Rhs> Add<Rhs> for &DVector<T> where T: Clone, VectorExprWrapper<Self>: Add<Rhs>
ok: false
req: <VectorExprWrapper<Self> as AddSpec<Rhs>>::add_req(VectorExprWrapper(self), rhs)
val: arbitrary()
#fn add
spec:
  ensures call_ensures(<VectorExprWrapper<&DVector<T>> as Add<Rhs>>::add, (VectorExprWrapper(self), rhs), r),

#impl<T, Rhs> Sub<Rhs> for &DVector<T> where T: Clone, VectorExprWrapper<Self>: Sub<Rhs>
ok: false
req: <VectorExprWrapper<Self> as SubSpec<Rhs>>::sub_req(VectorExprWrapper(self), rhs)
val: arbitrary()
#fn sub
spec:
  ensures call_ensures(<VectorExprWrapper<&DVector<T>> as Sub<Rhs>>::sub, (VectorExprWrapper(self), rhs), r),

#impl<T, Rhs> AddAssign<Rhs> for DVector<T> where T: AddAssign<Rhs::Entry> + Clone, Rhs: VectorExpr
ok: false
req: (self.0@.len() == rhs.n() || may_panic()) && (forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.ent_req(i)) && forall|i: int, x: Rhs::Entry| 0 <= i < rhs.n() && #[trigger] rhs.ent(i, x) && i < self.0@.len() ==> T::add_assign_req(&self.0@[i], x)
val: arbitrary()
#fn add_assign
spec:
  ensures old(self).0@.len() == rhs.n(), final(self).0@.len() == rhs.n(), T::obeys_add_assign_spec() ==> forall|i: int| 0 <= i < rhs.n() ==> av_at(rhs, i, old(self).0@[i], #[trigger] final(self).0@[i]),
pre:
  let ghost v0 = self.0@;
loop 0:
  n0 == v0.len(), self.0@.len() == v0.len(), rhs.n() == v0.len(),
  forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.ent_req(i),
  forall|i: int, x: Rhs::Entry| 0 <= i < rhs.n() && #[trigger] rhs.ent(i, x) ==> T::add_assign_req(&v0[i], x),
  T::obeys_add_assign_spec() ==> forall|i: int| 0 <= i < k0 ==> av_at(rhs, i, v0[i], #[trigger] self.0@[i]),
  forall|i: int| k0 <= i < n0 ==> #[trigger] self.0@[i] == v0[i],
loop-start 0:
  assert(self.0@[i0 as int] == v0[i0 as int]); assert(rhs.ent_req(i0 as int)); let ghost w0 = self.0@;
loop-end 0:
  assert(forall|j: int| 0 <= j < n0 && j != i0 ==> #[trigger] self.0@[j] == w0[j]);
  assert(T::obeys_add_assign_spec() ==> av_at(rhs, i0 as int, v0[i0 as int], self.0@[i0 as int]));

#impl<T, Rhs> SubAssign<Rhs> for DVector<T> where T: SubAssign<Rhs::Entry> + Clone, Rhs: VectorExpr
ok: false
req: (self.0@.len() == rhs.n() || may_panic()) && (forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.ent_req(i)) && forall|i: int, x: Rhs::Entry| 0 <= i < rhs.n() && #[trigger] rhs.ent(i, x) && i < self.0@.len() ==> T::sub_assign_req(&self.0@[i], x)
val: arbitrary()
#fn sub_assign
spec:
  ensures old(self).0@.len() == rhs.n(), final(self).0@.len() == rhs.n(), T::obeys_sub_assign_spec() ==> forall|i: int| 0 <= i < rhs.n() ==> sv_at(rhs, i, old(self).0@[i], #[trigger] final(self).0@[i]),
pre:
  let ghost v0 = self.0@;
loop 0:
  n0 == v0.len(), self.0@.len() == v0.len(), rhs.n() == v0.len(),
  forall|i: int| 0 <= i < rhs.n() ==> #[trigger] rhs.ent_req(i),
  forall|i: int, x: Rhs::Entry| 0 <= i < rhs.n() && #[trigger] rhs.ent(i, x) ==> T::sub_assign_req(&v0[i], x),
  T::obeys_sub_assign_spec() ==> forall|i: int| 0 <= i < k0 ==> sv_at(rhs, i, v0[i], #[trigger] self.0@[i]),
  forall|i: int| k0 <= i < n0 ==> #[trigger] self.0@[i] == v0[i],
loop-start 0:
  assert(self.0@[i0 as int] == v0[i0 as int]); assert(rhs.ent_req(i0 as int)); let ghost w0 = self.0@;
loop-end 0:
  assert(forall|j: int| 0 <= j < n0 && j != i0 ==> #[trigger] self.0@[j] == w0[j]);
  assert(T::obeys_sub_assign_spec() ==> sv_at(rhs, i0 as int, v0[i0 as int], self.0@[i0 as int]));

#impl<T> Mul for DVector<T> where T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero
req: (self.0@.len() == rhs.0@.len() || may_panic()) && dot_ok::<T>()
val: ddot(self.0@, rhs.0@, self.0@.len() as int)
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]
spec:
  ensures self.0@.len() == rhs.0@.len(),

#impl<T> Mul for &DVector<T> where T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero
req: (self.0@.len() == rhs.0@.len() || may_panic()) && dot_ok::<T>()
val: ddot(self.0@, rhs.0@, self.0@.len() as int)
#fn mul
spec:
  ensures self.0@.len() == rhs.0@.len(),
loop 0:
  dot_ok::<T>(), self.0@.len() == rhs.0@.len(), n0 == self.0@.len(),
  acc0 == ddot(self.0@, rhs.0@, k0 as int),

#impl<T> DVector<T>
#fn mul_elemwise
spec:
  requires self.0@.len() == lhs.n() || may_panic(),
  ensures self.0@.len() == lhs.n(), r.n() == lhs.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < lhs.n() && lhs.ent_req(i) && forall|x: T, y: Lhs::Entry| #[trigger] cle(self.0@[i], x) && #[trigger] lhs.ent(i, y) ==> x.mul_req(y),
    forall|i: int, z: <T as Mul<Lhs::Entry>>::Output| #[trigger] r.0.ent(i, z) ==> 0 <= i < lhs.n() ==> exists|x: T, y: Lhs::Entry| #[trigger] cle(self.0@[i], x) && #[trigger] lhs.ent(i, y) && call_ensures(<T as Mul<Lhs::Entry>>::mul, (x, y), z),

#impl<T> DVector<T>
#fn div_elemwise
spec:
  requires self.0@.len() == lhs.n() || may_panic(),
  ensures self.0@.len() == lhs.n(), r.n() == lhs.n(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < lhs.n() && lhs.ent_req(i) && forall|x: T, y: Lhs::Entry| #[trigger] cle(self.0@[i], x) && #[trigger] lhs.ent(i, y) ==> x.div_req(y),
    forall|i: int, z: <T as Div<Lhs::Entry>>::Output| #[trigger] r.0.ent(i, z) ==> 0 <= i < lhs.n() ==> exists|x: T, y: Lhs::Entry| #[trigger] cle(self.0@[i], x) && #[trigger] lhs.ent(i, y) && call_ensures(<T as Div<Lhs::Entry>>::div, (x, y), z),

#impl<T> DVector<T> where T: Clone + Conj
#fn conj
spec:
  ensures r.n() == self.0@.len(),
    forall|i: int| #[trigger] r.0.ent_req(i) <== 0 <= i < self.0@.len() && T::conj_req(),
    forall|i: int, z: T| #[trigger] r.0.ent(i, z) ==> 0 <= i < self.0@.len() ==> exists|x: T| #[trigger] cle(self.0@[i], x) && call_ensures(<T as Conj>::conj, (x,), z),

#mod linalg::dvector
raw:
  pub open spec fn ad<T: Add<Output = T>>(a: T, b: T) -> T { a.add_spec(b) }
  pub open spec fn ml<T: Mul<Output = T>>(a: T, b: T) -> T { a.mul_spec(b) }
  pub open spec fn dot_ok<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>() -> bool {
      &&& T::obeys_add_spec() && forall|a: T, b: T| #[trigger] a.add_req(b)
      &&& T::obeys_mul_spec() && forall|a: T, b: T| #[trigger] a.mul_req(b)
      &&& cl_ok::<T>() && cj_ok::<T>() && zz_ok::<T>()
  }
  // conj(a_0) b_0 + ... + conj(a_{n-1}) b_{n-1}
  pub open spec fn ddot<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>(a: Seq<T>, b: Seq<T>, n: int) -> T
      decreases n
  { if n <= 0 { zz() } else { ad(ddot(a, b, n - 1), ml(cj(a[n - 1]), b[n - 1])) } }
  pub open spec fn av_at<E: VectorExpr, T: AddAssign<E::Entry>>(e: E, i: int, a: T, r: T) -> bool { exists|x: E::Entry| #[trigger] e.ent(i, x) && av(a, x) == r }
  pub open spec fn sv_at<E: VectorExpr, T: SubAssign<E::Entry>>(e: E, i: int, a: T, r: T) -> bool { exists|x: E::Entry| #[trigger] e.ent(i, x) && sv(a, x) == r }

#impl<Lhs> VectorExprWrapper<Lhs> where Lhs: VectorExpr, Lhs::Entry: Zero
#fn diag
closure-params 0: r: usize, c: usize
closure 0:
  -> (y: Lhs::Entry)
  requires c0_0 == c0_1 ==> self.0.ent_req(c0_0 as int)
  ensures c0_0 == c0_1 ==> self.0.ent(c0_0 as int, y), c0_0 != c0_1 && Lhs::Entry::zero_ok() ==> y == Lhs::Entry::zero_spec()
spec:
  ensures r.0.wf(), r.nr() == self.n(), r.nc() == self.n(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.n() && 0 <= j < self.n() && (i == j ==> self.0.ent_req(i)),
    forall|i: int, j: int, y: Lhs::Entry| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.n() && 0 <= j < self.n() ==> (i == j ==> self.0.ent(i, y)) && (i != j && Lhs::Entry::zero_ok() ==> y == Lhs::Entry::zero_spec()),

#impl<T> DVector<T> where T: Clone + Zero
#fn diag
spec:
  ensures r.0.wf(), r.nr() == self.0@.len(), r.nc() == self.0@.len(),
    forall|i: int, j: int| #[trigger] r.0.ent_req(i, j) <== 0 <= i < self.0@.len() && 0 <= j < self.0@.len(),
    forall|i: int, j: int, y: T| #[trigger] r.0.ent(i, j, y) ==> 0 <= i < self.0@.len() && 0 <= j < self.0@.len() ==> (i == j ==> cle(self.0@[i], y)) && (i != j && T::zero_ok() ==> y == T::zero_spec()),
