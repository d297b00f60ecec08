#impl<T: Ring> Clone for Polynomial<T>
#fn clone
spec:
  ensures r.a@.len() == self.a@.len(), forall|i: int| 0 <= i < r.a@.len() ==> cloned(#[trigger] self.a@[i], r.a@[i]),

#impl<T: Ring> PartialEq for Polynomial<T>
ok: false
val: arbitrary()
#fn eq
spec:
  ensures ring::<T>() ==> (r <==> peq(*self, *other)),
loop 0:
  ring::<T>() ==> zero == zz::<T>(),
  ring::<T>() ==> forall|j: int| 0 <= j < k0 ==> #[trigger] pc(*self, j) == pc(*other, j),
loop-start 0:
  let ghost (pi, qi) = (pc(*self, i0 as int), pc(*other, i0 as int));

#impl<T: Ring> Polynomial<T>
#fn from_coefficients
spec:
  ensures r.a@ == coefficients@,

#fn eval_ref
spec:
  requires ring::<T>(),
  ensures r == pev(self.a@, *x),
loop 0:
  y == horner(self.a@, *x, n0 - k0),
loop-start 0:
  proof { horner_step(self.a@, *x, n0 - 1 - i0); }
end:
  proof { horner_all(self.a@, *x); }

#fn eval
spec:
  requires ring::<T>(),
  ensures r == pev(self.a@, x),

#impl<T: Ring> Zero for Polynomial<T>
items:
  open spec fn zero_ok() -> bool { false }
  open spec fn zero_spec() -> Self { arbitrary() }
#fn zero
spec:
  ensures r.a@.len() == 0,

#impl<T: Ring> One for Polynomial<T>
items:
  open spec fn one_ok() -> bool { false }
  open spec fn one_spec() -> Self { arbitrary() }
#fn one
spec:
  ensures ring::<T>() ==> is_const(r, oo()),

#impl<T: Ring> std::ops::Add<Polynomial<T>> for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn add
spec:
  ensures is_add(r, self, rhs),
  decreases rhs.a@.len(),
pre:
  let ghost (p0, q0) = (self, rhs);
loop 0:
  self_.a@.len() == p0.a@.len(),
  forall|j: int| 0 <= j < k0 ==> #[trigger] self_.a@[j] == aa(p0.a@[j], q0.a@[j]),
  forall|j: int| k0 <= j < p0.a@.len() ==> #[trigger] self_.a@[j] == p0.a@[j],
end:
  proof { plaws::<T>(); if p0.a@.len() >= q0.a@.len() { all_add(r_, p0, q0); } }

#impl<T: Ring> std::ops::AddAssign for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures is_add(*final(self), *old(self), rhs),
pre:
  let ghost (p0, q0) = (*self, rhs);
loop 0:
  my_len == p0.a@.len(),
  self.a@.len() == if k0 < my_len { my_len } else { k0 },
  forall|j: int| 0 <= j < k0 ==> #[trigger] self.a@[j] == aa(cf(p0.a@, j), q0.a@[j]),
  forall|j: int| k0 <= j < my_len ==> #[trigger] self.a@[j] == p0.a@[j],
loop-start 0:
  proof { vxl::add_zero(q0.a@[i0 as int]); }
end:
  proof { plaws::<T>(); all_add(*self, p0, q0); }

#impl<T: Ring> AddAssign<&Polynomial<T>> for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn add_assign
spec:
  ensures is_add(*final(self), *old(self), *rhs),
pre:
  let ghost p0 = *self;
closure 0:
  -> (v: T) ensures v == zz::<T>()
loop-before 0:
  let ghost p1 = self.a@;
  assert(forall|j: int| 0 <= j < p1.len() ==> #[trigger] p1[j] == cf(p0.a@, j));
loop 0:
  self.a@.len() == p1.len(),
  p1.len() >= n0,
  p1.len() >= p0.a@.len(),
  forall|j: int| 0 <= j < k0 ==> #[trigger] self.a@[j] == aa(p1[j], rhs.a@[j]),
  forall|j: int| k0 <= j < p1.len() ==> #[trigger] self.a@[j] == p1[j],
end:
  proof { plaws::<T>(); all_add(*self, p0, *rhs); }

#impl<T: Ring> std::ops::Sub for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn sub
spec:
  ensures is_sub(r, self, rhs),
end:
  proof { plaws::<T>(); }

#impl<T: Ring> std::ops::SubAssign for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures is_sub(*final(self), *old(self), rhs),
end:
  proof { plaws::<T>(); }

#impl<T: Ring> SubAssign<&Polynomial<T>> for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn sub_assign
spec:
  ensures is_sub(*final(self), *old(self), *rhs),
pre:
  let ghost p0 = *self;
closure 0:
  -> (v: T) ensures v == zz::<T>()
loop-before 0:
  let ghost p1 = self.a@;
  assert(forall|j: int| 0 <= j < p1.len() ==> #[trigger] p1[j] == cf(p0.a@, j));
loop 0:
  self.a@.len() == p1.len(),
  p1.len() >= n0,
  p1.len() >= p0.a@.len(),
  forall|j: int| 0 <= j < k0 ==> #[trigger] self.a@[j] == sa(p1[j], rhs.a@[j]),
  forall|j: int| k0 <= j < p1.len() ==> #[trigger] self.a@[j] == p1[j],
end:
  proof { plaws::<T>(); all_sub(*self, p0, *rhs); }

#impl<T: Ring> std::ops::Mul for Polynomial<T>
ok: false
req: ring::<T>() && self.a@.len() + rhs.a@.len() <= usize::MAX
val: arbitrary()
#fn mul
spec:
  ensures is_mul(r, self, rhs),

#impl<T: Ring> std::ops::MulAssign for Polynomial<T>
ok: false
req: ring::<T>() && self.a@.len() + rhs.a@.len() <= usize::MAX
val: arbitrary()
#fn mul_assign
spec:
  ensures is_mul(*final(self), *old(self), rhs),

#impl<T: Ring> Mul for &Polynomial<T>
ok: false
req: ring::<T>() && self.a@.len() + rhs.a@.len() <= usize::MAX
val: arbitrary()
#fn mul
spec:
  ensures is_mul(r, *self, *rhs),
pre:
  proof { conv_outside(self.a@, rhs.a@); }
loop 0:
  a@.len() == self.a@.len() + rhs.a@.len() - 1,
  forall|k: int| 0 <= k < a@.len() ==> #[trigger] a@[k] == psum(self.a@, rhs.a@, k, k0 as int),
  alt forall|k: int| 0 <= k < a@.len() ==> #[trigger] a@[k] == psumr(self.a@, rhs.a@, k, k0 as int),
  alt forall|k: int| 0 <= k < k0 && k < a@.len() ==> #[trigger] a@[k] == conv(self.a@, rhs.a@, k),
  alt forall|k: int| k0 <= k < a@.len() ==> #[trigger] a@[k] == zz::<T>(),
loop 1:
  a@.len() == self.a@.len() + rhs.a@.len() - 1,
  i == k0 - 1,
  forall|k: int| 0 <= k < a@.len() ==> #[trigger] a@[k] == psum(self.a@, rhs.a@, k, if i <= k < i + k1 { i + 1 } else { i as int }),
  alt forall|k: int| 0 <= k < a@.len() ==> #[trigger] a@[k] == psumr(self.a@, rhs.a@, k, if i0 <= k < i0 + k1 { i0 + 1 } else { i0 as int }),
  alt forall|k: int| 0 <= k < i0 && k < a@.len() ==> #[trigger] a@[k] == conv(self.a@, rhs.a@, k),
  alt forall|k: int| i0 < k < a@.len() ==> #[trigger] a@[k] == zz::<T>(),
  alt i0 < a@.len() ==> a@[i0 as int] == psum(self.a@, rhs.a@, i0 as int, k1 as int),
loop-start 1:
  alt proof { psum_rest(self.a@, rhs.a@, i1 as int); }
loop-after 1:
  proof { psum_rest(self.a@, rhs.a@, i as int); }
  alt proof { psumr_rest(self.a@, rhs.a@, i0 as int); }
loop-after 0:
  proof { psum_conv(self.a@, rhs.a@); }
  alt proof { psumr_conv(self.a@, rhs.a@); }

#impl<T: Ring> std::ops::Neg for Polynomial<T>
ok: false
req: ring::<T>()
val: arbitrary()
#fn neg
spec:
  ensures is_neg(r, self),
pre:
  let ghost p0 = self;
loop 0:
  out0@.len() == k0,
  forall|j: int| 0 <= j < k0 ==> #[trigger] out0@[j] == ng(p0.a@[j]),
end:
  proof { plaws::<T>(); }

#mod algebra::polynomial
raw:
  // coefficient k, missing ones being zero
  pub open spec fn cf<T: Zero>(s: Seq<T>, k: int) -> T { if 0 <= k < s.len() { s[k] } else { zz() } }
  pub open spec fn pc<T: Ring>(p: Polynomial<T>, k: int) -> T { cf(p.a@, k) }
  pub open spec fn peq<T: Ring>(p: Polynomial<T>, q: Polynomial<T>) -> bool { forall|k: int| #[trigger] pc(p, k) == pc(q, k) }
  pub open spec fn is_const<T: Ring>(p: Polynomial<T>, c: T) -> bool { forall|k: int| #[trigger] pc(p, k) == if k == 0 { c } else { zz() } }
  pub open spec fn is_add<T: Ring>(r: Polynomial<T>, p: Polynomial<T>, q: Polynomial<T>) -> bool { forall|k: int| #[trigger] pc(r, k) == aa(pc(p, k), pc(q, k)) }
  pub open spec fn is_sub<T: Ring>(r: Polynomial<T>, p: Polynomial<T>, q: Polynomial<T>) -> bool { forall|k: int| #[trigger] pc(r, k) == sa(pc(p, k), pc(q, k)) }
  pub open spec fn is_neg<T: Ring>(r: Polynomial<T>, p: Polynomial<T>) -> bool { forall|k: int| #[trigger] pc(r, k) == ng(pc(p, k)) }
  pub open spec fn conv<T: Ring>(s: Seq<T>, t: Seq<T>, k: int) -> T { psum(s, t, k, k + 1) }
  pub open spec fn is_mul<T: Ring>(r: Polynomial<T>, p: Polynomial<T>, q: Polynomial<T>) -> bool { forall|k: int| #[trigger] pc(r, k) == conv(p.a@, q.a@, k) }
  pub open spec fn pev<T: Ring>(s: Seq<T>, x: T) -> T { vxl::sum(|i: int| mm(cf(s, i), vxl::pow(x, i)), s.len() as int) }
  // the terms of a Horner scheme that starts at coefficient m
  pub open spec fn horner<T: Ring>(s: Seq<T>, x: T, m: int) -> T { vxl::sum(|i: int| mm(cf(s, m + i), vxl::pow(x, i)), s.len() - m) }
  pub proof fn horner_step<T: Ring>(s: Seq<T>, x: T, m: int) requires ring::<T>(), 0 <= m < s.len()
      ensures horner(s, x, m) == aa(mm(horner(s, x, m + 1), x), s[m])
  {
      let n = s.len() - m;
      let f = |i: int| mm(cf(s, m + i), vxl::pow(x, i));
      let g = |i: int| mm(cf(s, m + 1 + i), vxl::pow(x, i));
      let f1 = |i: int| f(i + 1);
      let gx = |i: int| mm(g(i), x);
      vxl::sum_front(f, n);
      vxl::sum_mul_r(g, x, n - 1);
      assert forall|i: int| 0 <= i < n - 1 implies #[trigger] f1(i) == gx(i) by {
          vxl::mul_assoc(cf(s, m + 1 + i), vxl::pow(x, i), x);
          assert(vxl::pow(x, i + 1) == mm(vxl::pow(x, i), x));
          assert(m + (i + 1) == m + 1 + i);
      }
      vxl::sum_ext(f1, gx, n - 1);
      assert(vxl::pow(x, 0) == oo::<T>());
      vxl::mul_one(s[m]);
      vxl::add_comm(f(0), mm(horner(s, x, m + 1), x));
  }
  pub proof fn horner_all<T: Ring>(s: Seq<T>, x: T) ensures horner(s, x, 0) == pev(s, x), horner(s, x, s.len() as int) == zz::<T>()
  {
      vxl::sum_ext(|i: int| mm(cf(s, 0 + i), vxl::pow(x, i)), |i: int| mm(cf(s, i), vxl::pow(x, i)), s.len() as int);
  }
  pub proof fn plaws<T: Ring>() requires ring::<T>()
      ensures
          forall|a: T, b: T| #[trigger] aa(a, b) == aa(b, a),
          forall|a: T, b: T| #[trigger] sa(a, b) == aa(a, ng(b)),
          forall|a: T| #[trigger] aa(a, zz()) == a,
          ng(zz::<T>()) == zz::<T>(),
  {
      assert forall|a: T, b: T| #[trigger] aa(a, b) == aa(b, a) by { vxl::add_comm(a, b); }
      assert forall|a: T, b: T| #[trigger] sa(a, b) == aa(a, ng(b)) by { vxl::sub_def(a, b); }
      assert forall|a: T| #[trigger] aa(a, zz()) == a by { vxl::add_zero(a); }
      vxl::neg_zero::<T>();
  }
  pub proof fn all_add<T: Ring>(r: Polynomial<T>, p: Polynomial<T>, q: Polynomial<T>)
      requires ring::<T>(), r.a@.len() >= p.a@.len(), r.a@.len() >= q.a@.len(),
          forall|k: int| 0 <= k < r.a@.len() ==> #[trigger] r.a@[k] == aa(cf(p.a@, k), cf(q.a@, k)),
      ensures is_add(r, p, q)
  { vxl::add_zero(zz::<T>()); }
  pub proof fn all_sub<T: Ring>(r: Polynomial<T>, p: Polynomial<T>, q: Polynomial<T>)
      requires ring::<T>(), r.a@.len() >= p.a@.len(), r.a@.len() >= q.a@.len(),
          forall|k: int| 0 <= k < r.a@.len() ==> #[trigger] r.a@[k] == sa(cf(p.a@, k), cf(q.a@, k)),
      ensures is_sub(r, p, q)
  { vxl::sub_zero(zz::<T>()); }
  // the part of coefficient k of the product that comes from the first m coefficients of s
  pub open spec fn psum<T: Ring>(s: Seq<T>, t: Seq<T>, k: int, m: int) -> T { vxl::sum(|i: int| mm(cf(s, i), cf(t, k - i)), m) }
  pub proof fn conv_outside<T: Ring>(s: Seq<T>, t: Seq<T>) requires ring::<T>()
      ensures forall|k: int| k < 0 || k >= s.len() + t.len() - 1 || s.len() == 0 || t.len() == 0 ==> #[trigger] conv(s, t, k) == zz::<T>()
  {
      assert forall|k: int| k < 0 || k >= s.len() + t.len() - 1 || s.len() == 0 || t.len() == 0 implies #[trigger] conv(s, t, k) == zz::<T>() by {
          let f = |i: int| mm(cf(s, i), cf(t, k - i));
          assert forall|i: int| 0 <= i < k + 1 implies #[trigger] f(i) == zz::<T>() by { vxl::mul_zero(cf(s, i)); vxl::mul_zero(cf(t, k - i)); }
          vxl::sum_zero(f, k + 1);
      }
  }
  pub proof fn psum_rest<T: Ring>(s: Seq<T>, t: Seq<T>, i: int) requires ring::<T>(), 0 <= i
      ensures forall|k: int| !(i <= k < i + t.len()) || i >= s.len() ==> #[trigger] psum(s, t, k, i) == psum(s, t, k, i + 1)
  {
      assert forall|k: int| !(i <= k < i + t.len()) || i >= s.len() implies #[trigger] psum(s, t, k, i) == psum(s, t, k, i + 1) by {
          vxl::mul_zero(cf(s, i)); vxl::mul_zero(cf(t, k - i)); vxl::add_zero(psum(s, t, k, i));
      }
  }
  // the same, by the coefficients of t
  pub open spec fn psumr<T: Ring>(s: Seq<T>, t: Seq<T>, k: int, m: int) -> T { vxl::sum(|j: int| mm(cf(s, k - j), cf(t, j)), m) }
  pub proof fn psumr_rest<T: Ring>(s: Seq<T>, t: Seq<T>, j: int) requires ring::<T>(), 0 <= j
      ensures forall|k: int| !(j <= k < j + s.len()) ==> #[trigger] psumr(s, t, k, j) == psumr(s, t, k, j + 1)
  {
      assert forall|k: int| !(j <= k < j + s.len()) implies #[trigger] psumr(s, t, k, j) == psumr(s, t, k, j + 1) by {
          vxl::mul_zero(cf(t, j)); vxl::add_zero(psumr(s, t, k, j));
      }
  }
  pub proof fn psumr_conv<T: Ring>(s: Seq<T>, t: Seq<T>) requires ring::<T>()
      ensures forall|k: int| 0 <= k ==> #[trigger] psumr(s, t, k, t.len() as int) == conv(s, t, k)
  {
      assert forall|k: int| 0 <= k implies #[trigger] psumr(s, t, k, t.len() as int) == conv(s, t, k) by {
          let f = |j: int| mm(cf(s, k - j), cf(t, j));
          let g = |i: int| mm(cf(s, i), cf(t, k - i));
          let n = t.len() as int;
          if k + 1 <= n {
              assert forall|j: int| k + 1 <= j < n implies #[trigger] f(j) == zz::<T>() by { vxl::mul_zero(cf(t, j)); }
              vxl::sum_tail(f, k + 1, n);
          } else {
              assert forall|j: int| n <= j < k + 1 implies #[trigger] f(j) == zz::<T>() by { vxl::mul_zero(cf(s, k - j)); }
              vxl::sum_tail(f, n, k + 1);
          }
          vxl::sum_rev(f, k + 1);
          vxl::sum_ext(|i: int| f(k + 1 - 1 - i), g, k + 1);
      }
  }
  pub proof fn psum_conv<T: Ring>(s: Seq<T>, t: Seq<T>) requires ring::<T>()
      ensures forall|k: int| 0 <= k ==> #[trigger] psum(s, t, k, s.len() as int) == conv(s, t, k)
  {
      assert forall|k: int| 0 <= k implies #[trigger] psum(s, t, k, s.len() as int) == conv(s, t, k) by {
          let f = |i: int| mm(cf(s, i), cf(t, k - i));
          let n = s.len() as int;
          if k + 1 <= n {
              assert forall|i: int| k + 1 <= i < n implies #[trigger] f(i) == zz::<T>() by { vxl::mul_zero(cf(s, i)); }
              vxl::sum_tail(f, k + 1, n);
          } else {
              assert forall|i: int| n <= i < k + 1 implies #[trigger] f(i) == zz::<T>() by { vxl::mul_zero(cf(t, k - i)); }
              vxl::sum_tail(f, n, k + 1);
          }
      }
  }
  // ---- the ring laws, coefficient by coefficient --------------------------------------------
  pub proof fn p_add_comm<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_add(r1, p, q), is_add(r2, q, p) ensures peq(r1, r2)
  { plaws::<T>(); }
  pub proof fn p_add_assoc<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, s: Polynomial<T>, pq: Polynomial<T>, qs: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_add(pq, p, q), is_add(r1, pq, s), is_add(qs, q, s), is_add(r2, p, qs) ensures peq(r1, r2)
  {
      assert forall|k: int| #[trigger] pc(r1, k) == pc(r2, k) by { vxl::add_assoc(pc(p, k), pc(q, k), pc(s, k)); assert(pc(r1, k) == aa(pc(pq, k), pc(s, k))); assert(pc(r2, k) == aa(pc(p, k), pc(qs, k))); }
  }
  // the zero polynomial is neutral, p - p and p + (-p) are zero
  pub proof fn p_add_zero<T: Ring>(p: Polynomial<T>, z: Polynomial<T>, r: Polynomial<T>)
      requires ring::<T>(), z.a@.len() == 0, is_add(r, p, z) ensures peq(r, p)
  { assert forall|k: int| #[trigger] pc(r, k) == pc(p, k) by { vxl::add_zero(pc(p, k)); assert(pc(z, k) == zz::<T>()); } }
  pub proof fn p_sub_self<T: Ring>(p: Polynomial<T>, z: Polynomial<T>, n: Polynomial<T>, r: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), z.a@.len() == 0, is_sub(r, p, p), is_neg(n, p), is_add(r2, p, n) ensures peq(r, z), peq(r2, z)
  {
      assert forall|k: int| #[trigger] pc(r, k) == pc(z, k) by { vxl::sub_self(pc(p, k)); }
      assert forall|k: int| #[trigger] pc(r2, k) == pc(z, k) by { vxl::add_neg(pc(p, k)); assert(pc(n, k) == ng(pc(p, k))); }
  }
  pub proof fn conv_assoc<T: Ring>(p: Seq<T>, q: Seq<T>, s: Seq<T>, pq: Seq<T>, qs: Seq<T>, k: int)
      requires ring::<T>(), k >= 0, forall|j: int| #[trigger] cf(pq, j) == conv(p, q, j), forall|j: int| #[trigger] cf(qs, j) == conv(q, s, j),
      ensures conv(pq, s, k) == conv(p, qs, k)
  {
      let n = k + 1;
      let ff = |i: int, j: int| mm(mm(cf(p, j), cf(q, i - j)), cf(s, k - i));
      let lhs = |i: int| mm(cf(pq, i), cf(s, k - i));
      let row = |i: int| vxl::sum(|j: int| ff(i, j), n);
      assert forall|i: int| 0 <= i < n implies #[trigger] lhs(i) == row(i) by {
          let t = |j: int| mm(cf(p, j), cf(q, i - j));
          assert forall|j: int| i + 1 <= j < n implies #[trigger] t(j) == zz::<T>() by { vxl::mul_zero(cf(p, j)); }
          vxl::sum_tail(t, i + 1, n);
          vxl::sum_mul_r(t, cf(s, k - i), n);
          vxl::sum_ext(|j: int| mm(t(j), cf(s, k - i)), |j: int| ff(i, j), n);
          assert(cf(pq, i) == conv(p, q, i));
      }
      vxl::sum_ext(lhs, row, n);
      vxl::sum_swap(ff, n, n);
      let rhs = |j: int| mm(cf(p, j), cf(qs, k - j));
      let col = |j: int| vxl::sum(|i: int| ff(i, j), n);
      assert forall|j: int| 0 <= j < n implies #[trigger] col(j) == rhs(j) by {
          let u = |i: int| mm(cf(q, i - j), cf(s, k - i));
          assert forall|i: int| 0 <= i < j implies #[trigger] u(i) == zz::<T>() by { vxl::mul_zero(cf(s, k - i)); }
          vxl::sum_shift(u, j, n);
          let c = |l: int| mm(cf(q, l), cf(s, k - j - l));
          assert forall|l: int| 0 <= l < n - j implies #[trigger] u(l + j) == c(l) by { assert(l + j - j == l); assert(k - (l + j) == k - j - l); }
          vxl::sum_ext(|l: int| u(l + j), c, n - j);
          assert(vxl::sum(u, n) == conv(q, s, k - j));
          vxl::sum_mul_l(cf(p, j), u, n);
          assert forall|i: int| 0 <= i < n implies #[trigger] mm(cf(p, j), u(i)) == ff(i, j) by { vxl::mul_assoc(cf(p, j), cf(q, i - j), cf(s, k - i)); }
          vxl::sum_ext(|i: int| mm(cf(p, j), u(i)), |i: int| ff(i, j), n);
          assert(cf(qs, k - j) == conv(q, s, k - j));
      }
      vxl::sum_ext(col, rhs, n);
  }
  pub proof fn p_mul_assoc<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, s: Polynomial<T>, pq: Polynomial<T>, qs: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_mul(pq, p, q), is_mul(r1, pq, s), is_mul(qs, q, s), is_mul(r2, p, qs) ensures peq(r1, r2)
  {
      assert forall|j: int| #[trigger] cf(pq.a@, j) == conv(p.a@, q.a@, j) by { assert(pc(pq, j) == conv(p.a@, q.a@, j)); }
      assert forall|j: int| #[trigger] cf(qs.a@, j) == conv(q.a@, s.a@, j) by { assert(pc(qs, j) == conv(q.a@, s.a@, j)); }
      assert forall|k: int| #[trigger] pc(r1, k) == pc(r2, k) by { if k >= 0 { conv_assoc(p.a@, q.a@, s.a@, pq.a@, qs.a@, k); } }
  }
  pub proof fn p_dist_l<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, s: Polynomial<T>, qs: Polynomial<T>, pq: Polynomial<T>, ps: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_add(qs, q, s), is_mul(r1, p, qs), is_mul(pq, p, q), is_mul(ps, p, s), is_add(r2, pq, ps) ensures peq(r1, r2)
  {
      assert forall|k: int| #[trigger] pc(r1, k) == pc(r2, k) by {
          let f = |i: int| mm(cf(p.a@, i), cf(q.a@, k - i));
          let g = |i: int| mm(cf(p.a@, i), cf(s.a@, k - i));
          let h = |i: int| mm(cf(p.a@, i), cf(qs.a@, k - i));
          assert forall|i: int| 0 <= i < k + 1 implies #[trigger] h(i) == aa(f(i), g(i)) by {
              assert(pc(qs, k - i) == aa(pc(q, k - i), pc(s, k - i)));
              vxl::dist_l(cf(p.a@, i), cf(q.a@, k - i), cf(s.a@, k - i));
          }
          vxl::sum_ext(h, |i: int| aa(f(i), g(i)), k + 1);
          vxl::sum_add(f, g, k + 1);
          assert(pc(r2, k) == aa(pc(pq, k), pc(ps, k)));
      }
  }
  pub proof fn p_dist_r<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, s: Polynomial<T>, qs: Polynomial<T>, qp: Polynomial<T>, sp: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_add(qs, q, s), is_mul(r1, qs, p), is_mul(qp, q, p), is_mul(sp, s, p), is_add(r2, qp, sp) ensures peq(r1, r2)
  {
      assert forall|k: int| #[trigger] pc(r1, k) == pc(r2, k) by {
          let f = |i: int| mm(cf(q.a@, i), cf(p.a@, k - i));
          let g = |i: int| mm(cf(s.a@, i), cf(p.a@, k - i));
          let h = |i: int| mm(cf(qs.a@, i), cf(p.a@, k - i));
          assert forall|i: int| 0 <= i < k + 1 implies #[trigger] h(i) == aa(f(i), g(i)) by {
              assert(pc(qs, i) == aa(pc(q, i), pc(s, i)));
              vxl::dist_r(cf(q.a@, i), cf(s.a@, i), cf(p.a@, k - i));
          }
          vxl::sum_ext(h, |i: int| aa(f(i), g(i)), k + 1);
          vxl::sum_add(f, g, k + 1);
          assert(pc(r2, k) == aa(pc(qp, k), pc(sp, k)));
      }
  }
  pub proof fn p_one<T: Ring>(p: Polynomial<T>, one: Polynomial<T>, r1: Polynomial<T>, r2: Polynomial<T>)
      requires ring::<T>(), is_const(one, oo()), is_mul(r1, p, one), is_mul(r2, one, p) ensures peq(r1, p), peq(r2, p)
  {
      assert forall|k: int| #[trigger] pc(r1, k) == pc(p, k) by {
          if k >= 0 {
              let f = |i: int| mm(cf(p.a@, i), cf(one.a@, k - i));
              assert forall|i: int| 0 <= i < k + 1 && i != k implies #[trigger] f(i) == zz::<T>() by { assert(pc(one, k - i) == zz::<T>()); vxl::mul_zero(cf(p.a@, i)); }
              vxl::sum_one(f, k, k + 1);
              assert(pc(one, k - k) == oo::<T>());
              vxl::mul_one(pc(p, k));
          }
      }
      assert forall|k: int| #[trigger] pc(r2, k) == pc(p, k) by {
          if k >= 0 {
              let f = |i: int| mm(cf(one.a@, i), cf(p.a@, k - i));
              assert forall|i: int| 0 <= i < k + 1 && i != 0 implies #[trigger] f(i) == zz::<T>() by { assert(pc(one, i) == zz::<T>()); vxl::mul_zero(cf(p.a@, k - i)); }
              vxl::sum_one(f, 0, k + 1);
              assert(pc(one, 0) == oo::<T>());
              vxl::mul_one(pc(p, k));
          }
      }
  }
  // ---- evaluation is a homomorphism ---------------------------------------------------------
  pub open spec fn pterm<T: Ring>(s: Seq<T>, x: T) -> spec_fn(int) -> T { |i: int| mm(cf(s, i), vxl::pow(x, i)) }
  pub proof fn pev_ext<T: Ring>(s: Seq<T>, x: T, n: int) requires ring::<T>(), n >= s.len() ensures pev(s, x) == vxl::sum(pterm(s, x), n)
  {
      let f = pterm(s, x);
      assert forall|i: int| s.len() <= i < n implies #[trigger] f(i) == zz::<T>() by { vxl::mul_zero(vxl::pow(x, i)); }
      vxl::sum_tail(f, s.len() as int, n);
      vxl::sum_ext(f, |i: int| mm(cf(s, i), vxl::pow(x, i)), s.len() as int);
  }
  pub proof fn pev_eq<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, x: T) requires ring::<T>(), peq(p, q) ensures pev(p.a@, x) == pev(q.a@, x)
  {
      let n = p.a@.len() + q.a@.len();
      pev_ext(p.a@, x, n as int); pev_ext(q.a@, x, n as int);
      assert forall|i: int| 0 <= i < n implies #[trigger] pterm(p.a@, x)(i) == pterm(q.a@, x)(i) by { assert(pc(p, i) == pc(q, i)); }
      vxl::sum_ext(pterm(p.a@, x), pterm(q.a@, x), n as int);
  }
  pub proof fn pev_add<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, r: Polynomial<T>, x: T) requires ring::<T>(), is_add(r, p, q)
      ensures pev(r.a@, x) == aa(pev(p.a@, x), pev(q.a@, x))
  {
      let n = (p.a@.len() + q.a@.len() + r.a@.len()) as int;
      pev_ext(p.a@, x, n); pev_ext(q.a@, x, n); pev_ext(r.a@, x, n);
      let (f, g, h) = (pterm(p.a@, x), pterm(q.a@, x), pterm(r.a@, x));
      assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == aa(f(i), g(i)) by { assert(pc(r, i) == aa(pc(p, i), pc(q, i))); vxl::dist_r(pc(p, i), pc(q, i), vxl::pow(x, i)); }
      vxl::sum_ext(h, |i: int| aa(f(i), g(i)), n);
      vxl::sum_add(f, g, n);
  }
  pub proof fn pev_neg<T: Ring>(p: Polynomial<T>, r: Polynomial<T>, x: T) requires ring::<T>(), is_neg(r, p)
      ensures pev(r.a@, x) == ng(pev(p.a@, x))
  {
      let n = (p.a@.len() + r.a@.len()) as int;
      pev_ext(p.a@, x, n); pev_ext(r.a@, x, n);
      let (f, h) = (pterm(p.a@, x), pterm(r.a@, x));
      assert forall|i: int| 0 <= i < n implies #[trigger] h(i) == ng(f(i)) by { assert(pc(r, i) == ng(pc(p, i))); vxl::mul_neg(pc(p, i), vxl::pow(x, i)); }
      vxl::sum_ext(h, |i: int| ng(f(i)), n);
      vxl::sum_neg(f, n);
  }
  pub proof fn pev_mul<T: Ring>(p: Polynomial<T>, q: Polynomial<T>, r: Polynomial<T>, x: T) requires ring::<T>(), comm_law::<T>(), is_mul(r, p, q)
      ensures pev(r.a@, x) == mm(pev(p.a@, x), pev(q.a@, x))
  {
      let (s, t) = (p.a@, q.a@);
      let n = (s.len() + t.len() + r.a@.len()) as int;
      pev_ext(s, x, n); pev_ext(t, x, n); pev_ext(r.a@, x, n);
      let ff = |k: int, i: int| mm(mm(cf(s, i), cf(t, k - i)), vxl::pow(x, k));
      let row = |k: int| vxl::sum(|i: int| ff(k, i), n);
      let h = pterm(r.a@, x);
      assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == row(k) by {
          let u = |i: int| mm(cf(s, i), cf(t, k - i));
          assert forall|i: int| k + 1 <= i < n implies #[trigger] u(i) == zz::<T>() by { vxl::mul_zero(cf(s, i)); }
          vxl::sum_tail(u, k + 1, n);
          vxl::sum_mul_r(u, vxl::pow(x, k), n);
          vxl::sum_ext(|i: int| mm(u(i), vxl::pow(x, k)), |i: int| ff(k, i), n);
          assert(pc(r, k) == conv(s, t, k));
      }
      vxl::sum_ext(h, row, n);
      vxl::sum_swap(ff, n, n);
      let col = |i: int| vxl::sum(|k: int| ff(k, i), n);
      let f = pterm(s, x);
      let g = pterm(t, x);
      let pq = pev(t, x);
      assert forall|i: int| 0 <= i < n implies #[trigger] col(i) == mm(f(i), pq) by {
          let v = |k: int| ff(k, i);
          if i >= s.len() {
              assert forall|k: int| 0 <= k < n implies #[trigger] v(k) == zz::<T>() by { vxl::mul_zero(cf(t, k - i)); vxl::mul_zero(vxl::pow(x, k)); }
              vxl::sum_zero(v, n);
              vxl::mul_zero(vxl::pow(x, i)); vxl::mul_zero(pq);
          } else {
              assert forall|k: int| 0 <= k < i implies #[trigger] v(k) == zz::<T>() by { vxl::mul_zero(cf(s, i)); vxl::mul_zero(vxl::pow(x, k)); }
              vxl::sum_shift(v, i, n);
              assert forall|l: int| 0 <= l < n - i implies #[trigger] v(l + i) == mm(f(i), g(l)) by {
                  let (a, b, xi, xl) = (cf(s, i), cf(t, l), vxl::pow(x, i), vxl::pow(x, l));
                  assert(l + i - i == l);
                  vxl::pow_add(x, i, l);
                  assert(vxl::pow(x, l + i) == mm(xi, xl));
                  vxl::mul_assoc(mm(a, b), xi, xl);
                  vxl::mul_assoc(a, b, xi);
                  vxl::mul_comm(b, xi);
                  vxl::mul_assoc(a, xi, b);
                  vxl::mul_assoc(mm(a, xi), b, xl);
              }
              vxl::sum_ext(|l: int| v(l + i), |l: int| mm(f(i), g(l)), n - i);
              vxl::sum_mul_l(f(i), g, n - i);
              pev_ext(t, x, n - i);
          }
      }
      vxl::sum_ext(col, |i: int| mm(f(i), pq), n);
      vxl::sum_mul_r(f, pq, n);
  }
