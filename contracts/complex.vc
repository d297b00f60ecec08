#impl<T: Clone> Clone for Complex<T>
#fn clone
spec:
  ensures cloned(self.re, r.re), cloned(self.im, r.im),

#impl<T: PartialEq> PartialEq for Complex<T>
ok: T::obeys_eq_spec()
val: self.re.eq_spec(&rhs.re) && self.im.eq_spec(&rhs.im)

#impl<T> Complex<T>
#fn new
spec:
  ensures r.re == re, r.im == im,

#impl<T> Conj for Complex<T>
items:
  open spec fn conj_ok() -> bool { ng_ok::<T>() }
  open spec fn conj_req() -> bool { ng_ok::<T>() }
  open spec fn conj_spec(self) -> Self { Complex { re: self.re, im: ng(self.im) } }

#impl<T> Complex<T> where for<'a> T: AddAssign<&'a T> + MulRefs
#fn sqr_norm
spec:
  requires aa_ok::<T>(), mm_ok::<T>(),
  ensures r == c_sqr(*self),

#impl<T> Abs for Complex<T>
items:
  open spec fn abs_ok() -> bool { aa_ok::<T>() && mm_ok::<T>() && T::sqrt_ok() }
  open spec fn abs_rel(self, r: T) -> bool { c_sqr(self).sqrt_rel(r) }

#impl<'a, T> Abs for &'a Complex<T>
items:
  open spec fn abs_ok() -> bool { aa_ok::<T>() && mm_ok::<T>() && T::sqrt_ok() }
  open spec fn abs_rel(self, r: T) -> bool { c_sqr(*self).sqrt_rel(r) }

#impl<T> Complex<T> where T: Atan2
#fn arg
spec:
  requires T::atan2_ok(),
  ensures r == self.im.atan2_spec(self.re),

#impl<T: Zero> Zero for Complex<T>
items:
  open spec fn zero_ok() -> bool { zz_ok::<T>() }
  open spec fn zero_spec() -> Self { Complex { re: zz(), im: zz() } }

#impl<T: Zero + One> One for Complex<T>
items:
  open spec fn one_ok() -> bool { zz_ok::<T>() && oo_ok::<T>() }
  open spec fn one_spec() -> Self { Complex { re: oo(), im: zz() } }

#impl<U, T: Add<U>> Add<Complex<U>> for Complex<T>
ok: T::obeys_add_spec()
req: self.re.add_req(rhs.re) && self.im.add_req(rhs.im)
val: Complex { re: self.re.add_spec(rhs.re), im: self.im.add_spec(rhs.im) }

#impl<T: AddAssign<U>, U> AddAssign<Complex<U>> for Complex<T>
ok: T::obeys_add_assign_spec()
req: self.re.add_assign_req(rhs.re) && self.im.add_assign_req(rhs.im)
val: Complex { re: *self.re.add_assign_spec(rhs.re), im: *self.im.add_assign_spec(rhs.im) }

#impl<T> AddAssign<&Complex<T>> for Complex<T>
ok: aa_ok::<T>()
req: aa_ok::<T>()
val: Complex { re: aa(self.re, rhs.re), im: aa(self.im, rhs.im) }

#impl<U, T: Sub<U>> Sub<Complex<U>> for Complex<T>
ok: T::obeys_sub_spec()
req: self.re.sub_req(rhs.re) && self.im.sub_req(rhs.im)
val: Complex { re: self.re.sub_spec(rhs.re), im: self.im.sub_spec(rhs.im) }

#impl<T: SubAssign<U>, U> SubAssign<Complex<U>> for Complex<T>
ok: T::obeys_sub_assign_spec()
req: self.re.sub_assign_req(rhs.re) && self.im.sub_assign_req(rhs.im)
val: Complex { re: *self.re.sub_assign_spec(rhs.re), im: *self.im.sub_assign_spec(rhs.im) }

#impl<T> SubAssign<&Self> for Complex<T>
ok: sa_ok::<T>()
req: sa_ok::<T>()
val: Complex { re: sa(self.re, rhs.re), im: sa(self.im, rhs.im) }

#impl<T> Mul for Complex<T>
req: ring_ops::<T>()
val: c_mul(self, rhs)
#fn mul
attr: #[verifier::exec_allows_no_decreases_clause]

#impl<T> Mul<T> for Complex<T>
req: mm_ok::<T>()
val: Complex { re: mm(self.re, rhs), im: mm(self.im, rhs) }

#impl<T: Ring> MulAssign for Complex<T>
req: ring_ops::<T>()
val: c_mul(*self, rhs)

#impl<'a, T> Mul<&'a Complex<T>> for &'a Complex<T>
req: ring_ops::<T>()
val: c_mul(*self, *rhs)

#impl<T> Div<Self> for &Complex<T>
req: ring_ops::<T>() && dd_ok::<T>()
val: c_div(*self, *rhs)

#impl<T> Div for Complex<T>
req: ring_ops::<T>() && dd_ok::<T>()
val: c_div(self, rhs)
#fn div
attr: #[verifier::exec_allows_no_decreases_clause]

#impl<'a, 'b, T> Div<&'a T> for &'b Complex<T>
ok: <&T as DivSpec<&T>>::obeys_div_spec()
req: <&T as DivSpec<&T>>::div_req(&self.re, rhs) && <&T as DivSpec<&T>>::div_req(&self.im, rhs)
val: Complex { re: <&T as DivSpec<&T>>::div_spec(&self.re, rhs), im: <&T as DivSpec<&T>>::div_spec(&self.im, rhs) }

#impl<'a, T> Div<&'a T> for Complex<T>
ok: <T as DivSpec<&T>>::obeys_div_spec()
req: <T as DivSpec<&T>>::div_req(self.re, rhs) && <T as DivSpec<&T>>::div_req(self.im, rhs)
val: Complex { re: <T as DivSpec<&T>>::div_spec(self.re, rhs), im: <T as DivSpec<&T>>::div_spec(self.im, rhs) }

#impl<T> Div<T> for Complex<T>
ok: dv_ok::<T>()
req: dv_ok::<T>()
val: Complex { re: <T as DivSpec<T>>::div_spec(self.re, rhs), im: <T as DivSpec<T>>::div_spec(self.im, rhs) }

#impl<T: Neg<Output = T>> Neg for Complex<T>
ok: T::obeys_neg_spec()
req: self.re.neg_req() && self.im.neg_req()
val: Complex { re: ng(self.re), im: ng(self.im) }

#impl<T> Exp for Complex<T>
items:
  open spec fn exp_ok() -> bool { T::exp_ok() && T::sin_ok() && T::cos_ok() && mm_ok::<T>() && cl_ok::<T>() }
  open spec fn exp_spec(self) -> Self { Complex { re: mm(self.re.exp_spec(), self.im.cos_spec()), im: mm(self.re.exp_spec(), self.im.sin_spec()) } }

#impl<T> Sin for Complex<T>
items:
  open spec fn sin_ok() -> bool { T::sin_ok() && T::cos_ok() && T::sinh_ok() && T::cosh_ok() && mm_ok::<T>() && cl_ok::<T>() }
  open spec fn sin_spec(self) -> Self { Complex { re: mm(self.re.sin_spec(), self.im.cosh_spec()), im: mm(self.re.cos_spec(), self.im.sinh_spec()) } }

#impl<T> Cos for Complex<T>
items:
  open spec fn cos_ok() -> bool { T::sin_ok() && T::cos_ok() && T::sinh_ok() && T::cosh_ok() && mm_ok::<T>() && ng_ok::<T>() && cl_ok::<T>() }
  open spec fn cos_spec(self) -> Self { Complex { re: mm(self.re.cos_spec(), self.im.cosh_spec()), im: ng(mm(self.re.sin_spec(), self.im.sinh_spec())) } }

#impl<T> Sinh for Complex<T>
items:
  open spec fn sinh_ok() -> bool { T::sin_ok() && T::cos_ok() && T::sinh_ok() && T::cosh_ok() && mm_ok::<T>() && cl_ok::<T>() }
  open spec fn sinh_spec(self) -> Self { Complex { re: mm(self.re.sinh_spec(), self.im.cos_spec()), im: mm(self.re.cosh_spec(), self.im.sin_spec()) } }

#impl<T> Cosh for Complex<T>
items:
  open spec fn cosh_ok() -> bool { T::sin_ok() && T::cos_ok() && T::sinh_ok() && T::cosh_ok() && mm_ok::<T>() && cl_ok::<T>() }
  open spec fn cosh_spec(self) -> Self { Complex { re: mm(self.re.cosh_spec(), self.im.cos_spec()), im: mm(self.re.sinh_spec(), self.im.sin_spec()) } }

#impl<T> Tan for Complex<T>
items:
  open spec fn tan_ok() -> bool { <Complex<T> as Sin>::sin_ok() && <Complex<T> as Cos>::cos_ok() && cl_ok::<Complex<T>>()
      && <Complex<T> as DivSpec<Complex<T>>>::obeys_div_spec() && (forall|a: Complex<T>, b: Complex<T>| #[trigger] <Complex<T> as DivSpec<Complex<T>>>::div_req(a, b)) }
  open spec fn tan_spec(self) -> Self { <Complex<T> as DivSpec<Complex<T>>>::div_spec(self.sin_spec(), self.cos_spec()) }

#impl<T> Ln for Complex<T>
items:
  open spec fn ln_ok() -> bool { aa_ok::<T>() && mm_ok::<T>() && oo_ok::<T>() && T::atan2_ok() && T::ln_ok() && cl_ok::<T>() && dvv_ok::<T>() }
  open spec fn ln_spec(self) -> Self { Complex {
      re: <T as DivSpec<T>>::div_spec(c_sqr(self).ln_spec(), aa(oo(), oo())),
      im: self.im.atan2_spec(self.re) } }

#impl<T> Sqrt for Complex<T>
items:
  open spec fn sqrt_ok() -> bool { real_ops::<T>() }
  open spec fn sqrt_rel(self, r: Self) -> bool { is_root(r, self) }
#fn sqrt
pre:
  let ghost (x, y) = (rv(self.re), rv(self.im));
  proof { sqrt_facts(*self); }
end:
  proof {
      assert forall|m: T| #[trigger] T::sqrt_rel(c_sqr(*self), m) && goal(x, y, rv(m), rv(r_.re), rv(r_.im)) implies is_root(r_, *self) by
      { lem_root(x, y, rv(m), rv(r_.re), rv(r_.im)); }
  }

#mod algebra::complex
raw:
  pub open spec fn c_sqr<'a, T: AddAssign<&'a T> + MulRefs + 'a>(z: Complex<T>) -> T { aa(mm(z.re, z.re), mm(z.im, z.im)) }
  pub open spec fn c_mul<T: Ring>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
      Complex { re: sa(mm(a.re, b.re), mm(a.im, b.im)), im: aa(mm(a.re, b.im), mm(a.im, b.re)) }
  }
  pub open spec fn c_div<T: Field>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
      let n = dd(oo(), c_sqr(b));
      Complex { re: mm(aa(mm(a.re, b.re), mm(a.im, b.im)), n), im: mm(sa(mm(a.im, b.re), mm(a.re, b.im)), n) }
  }
  pub open spec fn dvv_ok<T: Div<T, Output = T>>() -> bool {
      <T as DivSpec<T>>::obeys_div_spec() && (forall|a: T, b: T| #[trigger] <T as DivSpec<T>>::div_req(a, b))
  }
  pub open spec fn dv_ok<'a, T: Div<T, Output = T> + Div<&'a T, Output = T> + 'a>() -> bool {
      &&& dvv_ok::<T>()
      &&& <T as DivSpec<&T>>::obeys_div_spec()
      &&& forall|a: T, b: T| #[trigger] <T as DivSpec<&T>>::div_req(a, &b)
      &&& forall|a: T, b: T| #[trigger] <T as DivSpec<&T>>::div_spec(a, &b) == <T as DivSpec<T>>::div_spec(a, b)
  }
  pub proof fn c_ops<T: Ring>() requires ring::<T>() ensures ring_ops::<Complex<T>>(), eq_ok::<Complex<T>>()
  {
      assert forall|a: Complex<T>, b: Complex<T>| #[trigger] call_ensures(Complex::<T>::clone, (&a,), b) implies a == b by {
          assert(call_ensures(T::clone, (&a.re,), b.re) || a.re == b.re);
          assert(call_ensures(T::clone, (&a.im,), b.im) || a.im == b.im);
      }
      assert forall|a: Complex<T>, b: Complex<T>| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> (a == b) by {
          assert(a.re.eq_spec(&b.re) <==> a.re == b.re);
          assert(a.im.eq_spec(&b.im) <==> a.im == b.im);
      }
  }
  pub proof fn c_add_laws<T: Ring>() requires ring::<T>() ensures add_laws::<Complex<T>>()
  {
      c_ops::<T>();
      assert forall|a: Complex<T>, b: Complex<T>| #[trigger] same(aa(a, b), aa(b, a)) by { vxl::add_comm(a.re, b.re); vxl::add_comm(a.im, b.im); }
      assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] same(aa(aa(a, b), c), aa(a, aa(b, c))) by { vxl::add_assoc(a.re, b.re, c.re); vxl::add_assoc(a.im, b.im, c.im); }
      assert forall|a: Complex<T>| #[trigger] same(aa(a, zz()), a) by { vxl::add_zero(a.re); vxl::add_zero(a.im); }
      assert forall|a: Complex<T>| #[trigger] same(aa(a, ng(a)), zz()) by { vxl::add_neg(a.re); vxl::add_neg(a.im); }
      assert forall|a: Complex<T>, b: Complex<T>| #[trigger] same(sa(a, b), aa(a, ng(b))) by { vxl::sub_def(a.re, b.re); vxl::sub_def(a.im, b.im); }
  }
  pub proof fn c_mul_assoc<T: Ring>(a: Complex<T>, b: Complex<T>, c: Complex<T>) requires ring::<T>()
      ensures c_mul(c_mul(a, b), c) == c_mul(a, c_mul(b, c))
  {
      vxl::get_ac::<T>(); vxl::get_expand::<T>();
  }
  pub proof fn c_dist<T: Ring>(a: Complex<T>, b: Complex<T>, c: Complex<T>) requires ring::<T>()
      ensures mm(a, aa(b, c)) == aa(mm(a, b), mm(a, c)), mm(aa(a, b), c) == aa(mm(a, c), mm(b, c))
  {
      vxl::dist_l(a.re, b.re, c.re); vxl::dist_l(a.im, b.im, c.im); vxl::dist_l(a.re, b.im, c.im); vxl::dist_l(a.im, b.re, c.re);
      vxl::sub_mid(mm(a.re, b.re), mm(a.re, c.re), mm(a.im, b.im), mm(a.im, c.im));
      vxl::add_mid(mm(a.re, b.im), mm(a.re, c.im), mm(a.im, b.re), mm(a.im, c.re));
      vxl::dist_r(a.re, b.re, c.re); vxl::dist_r(a.im, b.im, c.im); vxl::dist_r(a.re, b.re, c.im); vxl::dist_r(a.im, b.im, c.re);
      vxl::sub_mid(mm(a.re, c.re), mm(b.re, c.re), mm(a.im, c.im), mm(b.im, c.im));
      vxl::add_mid(mm(a.re, c.im), mm(b.re, c.im), mm(a.im, c.re), mm(b.im, c.re));
  }
  pub proof fn c_one<T: Ring>(a: Complex<T>) requires ring::<T>() ensures mm(a, oo()) == a, mm(oo(), a) == a
  {
      vxl::mul_one(a.re); vxl::mul_one(a.im); vxl::mul_zero(a.re); vxl::mul_zero(a.im);
      vxl::sub_zero(a.re); vxl::add_zero(a.im); vxl::add_zero(a.re); vxl::sub_zero(a.im);
  }
  pub proof fn c_ring<T: Ring>() requires ring::<T>() ensures ring::<Complex<T>>()
  {
      c_ops::<T>(); c_add_laws::<T>();
      assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] same(mm(mm(a, b), c), mm(a, mm(b, c))) by { c_mul_assoc(a, b, c); }
      assert forall|a: Complex<T>| #[trigger] same(mm(a, oo()), a) by { c_one(a); }
      assert forall|a: Complex<T>| #[trigger] same(mm(oo(), a), a) by { c_one(a); }
      assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] same(mm(a, aa(b, c)), aa(mm(a, b), mm(a, c))) by { c_dist(a, b, c); }
      assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] same(mm(aa(a, b), c), aa(mm(a, c), mm(b, c))) by { c_dist(a, b, c); }
  }
  pub proof fn c_comm<T: Ring>() requires ring::<T>(), comm_law::<T>() ensures comm_law::<Complex<T>>()
  {
      c_ops::<T>();
      assert forall|a: Complex<T>, b: Complex<T>| #[trigger] same(mm(a, b), mm(b, a)) by {
          vxl::mul_comm(a.re, b.re); vxl::mul_comm(a.im, b.im); vxl::mul_comm(a.re, b.im); vxl::mul_comm(a.im, b.re);
          vxl::add_comm(mm(a.re, b.im), mm(a.im, b.re));
      }
  }
  pub open spec fn cj<T: Ring>(z: Complex<T>) -> Complex<T> { z.conj_spec() }
  pub open spec fn ofr<T: Zero>(x: T) -> Complex<T> { Complex { re: x, im: zz() } }
  pub proof fn c_conj<T: Ring>(a: Complex<T>, b: Complex<T>) requires ring::<T>(), comm_law::<T>()
      ensures
          <Complex<T> as Conj>::conj_ok(),
          cj(cj(a)) == a,
          cj(aa(a, b)) == aa(cj(a), cj(b)),
          cj(mm(a, b)) == mm(cj(a), cj(b)),
          mm(a, cj(a)) == ofr(c_sqr(a)),
  {
      vxl::neg_neg(a.im);
      vxl::neg_add(a.im, b.im);
      vxl::mul_neg(a.im, ng(b.im)); vxl::mul_neg(a.im, b.im); vxl::neg_neg(mm(a.im, b.im));
      vxl::neg_add(mm(a.re, b.im), mm(a.im, b.re)); vxl::mul_neg(a.re, b.im); vxl::mul_neg(a.im, b.re);
      vxl::mul_neg(a.im, a.im); vxl::sub_def(mm(a.re, a.re), ng(mm(a.im, a.im))); vxl::neg_neg(mm(a.im, a.im));
      vxl::mul_neg(a.re, a.im); vxl::mul_comm(a.re, a.im); vxl::add_neg(mm(a.re, a.im));
  }
  pub proof fn c_norm_mul<T: Ring>(a: Complex<T>, b: Complex<T>) requires ring::<T>(), comm_law::<T>()
      ensures c_sqr(mm(a, b)) == mm(c_sqr(a), c_sqr(b))
  {
      // |ab|^2 = ab conj(ab) = a conj(a) b conj(b)
      let (p, q) = (cj(a), cj(b));
      c_ring::<T>(); c_comm::<T>(); c_conj(a, b); c_conj(b, b); c_conj(mm(a, b), b);
      vxl::mul_assoc(a, b, mm(p, q)); vxl::mul_assoc(b, p, q); vxl::mul_comm(b, p); vxl::mul_assoc(p, b, q); vxl::mul_assoc(a, p, mm(b, q));
      assert(ofr(c_sqr(mm(a, b))) == mm(ofr(c_sqr(a)), ofr(c_sqr(b))));
      vxl::mul_zero(zz::<T>()); vxl::sub_zero(mm(c_sqr(a), c_sqr(b)));
  }
  pub open spec fn field<T: Field>() -> bool {
      &&& ring::<T>() && comm_law::<T>() && dd_ok::<T>()
      &&& forall|a: T, b: T| b != zz::<T>() ==> mm(#[trigger] dd(a, b), b) == a
  }
  pub proof fn c_div_ok<T: Field>(a: Complex<T>, b: Complex<T>) requires field::<T>(), c_sqr(b) != zz::<T>()
      ensures mm(c_div(a, b), b) == a, mm(b, c_div(a, b)) == a
  {
      let n = dd(oo(), c_sqr(b));
      let q = cj(b);
      c_ring::<T>(); c_comm::<T>(); c_conj(b, b);
      // a / b = (a conj(b)) (n + 0i)
      vxl::mul_neg(a.im, b.im); vxl::sub_def(mm(a.re, b.re), ng(mm(a.im, b.im))); vxl::neg_neg(mm(a.im, b.im));
      vxl::mul_neg(a.re, b.im); vxl::sub_def(mm(a.im, b.re), mm(a.re, b.im)); vxl::add_comm(ng(mm(a.re, b.im)), mm(a.im, b.re));
      let m = mm(a, q);
      assert(c_div(a, b) == Complex { re: mm(m.re, n), im: mm(m.im, n) });
      vxl::mul_zero(m.re); vxl::mul_zero(m.im); vxl::sub_zero(mm(m.re, n)); vxl::add_zero(mm(m.im, n));
      assert(c_div(a, b) == mm(m, ofr(n)));
      vxl::mul_assoc(m, ofr(n), b); vxl::mul_comm(ofr(n), b); vxl::mul_assoc(a, q, mm(b, ofr(n))); vxl::mul_assoc(q, b, ofr(n)); vxl::mul_comm(q, b);
      assert(mm(c_div(a, b), b) == mm(a, mm(ofr(c_sqr(b)), ofr(n))));
      vxl::mul_comm(n, c_sqr(b)); vxl::mul_zero(c_sqr(b)); vxl::mul_zero(n); vxl::mul_zero(zz::<T>()); vxl::sub_zero(oo::<T>()); vxl::add_zero(zz::<T>());
      assert(mm(ofr(c_sqr(b)), ofr(n)) == oo::<Complex<T>>());
      vxl::mul_one(a);
      vxl::mul_comm(c_div(a, b), b);
  }

  // ---- square root: coefficients that are exact real numbers under some reading rv ----------
  pub uninterp spec fn rv<T>(x: T) -> real;
  pub open spec fn real_ops<T>() -> bool
  where for<'a> T: AddAssign<&'a T> + Add<&'a T, Output = T> + Div<&'a T, Output = T> + MulRefs + Neg<Output = T> + One + PartialOrd + Sqrt + Sub<&'a T, Output = T> + Zero,
    for<'a, 'b> &'a T: Abs<Output = T> + Add<&'b T, Output = T> + Sub<&'b T, Output = T>
  {
      &&& aa_ok::<T>() && forall|a: T, b: T| rv(*#[trigger] a.add_assign_spec(&b)) == rv(a) + rv(b)
      &&& mm_ok::<T>() && forall|a: T, b: T| rv(#[trigger] T::mr(&a, &b)) == rm(rv(a), rv(b))
      &&& ng_ok::<T>() && forall|a: T| rv(#[trigger] a.neg_spec()) == -rv(a)
      &&& zz_ok::<T>() && rv(zz::<T>()) == 0real
      &&& oo_ok::<T>() && rv(oo::<T>()) == 1real
      &&& <T as AddSpec<&T>>::obeys_add_spec() && (forall|a: T, b: T| #[trigger] <T as AddSpec<&T>>::add_req(a, &b))
      &&& forall|a: T, b: T| rv(#[trigger] <T as AddSpec<&T>>::add_spec(a, &b)) == rv(a) + rv(b)
      &&& <T as SubSpec<&T>>::obeys_sub_spec() && (forall|a: T, b: T| #[trigger] <T as SubSpec<&T>>::sub_req(a, &b))
      &&& forall|a: T, b: T| rv(#[trigger] <T as SubSpec<&T>>::sub_spec(a, &b)) == rv(a) - rv(b)
      &&& <T as DivSpec<&T>>::obeys_div_spec() && (forall|a: T, b: T| rv(b) != 0real ==> #[trigger] <T as DivSpec<&T>>::div_req(a, &b))
      &&& forall|a: T, b: T| rv(b) != 0real ==> rm(rv(#[trigger] <T as DivSpec<&T>>::div_spec(a, &b)), rv(b)) == rv(a)
      &&& <&T as AddSpec<&T>>::obeys_add_spec() && (forall|a: T, b: T| #[trigger] <&T as AddSpec<&T>>::add_req(&a, &b))
      &&& forall|a: T, b: T| rv(#[trigger] <&T as AddSpec<&T>>::add_spec(&a, &b)) == rv(a) + rv(b)
      &&& <&T as SubSpec<&T>>::obeys_sub_spec() && (forall|a: T, b: T| #[trigger] <&T as SubSpec<&T>>::sub_req(&a, &b))
      &&& forall|a: T, b: T| rv(#[trigger] <&T as SubSpec<&T>>::sub_spec(&a, &b)) == rv(a) - rv(b)
      &&& <&T as Abs>::abs_ok() && forall|a: T, b: T| #[trigger] <&T as Abs>::abs_rel(&a, b) ==> rv(b) == if rv(a) < 0real { -rv(a) } else { rv(a) }
      &&& T::sqrt_ok() && forall|a: T, b: T| #[trigger] T::sqrt_rel(a, b) && rv(a) >= 0real ==> rv(b) >= 0real && rm(rv(b), rv(b)) == rv(a)
      &&& T::obeys_partial_cmp_spec() && forall|a: T, b: T| #[trigger] PartialOrdSpec::partial_cmp_spec(&a, &b) ==
              (if rv(a) < rv(b) { Some(core::cmp::Ordering::Less) } else if rv(a) > rv(b) { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) })
  }
  // multiplication, hidden from the solver where it would only distract it
  #[verifier::opaque]
  pub open spec fn rm(a: real, b: real) -> real { a * b }
  pub open spec fn is_root<T>(s: Complex<T>, z: Complex<T>) -> bool {
      &&& rm(rv(s.re), rv(s.re)) - rm(rv(s.im), rv(s.im)) == rv(z.re)
      &&& 2real * rm(rv(s.re), rv(s.im)) == rv(z.im)
      &&& rv(s.re) >= 0real
      &&& rv(s.im) < 0real <==> rv(z.im) < 0real
  }
  // what the two branches establish about p + qi as root of x + yi, m being |x + yi|
  pub open spec fn half(p: real, w: real, v: real, y: real) -> bool {
      rm(p, p) * 2real == w || (rm(rm(p, p), v * 2real) == rm(y, y) && v > 0real)
  }
  pub open spec fn goal(x: real, y: real, m: real, p: real, q: real) -> bool {
      &&& half(p, m + x, m - x, y) && half(q, m - x, m + x, y)
      &&& p >= 0real && (y < 0real ==> q <= 0real) && (y >= 0real ==> q >= 0real)
  }
  pub proof fn sqrt_facts<T>(z: Complex<T>)
  where for<'a> T: AddAssign<&'a T> + Add<&'a T, Output = T> + Div<&'a T, Output = T> + MulRefs + Neg<Output = T> + One + PartialOrd + Sqrt + Sub<&'a T, Output = T> + Zero,
    for<'a, 'b> &'a T: Abs<Output = T> + Add<&'b T, Output = T> + Sub<&'b T, Output = T>
      requires real_ops::<T>()
      ensures
          rv(c_sqr(z)) >= 0real,
          forall|m: T| #[trigger] T::sqrt_rel(c_sqr(z), m) ==> rv(m) >= rv(z.re) && rv(m) >= -rv(z.re) && rv(m) >= 0real,
          forall|a: T, v: T, d: T| #![trigger T::sqrt_rel(v, d), <T as DivSpec<&T>>::div_spec(a, &d)]
              T::sqrt_rel(v, d) && rv(v) > 0real && rv(a) >= 0real && (rv(a) == rv(z.im) || rv(a) == -rv(z.im)) ==>
              rv(<T as DivSpec<&T>>::div_spec(a, &d)) >= 0real
              && rm(rm(rv(<T as DivSpec<&T>>::div_spec(a, &d)), rv(<T as DivSpec<&T>>::div_spec(a, &d))), rv(v)) == rm(rv(z.im), rv(z.im)),
          forall|v: T, d: T| rv(v) > 0real && #[trigger] T::sqrt_rel(v, d) ==> rv(d) > 0real,
          forall|a: T, b: T| rv(b) == 2real ==> rv(#[trigger] T::mr(&a, &b)) == rv(a) * 2real,
          forall|a: T, b: T| rv(b) * 2real == 1real ==> rv(#[trigger] T::mr(&a, &b)) * 2real == rv(a),
          forall|a: T, b: T| rv(b) == 2real ==> rv(#[trigger] <T as DivSpec<&T>>::div_spec(a, &b)) * 2real == rv(a),
          forall|p: real, q: real| q == -p ==> #[trigger] rm(q, q) == #[trigger] rm(p, p),
  {
      reveal(rm);
      let (x, y) = (rv(z.re), rv(z.im));
      assert(rv(c_sqr(z)) == x * x + y * y);
      lem_abs(x, y, 0real);
      assert forall|m: T| #[trigger] T::sqrt_rel(c_sqr(z), m) implies rv(m) >= x && rv(m) >= -x && rv(m) >= 0real by
      { assert(rv(m) >= 0real && rm(rv(m), rv(m)) == rv(c_sqr(z))); lem_abs(x, y, rv(m)); }
      assert forall|a: T, v: T, d: T| #![trigger T::sqrt_rel(v, d), <T as DivSpec<&T>>::div_spec(a, &d)]
          T::sqrt_rel(v, d) && rv(v) > 0real && rv(a) >= 0real && (rv(a) == y || rv(a) == -y) implies
          rv(<T as DivSpec<&T>>::div_spec(a, &d)) >= 0real
          && rm(rm(rv(<T as DivSpec<&T>>::div_spec(a, &d)), rv(<T as DivSpec<&T>>::div_spec(a, &d))), rv(v)) == rm(y, y) by
      {
          lem_pos(rv(d), rv(v));
          assert(rv(a) * rv(a) == y * y) by (nonlinear_arith) requires rv(a) == y || rv(a) == -y;
          lem_quot(rv(<T as DivSpec<&T>>::div_spec(a, &d)), rv(a), rv(d), y);
      }
      assert forall|v: T, d: T| rv(v) > 0real && #[trigger] T::sqrt_rel(v, d) implies rv(d) > 0real by { lem_pos(rv(d), rv(v)); }
      assert forall|a: T, b: T| rv(b) * 2real == 1real implies rv(#[trigger] T::mr(&a, &b)) * 2real == rv(a) by { lem_mulhalf(rv(a), rv(b)); }
      assert forall|p: real, q: real| q == -p implies #[trigger] rm(q, q) == #[trigger] rm(p, p) by
      { assert(q * q == p * p) by (nonlinear_arith) requires q == -p; }
  }
  pub proof fn lem_abs(x: real, y: real, m: real)
      ensures m >= 0real && m * m == x * x + y * y ==> m >= x && m >= -x, x * x + y * y >= 0real
  {
      assert(x * x >= 0real) by (nonlinear_arith);
      assert(y * y >= 0real) by (nonlinear_arith);
      if m >= 0real && m * m == x * x + y * y {
          assert(m >= x && m >= -x) by (nonlinear_arith) requires m >= 0real, m * m >= x * x;
      }
  }
  pub proof fn lem_quot(q: real, a: real, d: real, y: real)
      requires q * d == a, d > 0real, a >= 0real, a * a == y * y
      ensures q >= 0real, q * q * (d * d) == y * y
  {
      assert(q >= 0real) by (nonlinear_arith) requires q * d == a, d > 0real, a >= 0real;
      assert(q * q * (d * d) == (q * d) * (q * d)) by (nonlinear_arith);
  }
  pub proof fn lem_pos(d: real, v: real) ensures d >= 0real && d * d == v && v > 0real ==> d > 0real
  { if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; } }
  pub proof fn lem_mulhalf(a: real, b: real) requires b * 2real == 1real ensures (a * b) * 2real == a
  { assert((a * b) * 2real == a * (b * 2real)) by (nonlinear_arith); }
  pub proof fn lem_half(x: real, y: real, m: real, p: real)
      requires m * m == x * x + y * y, half(p, m + x, m - x, y)
      ensures p * p * 2real == m + x
  {
      reveal(rm);
      if rm(p, p) * 2real != m + x {
          assert((p * p) * ((m - x) * 2real) == y * y);
          assert((m - x) * (p * p * 2real - (m + x)) == 0real) by (nonlinear_arith) requires m * m == x * x + y * y, (p * p) * ((m - x) * 2real) == y * y;
          assert(p * p * 2real - (m + x) == 0real) by (nonlinear_arith) requires (m - x) * (p * p * 2real - (m + x)) == 0real, m > x;
      }
  }
  pub proof fn lem_sq(p: real, q: real) ensures (p * q * 2real) * (p * q * 2real) == (p * p * 2real) * (q * q * 2real)
  {
      let (a, b) = (p * p, q * q);
      assert((p * q) * (p * q) == (p * p) * (q * q)) by (nonlinear_arith);
      assert(((p * q) * 2real) * ((p * q) * 2real) == 4real * ((p * q) * (p * q))) by (nonlinear_arith);
      assert((a * 2real) * (b * 2real) == 4real * (a * b)) by (nonlinear_arith);
  }
  pub proof fn lem_diff(m: real, x: real) ensures (m + x) * (m - x) == m * m - x * x
  { assert((m + x) * (m - x) == m * m - x * x) by (nonlinear_arith); }
  pub proof fn lem_root(x: real, y: real, m: real, p: real, q: real)
      requires rm(m, m) == rm(x, x) + rm(y, y), goal(x, y, m, p, q)
      ensures rm(p, p) - rm(q, q) == x && 2real * rm(p, q) == y && (q < 0real <==> y < 0real)
  {
      reveal(rm);
      lem_half(x, y, m, p);
      assert((-x) * (-x) == x * x) by (nonlinear_arith);
      assert(m - (-x) == m + x && m + (-x) == m - x);
      lem_half(-x, y, m, q);
      lem_sq(p, q);
      lem_diff(m, x);
      let t = p * q * 2real;
      assert(t * t == y * y);
      assert((t - y) * (t + y) == 0real) by (nonlinear_arith) requires t * t == y * y;
      assert(t - y == 0real || t + y == 0real) by (nonlinear_arith) requires (t - y) * (t + y) == 0real;
      if y < 0real { assert(p * q <= 0real) by (nonlinear_arith) requires p >= 0real, q <= 0real; }
      else { assert(p * q >= 0real) by (nonlinear_arith) requires p >= 0real, q >= 0real; }
      assert(t == y);
      if q == 0real { assert(t == 0real) by (nonlinear_arith) requires q == 0real, t == p * q * 2real; }
  }
