#trait MulRefs
items:
  spec fn mr_ok() -> bool;
  spec fn mr_req(a: &Self, b: &Self) -> bool;
  spec fn mr(a: &Self, b: &Self) -> Self;
  spec fn mr_rel(a: &Self, b: &Self, r: Self) -> bool;
#fn mul_refs
spec:
  requires Self::mr_req(self, rhs),
  ensures Self::mr_ok() ==> r == Self::mr(self, rhs), Self::mr_rel(self, rhs, r),

#impl<T> MulRefs for T where for<'a> &'a T: Mul<&'a T, Output = T>
items:
  open spec fn mr_ok() -> bool { <&T as MulSpec<&T>>::obeys_mul_spec() }
  open spec fn mr_req(a: &Self, b: &Self) -> bool { <&T as MulSpec<&T>>::mul_req(a, b) }
  open spec fn mr(a: &Self, b: &Self) -> Self { <&T as MulSpec<&T>>::mul_spec(a, b) }
  open spec fn mr_rel(a: &Self, b: &Self, r: Self) -> bool { call_ensures(<&T as core::ops::Mul<&T>>::mul, (a, b), r) }

#trait DivRefs
items:
  spec fn dr_ok() -> bool;
  spec fn dr_req(a: &Self, b: &Self) -> bool;
  spec fn dr(a: &Self, b: &Self) -> Self;
#fn div_refs
spec:
  requires Self::dr_req(self, rhs),
  ensures Self::dr_ok() ==> r == Self::dr(self, rhs),

#impl<T> DivRefs for T where for<'a> &'a T: Div<&'a T, Output = T>
items:
  open spec fn dr_ok() -> bool { <&T as DivSpec<&T>>::obeys_div_spec() }
  open spec fn dr_req(a: &Self, b: &Self) -> bool { <&T as DivSpec<&T>>::div_req(a, b) }
  open spec fn dr(a: &Self, b: &Self) -> Self { <&T as DivSpec<&T>>::div_spec(a, b) }

#trait Zero
items:
  spec fn zero_ok() -> bool;
  spec fn zero_spec() -> Self;
#fn zero
spec:
  ensures Self::zero_ok() ==> r == Self::zero_spec(),

#impl<T: From<i8>> Zero for T
items:
  open spec fn zero_ok() -> bool { <T as vstd::std_specs::convert::FromSpec<i8>>::obeys_from_spec() }
  open spec fn zero_spec() -> Self { <T as vstd::std_specs::convert::FromSpec<i8>>::from_spec(0i8) }

#trait One
items:
  spec fn one_ok() -> bool;
  spec fn one_spec() -> Self;
#fn one
spec:
  ensures Self::one_ok() ==> r == Self::one_spec(),

#impl<T: From<i8>> One for T
items:
  open spec fn one_ok() -> bool { <T as vstd::std_specs::convert::FromSpec<i8>>::obeys_from_spec() }
  open spec fn one_spec() -> Self { <T as vstd::std_specs::convert::FromSpec<i8>>::from_spec(1i8) }

#trait Conj
items:
  spec fn conj_ok() -> bool;
  spec fn conj_spec(self) -> Self;
  spec fn conj_req() -> bool;
#fn conj
spec:
  requires Self::conj_req(),
  ensures Self::conj_ok() ==> r == Self::conj_spec(self),

#impl Conj for i8
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for i16
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for i32
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for i64
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for i128
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for u8
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for u16
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for u32
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for u64
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for u128
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for f32
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }

#impl Conj for f64
items:
  open spec fn conj_ok() -> bool { true }
  open spec fn conj_req() -> bool { true }
  open spec fn conj_spec(self) -> Self { self }
