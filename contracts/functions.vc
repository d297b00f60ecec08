#trait Abs
items:
  spec fn abs_ok() -> bool;
  spec fn abs_rel(self, r: Self::Output) -> bool;
#fn abs
spec:
  requires Self::abs_ok(),
  ensures self.abs_rel(r),

#impl Abs for f32
items:
  open spec fn abs_ok() -> bool { true }
  open spec fn abs_rel(self, r: Self::Output) -> bool { r == crate::vxf::f32_abs(self) }

#impl Abs for &f32
items:
  open spec fn abs_ok() -> bool { true }
  open spec fn abs_rel(self, r: Self::Output) -> bool { r == crate::vxf::f32_abs(*self) }

#impl Abs for f64
items:
  open spec fn abs_ok() -> bool { true }
  open spec fn abs_rel(self, r: Self::Output) -> bool { r == crate::vxf::f64_abs(self) }

#impl Abs for &f64
items:
  open spec fn abs_ok() -> bool { true }
  open spec fn abs_rel(self, r: Self::Output) -> bool { r == crate::vxf::f64_abs(*self) }

#trait Asin
items:
  spec fn asin_ok() -> bool;
  spec fn asin_spec(self) -> Self;
#fn asin
spec:
  requires Self::asin_ok(),
  ensures r == self.asin_spec(),

#impl Asin for f32
items:
  open spec fn asin_ok() -> bool { true }
  open spec fn asin_spec(self) -> Self { crate::vxf::f32_asin(self) }

#impl Asin for f64
items:
  open spec fn asin_ok() -> bool { true }
  open spec fn asin_spec(self) -> Self { crate::vxf::f64_asin(self) }

#trait Cos
items:
  spec fn cos_ok() -> bool;
  spec fn cos_spec(self) -> Self;
#fn cos
spec:
  requires Self::cos_ok(),
  ensures r == self.cos_spec(),

#impl Cos for f32
items:
  open spec fn cos_ok() -> bool { true }
  open spec fn cos_spec(self) -> Self { crate::vxf::f32_cos(self) }

#impl Cos for f64
items:
  open spec fn cos_ok() -> bool { true }
  open spec fn cos_spec(self) -> Self { crate::vxf::f64_cos(self) }

#trait Cosh
items:
  spec fn cosh_ok() -> bool;
  spec fn cosh_spec(self) -> Self;
#fn cosh
spec:
  requires Self::cosh_ok(),
  ensures r == self.cosh_spec(),

#impl Cosh for f32
items:
  open spec fn cosh_ok() -> bool { true }
  open spec fn cosh_spec(self) -> Self { crate::vxf::f32_cosh(self) }

#impl Cosh for f64
items:
  open spec fn cosh_ok() -> bool { true }
  open spec fn cosh_spec(self) -> Self { crate::vxf::f64_cosh(self) }

#trait Exp
items:
  spec fn exp_ok() -> bool;
  spec fn exp_spec(self) -> Self;
#fn exp
spec:
  requires Self::exp_ok(),
  ensures r == self.exp_spec(),

#impl Exp for f32
items:
  open spec fn exp_ok() -> bool { true }
  open spec fn exp_spec(self) -> Self { crate::vxf::f32_exp(self) }

#impl Exp for f64
items:
  open spec fn exp_ok() -> bool { true }
  open spec fn exp_spec(self) -> Self { crate::vxf::f64_exp(self) }

#trait Ln
items:
  spec fn ln_ok() -> bool;
  spec fn ln_spec(self) -> Self;
#fn ln
spec:
  requires Self::ln_ok(),
  ensures r == self.ln_spec(),

#impl Ln for f32
items:
  open spec fn ln_ok() -> bool { true }
  open spec fn ln_spec(self) -> Self { crate::vxf::f32_ln(self) }

#impl Ln for f64
items:
  open spec fn ln_ok() -> bool { true }
  open spec fn ln_spec(self) -> Self { crate::vxf::f64_ln(self) }

#trait Sin
items:
  spec fn sin_ok() -> bool;
  spec fn sin_spec(self) -> Self;
#fn sin
spec:
  requires Self::sin_ok(),
  ensures r == self.sin_spec(),

#impl Sin for f32
items:
  open spec fn sin_ok() -> bool { true }
  open spec fn sin_spec(self) -> Self { crate::vxf::f32_sin(self) }

#impl Sin for f64
items:
  open spec fn sin_ok() -> bool { true }
  open spec fn sin_spec(self) -> Self { crate::vxf::f64_sin(self) }

#trait Sinh
items:
  spec fn sinh_ok() -> bool;
  spec fn sinh_spec(self) -> Self;
#fn sinh
spec:
  requires Self::sinh_ok(),
  ensures r == self.sinh_spec(),

#impl Sinh for f32
items:
  open spec fn sinh_ok() -> bool { true }
  open spec fn sinh_spec(self) -> Self { crate::vxf::f32_sinh(self) }

#impl Sinh for f64
items:
  open spec fn sinh_ok() -> bool { true }
  open spec fn sinh_spec(self) -> Self { crate::vxf::f64_sinh(self) }

#trait Sqrt
items:
  spec fn sqrt_ok() -> bool;
  spec fn sqrt_rel(self, r: Self) -> bool;
#fn sqrt
spec:
  requires Self::sqrt_ok(),
  ensures (*self).sqrt_rel(r),

#impl Sqrt for f32
items:
  open spec fn sqrt_ok() -> bool { true }
  open spec fn sqrt_rel(self, r: Self) -> bool { r == crate::vxf::f32_sqrt(self) }

#impl Sqrt for f64
items:
  open spec fn sqrt_ok() -> bool { true }
  open spec fn sqrt_rel(self, r: Self) -> bool { r == crate::vxf::f64_sqrt(self) }

#trait Tan
items:
  spec fn tan_ok() -> bool;
  spec fn tan_spec(self) -> Self;
#fn tan
spec:
  requires Self::tan_ok(),
  ensures r == self.tan_spec(),

#impl Tan for f32
items:
  open spec fn tan_ok() -> bool { true }
  open spec fn tan_spec(self) -> Self { crate::vxf::f32_tan(self) }

#impl Tan for f64
items:
  open spec fn tan_ok() -> bool { true }
  open spec fn tan_spec(self) -> Self { crate::vxf::f64_tan(self) }

#trait Atan2
items:
  spec fn atan2_ok() -> bool;
  spec fn atan2_spec(self, other: Self) -> Self;
#fn atan2
spec:
  requires Self::atan2_ok(),
  ensures r == self.atan2_spec(other),

#impl Atan2 for f32
items:
  open spec fn atan2_ok() -> bool { true }
  open spec fn atan2_spec(self, other: Self) -> Self { crate::vxf::f32_atan2(self, other) }

#impl Atan2 for f64
items:
  open spec fn atan2_ok() -> bool { true }
  open spec fn atan2_spec(self, other: Self) -> Self { crate::vxf::f64_atan2(self, other) }
