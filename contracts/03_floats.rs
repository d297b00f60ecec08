// the standard library functions on floats, as uninterpreted functions of their arguments
pub mod vxf {
use vstd::prelude::*;
pub uninterp spec fn f32_abs(x: f32) -> f32;
pub assume_specification [f32::abs] (x: f32) -> (r: f32)
    ensures r == f32_abs(x);
pub uninterp spec fn f64_abs(x: f64) -> f64;
pub assume_specification [f64::abs] (x: f64) -> (r: f64)
    ensures r == f64_abs(x);
pub uninterp spec fn f32_asin(x: f32) -> f32;
pub assume_specification [f32::asin] (x: f32) -> (r: f32)
    ensures r == f32_asin(x);
pub uninterp spec fn f64_asin(x: f64) -> f64;
pub assume_specification [f64::asin] (x: f64) -> (r: f64)
    ensures r == f64_asin(x);
pub uninterp spec fn f32_cos(x: f32) -> f32;
pub assume_specification [f32::cos] (x: f32) -> (r: f32)
    ensures r == f32_cos(x);
pub uninterp spec fn f64_cos(x: f64) -> f64;
pub assume_specification [f64::cos] (x: f64) -> (r: f64)
    ensures r == f64_cos(x);
pub uninterp spec fn f32_cosh(x: f32) -> f32;
pub assume_specification [f32::cosh] (x: f32) -> (r: f32)
    ensures r == f32_cosh(x);
pub uninterp spec fn f64_cosh(x: f64) -> f64;
pub assume_specification [f64::cosh] (x: f64) -> (r: f64)
    ensures r == f64_cosh(x);
pub uninterp spec fn f32_exp(x: f32) -> f32;
pub assume_specification [f32::exp] (x: f32) -> (r: f32)
    ensures r == f32_exp(x);
pub uninterp spec fn f64_exp(x: f64) -> f64;
pub assume_specification [f64::exp] (x: f64) -> (r: f64)
    ensures r == f64_exp(x);
pub uninterp spec fn f32_ln(x: f32) -> f32;
pub assume_specification [f32::ln] (x: f32) -> (r: f32)
    ensures r == f32_ln(x);
pub uninterp spec fn f64_ln(x: f64) -> f64;
pub assume_specification [f64::ln] (x: f64) -> (r: f64)
    ensures r == f64_ln(x);
pub uninterp spec fn f32_sin(x: f32) -> f32;
pub assume_specification [f32::sin] (x: f32) -> (r: f32)
    ensures r == f32_sin(x);
pub uninterp spec fn f64_sin(x: f64) -> f64;
pub assume_specification [f64::sin] (x: f64) -> (r: f64)
    ensures r == f64_sin(x);
pub uninterp spec fn f32_sinh(x: f32) -> f32;
pub assume_specification [f32::sinh] (x: f32) -> (r: f32)
    ensures r == f32_sinh(x);
pub uninterp spec fn f64_sinh(x: f64) -> f64;
pub assume_specification [f64::sinh] (x: f64) -> (r: f64)
    ensures r == f64_sinh(x);
pub uninterp spec fn f32_sqrt(x: f32) -> f32;
pub assume_specification [f32::sqrt] (x: f32) -> (r: f32)
    ensures r == f32_sqrt(x);
pub uninterp spec fn f64_sqrt(x: f64) -> f64;
pub assume_specification [f64::sqrt] (x: f64) -> (r: f64)
    ensures r == f64_sqrt(x);
pub uninterp spec fn f32_tan(x: f32) -> f32;
pub assume_specification [f32::tan] (x: f32) -> (r: f32)
    ensures r == f32_tan(x);
pub uninterp spec fn f64_tan(x: f64) -> f64;
pub assume_specification [f64::tan] (x: f64) -> (r: f64)
    ensures r == f64_tan(x);
pub uninterp spec fn f32_atan2(y: f32, x: f32) -> f32;
pub assume_specification [f32::atan2] (y: f32, x: f32) -> (r: f32)
    ensures r == f32_atan2(y, x);
pub uninterp spec fn f64_atan2(y: f64, x: f64) -> f64;
pub assume_specification [f64::atan2] (y: f64, x: f64) -> (r: f64)
    ensures r == f64_atan2(y, x);
pub uninterp spec fn f32_exp_m1(x: f32) -> f32;
pub assume_specification [f32::exp_m1] (x: f32) -> (r: f32)
    ensures r == f32_exp_m1(x);
pub uninterp spec fn f32_pi() -> f32;
pub assume_specification [core::f32::consts::PI] -> (r: f32) ensures r == f32_pi();
pub uninterp spec fn f32_e() -> f32;
pub assume_specification [core::f32::consts::E] -> (r: f32) ensures r == f32_e();
// (used by changed trees only; their assumed contracts are in 06_std_more.rs)
pub uninterp spec fn f32_tau() -> f32;
pub uninterp spec fn f32_frac_pi_2() -> f32;
pub uninterp spec fn f32_powi(x: f32, n: i32) -> f32;
pub uninterp spec fn f32_hypot(x: f32, y: f32) -> f32;
pub uninterp spec fn f32_mul_add(x: f32, y: f32, z: f32) -> f32;
}
