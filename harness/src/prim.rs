//! C21: primitive numbers.
use crate::ctx::Ctx;
use magnesia::algebra::*;
use magnesia::functions::*;

macro_rules! un {
    ($c:expr, $T:ident, $x:expr, $($Tr:ident $f:ident),*) => {{
        $(
            let (g, w) = (<$T as $Tr>::$f($x), <$T>::$f($x));
            $c.check(same!(g, w), || format!("<{} as {}>::{} of {:?} (bits {:#x}) is {:?}, the standard library gives {:?}", stringify!($T), stringify!($Tr), stringify!($f), $x, $x.to_bits(), g, w));
        )*
    }};
}
macro_rules! same {
    ($g:expr, $w:expr) => {
        ($g.to_bits() == $w.to_bits() || ($g.is_nan() && $w.is_nan()))
    };
}
macro_rules! float {
    ($name:ident, $T:ident, $B:ident) => {
        fn $name(c: &mut Ctx, x: $T) {
            c.case(|| format!("{} {:?} (bits {:#x})", stringify!($T), x, x.to_bits()));
            un!(c, $T, x, Sin sin, Cos cos, Tan tan, Asin asin, Sinh sinh, Cosh cosh, Exp exp, Ln ln);
            let (g, w) = (<$T as Sqrt>::sqrt(&x), <$T>::sqrt(x));
            c.check(same!(g, w), || format!("sqrt of {:?} (bits {:#x}) in {} is {:?}, the standard library gives {:?}", x, x.to_bits(), stringify!($T), g, w));
            let (g, h, w) = (<$T as Abs>::abs(x), <&$T as Abs>::abs(&x), <$T>::abs(x));
            c.check(same!(g, w) && !g.is_sign_negative(), || format!("abs of {:?} (bits {:#x}) in {} is {:?}", x, x.to_bits(), stringify!($T), g));
            c.check(same!(h, w) && !h.is_sign_negative(), || format!("abs of a reference to {:?} (bits {:#x}) in {} is {:?}", x, x.to_bits(), stringify!($T), h));
            let g = Conj::conj(x);
            c.check(g.to_bits() == x.to_bits() || (g.is_nan() && x.is_nan()), || format!("conj of {:?} in {} is {:?}", x, stringify!($T), g));
        }
    };
}
macro_rules! float2 {
    ($name:ident, $T:ident) => {
        fn $name(c: &mut Ctx, x: $T, y: $T) {
            c.case(|| format!("{} pair {:?}, {:?}", stringify!($T), x, y));
            let at = |l: &str| format!("{l} of {:?} and {:?} (bits {:#x}, {:#x}) in {}", x, y, x.to_bits(), y.to_bits(), stringify!($T));
            let (g, w) = (<$T as Atan2>::atan2(x, y), <$T>::atan2(x, y));
            c.check(same!(g, w), || format!("{} is {:?}, the standard library gives {:?}", at("atan2"), g, w));
            let (g, w) = (x.mul_refs(&y), x * y);
            c.check(same!(g, w), || format!("{} is {:?}, x * y is {:?}", at("mul_refs"), g, w));
            let (g, w) = (x.div_refs(&y), x / y);
            c.check(same!(g, w), || format!("{} is {:?}, x / y is {:?}", at("div_refs"), g, w));
        }
    };
}
float!(f1_32, f32, u32);
float!(f1_64, f64, u64);
float2!(f2_32, f32);
float2!(f2_64, f64);

macro_rules! ints {
    ($c:expr, $($T:ident)*) => {{ $(
        let mut pool: Vec<$T> = vec![0, 1, 2, 3, 7, <$T>::MAX, <$T>::MIN, <$T>::MAX - 1, <$T>::MIN + 1, <$T>::MAX / 2, (0 as $T).wrapping_sub(1), (0 as $T).wrapping_sub(5)];
        for k in $c.consts.clone() { pool.push(k as $T); pool.push((0 as $T).wrapping_sub(k as $T)); }
        for _ in 0..20 { pool.push(($c.u() as $T).wrapping_shr(($c.below(8 * std::mem::size_of::<$T>() as u64)) as u32)); }
        for &x in &pool {
            $c.case(|| format!("{} {:?}", stringify!($T), x));
            conj_if!($c, $T, x);
            for &y in &pool {
                if let Some(w) = x.checked_mul(y) {
                    let g = x.mul_refs(&y);
                    $c.check(g == w, || format!("mul_refs of {x:?} and {y:?} in {} is {g:?}", stringify!($T)));
                }
                if let Some(w) = x.checked_div(y) {
                    let g = x.div_refs(&y);
                    $c.check(g == w, || format!("div_refs of {x:?} and {y:?} in {} is {g:?}", stringify!($T)));
                }
            }
        }
    )* }};
}
macro_rules! conj_if {
    ($c:expr, isize, $x:expr) => {};
    ($c:expr, usize, $x:expr) => {};
    ($c:expr, $T:ident, $x:expr) => {
        conj1($c, $x, stringify!($T))
    };
}
fn conj1<T: Conj + PartialEq + Copy + std::fmt::Debug>(c: &mut Ctx, x: T, t: &str) {
    let g = x.conj();
    c.check(g == x, || format!("conj of {x:?} in {t} is {g:?}"));
}
fn zo<T: Zero + One + PartialEq + std::fmt::Debug>(c: &mut Ctx, z: T, o: T, t: &str) {
    c.case(|| format!("zero and one of {t}"));
    c.check(T::zero() == z, || format!("zero of {t} is {:?}", T::zero()));
    c.check(T::one() == o, || format!("one of {t} is {:?}", T::one()));
}

pub fn c21(c: &mut Ctx) {
    zo(c, 0i8, 1, "i8");
    zo(c, 0i16, 1, "i16");
    zo(c, 0i32, 1, "i32");
    zo(c, 0i64, 1, "i64");
    zo(c, 0i128, 1, "i128");
    zo(c, 0isize, 1, "isize");
    zo(c, 0f32, 1., "f32");
    zo(c, 0f64, 1., "f64");
    c.check(f32::zero().to_bits() == 0 && f64::zero().to_bits() == 0, || "zero of a float is a negative zero".into());
    macro_rules! all_ints { ($($T:ident)*) => { $( ints!(c, $T); )* } }
    all_ints!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
    macro_rules! idx { ($($T:ident)*) => { $( 
        for (x, y) in [(6 as $T, 4 as $T), (1, 3), (0, 5), (100, 7)] {
            c.check(x.mul_refs(&y) == x * y && x.div_refs(&y) == x / y, || format!("mul_refs/div_refs of {x} and {y} in {}", stringify!($T)));
        } )* } }
    idx!(isize usize);
    // floats: special values, all exponents, source constants, random patterns
    let mut s64: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, -5e-324, 710.0, -745.2, 709.78, 1e300, 1e-300, std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, std::f64::consts::E, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 3.0, 10.0, 20.0, 22.0, 89.0, 1e22, 1.0000000001, 1e-9, 1e-20];
    for f in c.fconsts.clone() {
        for d in [-1i64, 0, 1] {
            let g = f64::from_bits((f.to_bits() as i64 + d) as u64);
            s64.push(g);
            s64.push(-g);
            s64.push((g as f32) as f64);
        }
    }
    for k in c.consts.clone() {
        for f in [k as f64, k as f64 + 0.5, k as f64 - 0.5, 1.0 / (k as f64)] {
            s64.push(f);
            s64.push(-f);
        }
    }
    let s32: Vec<f32> = s64.iter().map(|&x| x as f32).chain([f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, -1e-45, 88.8, -104.0]).collect();
    for &x in &s64 {
        f1_64(c, x);
        for &y in &s64 {
            f2_64(c, x, y);
        }
    }
    for &x in &s32 {
        f1_32(c, x);
        for &y in &s32 {
            f2_32(c, x, y);
        }
    }
    // every exponent with a few mantissas, both signs
    for e in 0..2048u64 {
        for _ in 0..2 {
            let m = c.u() >> 12;
            for sgn in 0..2u64 {
                f1_64(c, f64::from_bits(sgn << 63 | e << 52 | m));
            }
        }
    }
    for e in 0..256u32 {
        for _ in 0..16 {
            let m = (c.u() >> 41) as u32;
            for sgn in 0..2u32 {
                f1_32(c, f32::from_bits(sgn << 31 | e << 23 | m));
            }
        }
    }
    for _ in 0..c.reps(60000) {
        let x = c.unit() * 40.0 - 20.0;
        f1_64(c, x);
        f1_32(c, x as f32);
        let y = c.unit() * 40.0 - 20.0;
        f2_64(c, x, y);
        f2_32(c, x as f32, y as f32);
        let (a, b) = (c.u(), c.u());
        f2_64(c, f64::from_bits(a), f64::from_bits(b));
        f2_32(c, f32::from_bits(a as u32), f32::from_bits(b as u32));
    }
    if c.thorough {
        // every f32 bit pattern, spread over the cores
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for t in 0..8u64 {
                let bad = &bad;
                s.spawn(move || {
                    for i in 0..(1u64 << 29) {
                        let x = f32::from_bits((t << 29 | i) as u32);
                        macro_rules! ck { ($($Tr:ident $f:ident),*) => { [$( same!(<f32 as $Tr>::$f(x), f32::$f(x)) ),*] } }
                        let r = ck!(Sin sin, Cos cos, Tan tan, Asin asin, Sinh sinh, Cosh cosh, Exp exp, Ln ln);
                        let q = same!(<f32 as Sqrt>::sqrt(&x), f32::sqrt(x)) && same!(<f32 as Abs>::abs(x), f32::abs(x)) && same!(<&f32 as Abs>::abs(&x), f32::abs(x));
                        if !q || !r.iter().all(|&b| b) {
                            *bad.lock().unwrap() = Some(x);
                            return;
                        }
                        if i & 0xfffff == 0 && bad.lock().unwrap().is_some() {
                            return;
                        }
                    }
                });
            }
        });
        c.cases += 1 << 32;
        let found = *bad.lock().unwrap();
        if let Some(x) = found {
            f1_32(c, x);
            c.check(false, || format!("a function of f32 {x:?} (bits {:#x}) differs from the standard library", x.to_bits()));
        }
    }
}
