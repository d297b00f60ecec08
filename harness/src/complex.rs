use crate::ctx::Ctx;
use crate::types::*;
use magnesia::algebra::*;
use magnesia::functions::*;
use std::fmt::Debug;
use std::ops::*;

fn gen_c(c: &mut Ctx) -> Complex<Nc> {
    let re = gen_nc(c);
    let im = match c.below(5) {
        0 => re.clone(),
        1 => nneg(&re),
        _ => gen_nc(c),
    };
    Complex::new(re, im)
}

fn forms_for<T>(c: &mut Ctx, x: &Complex<T>, y: &Complex<T>, s: &T, name: &str)
where
    T: Ring + Debug + Conj,
    for<'a> T: Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + AddAssign<T> + SubAssign<T>,
{
    let (x0, y0) = (x.clone(), y.clone());
    let (a, b, cc, d) = (x.re.clone(), x.im.clone(), y.re.clone(), y.im.clone());
    c.case(|| format!("complex operators over {name}: x = {x0:?}, y = {y0:?}, s = {s:?}"));
    let at = |op: &str| format!("{op} over {name} with x = {x0:?}, y = {y0:?}, s = {s:?}");
    let add = Complex { re: a.clone() + cc.clone(), im: b.clone() + d.clone() };
    let sub = Complex { re: a.clone() - cc.clone(), im: b.clone() - d.clone() };
    let mul = Complex { re: a.clone() * cc.clone() - b.clone() * d.clone(), im: a.clone() * d.clone() + b.clone() * cc.clone() };
    c.eq(&Complex::new(a.clone(), b.clone()), &x0, || at("Complex::new(re, im)"));
    c.eq(&(x.clone() + y.clone()), &add, || at("x + y"));
    let mut z = x.clone();
    z += y.clone();
    c.eq(&z, &add, || at("x += y"));
    let mut z = x.clone();
    z += y;
    c.eq(&z, &add, || at("x += &y"));
    c.eq(&(x.clone() - y.clone()), &sub, || at("x - y"));
    let mut z = x.clone();
    z -= y.clone();
    c.eq(&z, &sub, || at("x -= y"));
    let mut z = x.clone();
    z -= y;
    c.eq(&z, &sub, || at("x -= &y"));
    c.eq(&(x.clone() * y.clone()), &mul, || at("x * y"));
    c.eq(&(x * y), &mul, || at("&x * &y"));
    c.eq(&x.mul_refs(y), &mul, || at("x.mul_refs(&y)"));
    let mut z = x.clone();
    z *= y.clone();
    c.eq(&z, &mul, || at("x *= y"));
    // one and the same object on both sides
    let sq = Complex { re: a.clone() * a.clone() - b.clone() * b.clone(), im: a.clone() * b.clone() + b.clone() * a.clone() };
    c.eq(&(x * x), &sq, || at("&x * &x"));
    c.eq(&(x.clone() * s.clone()), &Complex { re: a.clone() * s.clone(), im: b.clone() * s.clone() }, || at("x * s"));
    c.eq(&(-x.clone()), &Complex { re: -a.clone(), im: -b.clone() }, || at("-x"));
    c.eq(&x.clone().conj(), &Complex { re: a.clone(), im: -b.clone() }, || at("x.conj()"));
    c.eq(&x.sqr_norm(), &(a.clone() * a.clone() + b.clone() * b.clone()), || at("x.sqr_norm()"));
    let zero = Complex::<T>::zero();
    c.check(zero.re == T::zero() && zero.im == T::zero(), || format!("Complex::zero() over {name} is {zero:?}"));
    let one = Complex::<T>::one();
    c.check(one.re == T::one() && one.im == T::zero(), || format!("Complex::one() over {name} is {one:?}"));
    c.eq(x, &x0, || at("operand x changed"));
    c.eq(y, &y0, || at("operand y changed"));
}

pub fn c01(c: &mut Ctx) {
    let ii: Vec<i64> = [0, 1, -1, 2, -2, 3, -7, 10, 46340, -46341].iter().cloned().chain(c.consts.clone()).filter(|x| x.abs() < 1 << 30).collect();
    for _ in 0..c.reps(6000) {
        let x = gen_c(c);
        let y = match c.below(8) {
            0 => x.clone(),
            1 => Complex { re: x.re.clone(), im: nneg(&x.im) },
            2 => Complex { re: nneg(&x.re), im: nneg(&x.im) },
            3 => Complex { re: x.im.clone(), im: x.re.clone() },
            _ => gen_c(c),
        };
        let s = match c.below(5) {
            0 => x.re.clone(),
            _ => gen_nc(c),
        };
        forms_for(c, &x, &y, &s, "2x2 matrices mod 2147483647");
    }
    for _ in 0..c.reps(6000) {
        let g = |c: &mut Ctx| if c.below(2) == 0 { *c.pick(&ii) } else { c.below(1 << 20) as i64 - (1 << 19) };
        let (x, y, s) = (Complex::new(g(c), g(c)), Complex::new(g(c), g(c)), g(c));
        forms_for(c, &x, &y, &s, "i64");
        let h = |c: &mut Ctx| g(c) as f64 / 4.0;
        let (x, y, s) = (Complex::new(h(c), h(c)), Complex::new(h(c), h(c)), h(c));
        forms_for(c, &x, &y, &s, "f64");
    }
    let small: Vec<i32> = vec![-2, -1, 0, 1, 2];
    for &a in &small {
        for &b in &small {
            for &d in &small {
                for &e in &small {
                    forms_for(c, &Complex::new(a, b), &Complex::new(d, e), &a, "i32");
                }
            }
        }
    }
}

macro_rules! laws {
    ($T:ident, $c:expr, $n:expr) => {{
        let c: &mut Ctx = $c;
        type C = Complex<$T>;
        for _ in 0..c.reps($n) {
            let g = |c: &mut Ctx| {
                let re = <$T>::gen(c);
                let im = match c.below(4) {
                    0 => re,
                    1 => -re,
                    _ => <$T>::gen(c),
                };
                Complex::new(re, im)
            };
            let x: C = g(c);
            let y: C = if c.below(6) == 0 { x.conj() } else { g(c) };
            let z: C = if c.below(6) == 0 { -y } else { g(c) };
            c.case(|| format!("ring laws over integers mod {}: x = {x:?}, y = {y:?}, z = {z:?}", <$T>::MOD));
            let at = |l: &str| format!("{l} over integers mod {} with x = {x:?}, y = {y:?}, z = {z:?}", <$T>::MOD);
            let (zero, one) = (C::zero(), C::one());
            c.eq(&((x + y) + z), &(x + (y + z)), || at("(x+y)+z = x+(y+z)"));
            c.eq(&(x + y), &(y + x), || at("x+y = y+x"));
            c.eq(&((x * y) * z), &(x * (y * z)), || at("(xy)z = x(yz)"));
            c.eq(&(x * y), &(y * x), || at("xy = yx"));
            c.eq(&(&x * &y), &(&y * &x), || at("&x*&y = &y*&x"));
            c.eq(&(x * (y + z)), &(x * y + x * z), || at("x(y+z) = xy+xz"));
            c.eq(&((x + y) * z), &(x * z + y * z), || at("(x+y)z = xz+yz"));
            c.eq(&(x + zero), &x, || at("x+0 = x"));
            c.eq(&(zero + x), &x, || at("0+x = x"));
            c.eq(&(x * one), &x, || at("x*1 = x"));
            c.eq(&(one * x), &x, || at("1*x = x"));
            c.eq(&(x + (-x)), &zero, || at("x+(-x) = 0"));
            c.eq(&(x - x), &zero, || at("x-x = 0"));
            c.eq(&(x - y), &(x + (-y)), || at("x-y = x+(-y)"));
            c.eq(&x.conj().conj(), &x, || at("conj(conj(x)) = x"));
            c.eq(&(x + y).conj(), &(x.conj() + y.conj()), || at("conj(x+y) = conj(x)+conj(y)"));
            c.eq(&(x * y).conj(), &(x.conj() * y.conj()), || at("conj(xy) = conj(x)conj(y)"));
            c.eq(&(x * y).sqr_norm(), &(x.sqr_norm() * y.sqr_norm()), || at("norm(xy) = norm(x)norm(y)"));
            let n = x.sqr_norm();
            c.eq(&(x * x.conj()), &Complex::new(n, <$T>::zero()), || at("x conj(x) = norm(x)"));
            let mut w = x;
            w += y;
            w -= &y;
            c.eq(&w, &x, || at("x += y; x -= &y"));
            let mut w = x;
            w *= y;
            c.eq(&w, &(x * y), || at("x *= y"));
        }
    }};
}

pub fn c02(c: &mut Ctx) {
    laws!(Fp, c, 6000);
    laws!(Fq, c, 3000);
    laws!(F7, c, 6000);
    laws!(F13, c, 3000);
}

macro_rules! divlaws {
    ($T:ident, $c:expr, $x:expr, $y:expr, $s:expr) => {{
        let c: &mut Ctx = $c;
        let (x, y, s): (Complex<$T>, Complex<$T>, $T) = ($x, $y, $s);
        c.case(|| format!("division over integers mod {}: x = {x:?}, y = {y:?}, s = {s:?}", <$T>::MOD));
        let at = |l: &str| format!("{l} over integers mod {} with x = {x:?}, y = {y:?}, s = {s:?}", <$T>::MOD);
        let norm = y.re * y.re + y.im * y.im;
        if norm.0 != 0 {
            for (l, q) in [("x / y", x / y), ("&x / &y", &x / &y), ("x.div_refs(&y)", x.div_refs(&y))] {
                let prod = Complex { re: q.re * y.re - q.im * y.im, im: q.re * y.im + q.im * y.re };
                c.eq(&prod, &x, || format!("{} = {q:?}; the quotient times y must be x;", at(l)));
            }
            // same object on both sides
            let q = &y / &y;
            c.eq(&q, &Complex { re: <$T>::from(1), im: <$T>::from(0) }, || at("&y / &y"));
        }
        if s.0 != 0 {
            let want = Complex { re: x.re / s, im: x.im / s };
            c.eq(&(x / s), &want, || at("x / s"));
            c.eq(&(x / &s), &want, || at("x / &s"));
            c.eq(&(&x / &s), &want, || at("&x / &s"));
        }
    }};
}
macro_rules! divrun {
    ($T:ident, $c:expr, $n:expr) => {{
        for _ in 0..$c.reps($n) {
            let g = |c: &mut Ctx| {
                let re = <$T>::gen(c);
                let im = match c.below(5) {
                    0 => re,
                    1 => -re,
                    _ => <$T>::gen(c),
                };
                Complex::new(re, im)
            };
            let x = g($c);
            let y = match $c.below(6) {
                0 => x,
                1 => Complex::new(x.im, x.re),
                _ => g($c),
            };
            let s = match $c.below(6) {
                0 => x.re,
                _ => <$T>::gen($c),
            };
            divlaws!($T, $c, x, y, s);
        }
    }};
}

pub fn c03(c: &mut Ctx) {
    divrun!(Fp, c, 6000);
    divrun!(Fq, c, 3000);
    divrun!(F13, c, 3000);
    for a in 0..7u64 {
        for b in 0..7u64 {
            for d in 0..7u64 {
                for e in 0..7u64 {
                    divlaws!(F7, c, Complex::new(F7(a), F7(b)), Complex::new(F7(d), F7(e)), F7(d));
                }
            }
        }
    }
    // scalar division uses the coefficients' operator /, whatever it is
    for _ in 0..c.reps(2000) {
        let x = gen_c(c);
        let s = gen_nc(c);
        c.case(|| format!("x = {x:?} divided by a scalar s = {s:?} with a general operator /"));
        let want = Complex { re: ndiv(&x.re, &s), im: ndiv(&x.im, &s) };
        let at = |l: &str| format!("{l} with x = {x:?}, s = {s:?} (/ is a general operation)");
        c.eq(&(x.clone() / s.clone()), &want, || at("x / s"));
        c.eq(&(x.clone() / &s), &want, || at("x / &s"));
        c.eq(&(&x / &s), &want, || at("&x / &s"));
    }
    // floating point, with a generous tolerance
    let special: Vec<f64> = [0.0, 1.0, -1.0, 0.5, -3.0, 1e-3, 1e3, -1e5, 1e-5].iter().cloned().chain(c.fconsts.clone()).filter(|x: &f64| x.abs() < 1e8 && (x.abs() > 1e-8 || *x == 0.0)).collect();
    for _ in 0..c.reps(6000) {
        let g = |c: &mut Ctx| match c.below(3) {
            0 => *c.pick(&special),
            1 => *c.pick(&special) * (0.5 + c.unit()),
            _ => c.unit() * 20.0 - 10.0,
        };
        let x = Complex::new(g(c), g(c));
        let y = Complex::new(g(c), g(c));
        let s = g(c);
        c.case(|| format!("f64 division x = {x:?}, y = {y:?}, s = {s:?}"));
        let n = y.re * y.re + y.im * y.im;
        let xm = (x.re * x.re + x.im * x.im).sqrt();
        if n > 0.0 {
            for (l, q) in [("x / y", x / y), ("&x / &y", &x / &y)] {
                let (er, ei) = (q.re * y.re - q.im * y.im - x.re, q.re * y.im + q.im * y.re - x.im);
                c.check((er * er + ei * ei).sqrt() <= 64.0 * f64::EPSILON * xm, || format!("{l} = {q:?} in f64 with x = {x:?}, y = {y:?}: the quotient times y is off by ({er:e}, {ei:e})"));
            }
        }
        if s != 0.0 {
            for (l, q) in [("x / s", x / s), ("x / &s", x / &s), ("&x / &s", &x / &s)] {
                let e = (q.re - x.re / s).abs().max((q.im - x.im / s).abs());
                c.check(e <= 8.0 * f64::EPSILON * (x.re / s).abs().max((x.im / s).abs()), || format!("{l} = {q:?} in f64 with x = {x:?}, s = {s:?}"));
            }
        }
        let xf = Complex::new(x.re as f32, x.im as f32);
        let yf = Complex::new(y.re as f32, y.im as f32);
        let nf = yf.re * yf.re + yf.im * yf.im;
        let xm = (xf.re * xf.re + xf.im * xf.im).sqrt();
        if nf > 0.0 {
            for (l, q) in [("x / y", xf / yf), ("&x / &y", &xf / &yf)] {
                let (er, ei) = (q.re * yf.re - q.im * yf.im - xf.re, q.re * yf.im + q.im * yf.re - xf.im);
                c.check((er * er + ei * ei).sqrt() <= 64.0 * f32::EPSILON * xm, || format!("{l} = {q:?} in f32 with x = {xf:?}, y = {yf:?}: the quotient times y is off by ({er:e}, {ei:e})"));
            }
        }
    }
}

pub fn c04(c: &mut Ctx) {
    type C = Complex<Fp>;
    for _ in 0..c.reps(8000) {
        let a = Fp::gen(c);
        let b = match c.below(6) {
            0 => a,
            1 => -a,
            _ => Fp::gen(c),
        };
        let z: C = Complex::new(a, b);
        c.case(|| format!("elementary functions as uninterpreted functions mod {}: z = {z:?}", Fp::MOD));
        let at = |l: &str| format!("{l} at z = {z:?} (integers mod {} with arbitrary real functions)", Fp::MOD);
        let eq = |l: &str, got: C, re: Fp, im: Fp| c.eq(&got, &Complex { re, im }, || at(l));
        eq("exp", Exp::exp(z), a.exp() * b.cos(), a.exp() * b.sin());
        eq("sin", Sin::sin(z), a.sin() * b.cosh(), a.cos() * b.sinh());
        eq("cos", Cos::cos(z), a.cos() * b.cosh(), -(a.sin() * b.sinh()));
        eq("sinh", Sinh::sinh(z), a.sinh() * b.cos(), a.cosh() * b.sin());
        eq("cosh", Cosh::cosh(z), a.cosh() * b.cos(), a.sinh() * b.sin());
        let (s, k) = ((a.sin() * b.cosh(), a.cos() * b.sinh()), (a.cos() * b.cosh(), -(a.sin() * b.sinh())));
        let n = k.0 * k.0 + k.1 * k.1;
        if n.0 != 0 {
            eq("tan", Tan::tan(z), (s.0 * k.0 + s.1 * k.1) / n, (s.1 * k.0 - s.0 * k.1) / n);
        }
        let n = a * a + b * b;
        eq("ln", Ln::ln(z), Ln::ln(n) / Fp(2), b.atan2(a));
        c.eq(&Abs::abs(z), &n.sqrt(), || at("abs (by value)"));
        c.eq(&Abs::abs(&z), &n.sqrt(), || at("abs (by reference)"));
        c.eq(&z.arg(), &b.atan2(a), || at("arg"));
    }
    let special: Vec<f64> = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 1e-3, 1e-9, -1e-9, 10.0, -10.0, 20.0, std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, 1.5, 50.0, -50.0].iter().cloned().chain(c.fconsts.clone()).chain(c.consts.iter().map(|&x| x as f64)).filter(|x: &f64| x.abs() <= 80.0).collect();
    for _ in 0..c.reps(8000) {
        let g = |c: &mut Ctx| match c.below(4) {
            0 => *c.pick(&special),
            1 => *c.pick(&special) * (0.75 + c.unit() / 2.0),
            2 => c.unit() * 100.0 - 50.0,
            _ => c.unit() * 8.0 - 4.0,
        };
        let (a, b) = (g(c), g(c));
        float_fns64(c, a, b);
        float_fns32(c, a as f32, b as f32);
    }
}
macro_rules! floatfns {
    ($name:ident, $T:ident) => {
        fn $name(c: &mut Ctx, a: $T, b: $T) {
            let z = Complex::<$T>::new(a, b);
            c.case(|| format!("elementary functions in {}: z = {z:?}", stringify!($T)));
            let near = |l: &str, got: Complex<$T>, re: $T, im: $T, mag: $T| {
                let tol = 32.0 * $T::EPSILON;
                let ok = (got.re - re).abs() <= tol * re.abs().max(mag) && (got.im - im).abs() <= tol * im.abs().max(mag);
                if mag.is_finite() && re.is_finite() && im.is_finite() {
                    c.check(ok, || format!("{l} at z = {z:?} in {}: got {got:?}, expected ({re:e}, {im:e})", stringify!($T)));
                }
            };
            let tiny = $T::MIN_POSITIVE / $T::EPSILON;
            near("exp", Exp::exp(z), <$T>::exp(a) * <$T>::cos(b), <$T>::exp(a) * <$T>::sin(b), tiny);
            near("sin", Sin::sin(z), <$T>::sin(a) * <$T>::cosh(b), <$T>::cos(a) * <$T>::sinh(b), tiny);
            near("cos", Cos::cos(z), <$T>::cos(a) * <$T>::cosh(b), -(<$T>::sin(a) * <$T>::sinh(b)), tiny);
            near("sinh", Sinh::sinh(z), <$T>::sinh(a) * <$T>::cos(b), <$T>::cosh(a) * <$T>::sin(b), tiny);
            near("cosh", Cosh::cosh(z), <$T>::cosh(a) * <$T>::cos(b), <$T>::sinh(a) * <$T>::sin(b), tiny);
            let (s, k) = ((<$T>::sin(a) * <$T>::cosh(b), <$T>::cos(a) * <$T>::sinh(b)), (<$T>::cos(a) * <$T>::cosh(b), -(<$T>::sin(a) * <$T>::sinh(b))));
            let n = k.0 * k.0 + k.1 * k.1;
            if n > 1e-3 && n < 1e30 {
                let (tr, ti) = ((s.0 * k.0 + s.1 * k.1) / n, (s.1 * k.0 - s.0 * k.1) / n);
                let m = (s.0 * s.0 + s.1 * s.1).sqrt() / n.sqrt();
                near("tan", Tan::tan(z), tr, ti, m);
            }
            let n = a * a + b * b;
            if n > 1e-30 {
                near("ln", Ln::ln(z), <$T>::ln(n) / 2.0, <$T>::atan2(b, a), 1.0);
                near("abs", Complex::new(Abs::abs(z), Abs::abs(&z)), n.sqrt(), n.sqrt(), tiny);
            }
            // the branch cut and the signed zeros are those of atan2
            let (g, w) = (z.arg(), <$T>::atan2(b, a));
            c.check((g - w).abs() <= 4.0 * $T::EPSILON && (g.is_sign_negative() == w.is_sign_negative()), || format!("arg of {z:?} is {g:?}, expected {w:?}"));
            let g = Ln::ln(z).im;
            c.check((g - w).abs() <= 4.0 * $T::EPSILON && (g.is_sign_negative() == w.is_sign_negative()), || format!("imaginary part of ln of {z:?} is {g:?}, expected {w:?}"));
        }
    };
}
floatfns!(float_fns64, f64);
floatfns!(float_fns32, f32);

fn sqrt_rat(c: &mut Ctx, p: Rat, q: Rat) {
    // z = (p + q i)^2: every root taken inside is of a perfect square
    let z = Complex::new(p * p - q * q, (p + p) * q);
    c.case(|| format!("exact square root of z = {z:?} = ({p:?} + {q:?} i)^2"));
    let s = Sqrt::sqrt(&z);
    let ss = Complex { re: s.re * s.re - s.im * s.im, im: s.re * s.im + s.im * s.re };
    let zero = Rat(0, 1);
    let fits = |r: Rat| r.0.abs() < 1 << 20 && r.1 < 1 << 20;
    if !(fits(p) && fits(q)) {
        return;
    }
    c.eq(&ss, &z, || format!("sqrt of z = {z:?} (exact rationals n/d) is s = {s:?}; s*s must be z"));
    c.check(s.re >= zero, || format!("sqrt of z = {z:?} (exact rationals n/d) is {s:?}: negative real part"));
    c.check((s.im < zero) == (z.im < zero), || format!("sqrt of z = {z:?} (exact rationals n/d) is {s:?}: wrong sign of the imaginary part"));
}
macro_rules! sqrtf {
    ($name:ident, $T:ident) => {
        fn $name(c: &mut Ctx, a: $T, b: $T) {
            let z = Complex::<$T>::new(a, b);
            c.case(|| format!("sqrt in {}: z = {z:?}", stringify!($T)));
            let s = Sqrt::sqrt(&z);
            let m = (a * a + b * b).sqrt();
            // keep away from overflow and underflow of the squares
            if m != 0.0 && (!(m * m).is_finite() || m * m < $T::MIN_POSITIVE / $T::EPSILON || m > $T::MAX / 16.0) {
                return;
            }
            let (er, ei) = (s.re * s.re - s.im * s.im - a, 2.0 * s.re * s.im - b);
            let e = er.abs().max(ei.abs());
            c.check(e <= 24.0 * $T::EPSILON * m, || format!("sqrt of {z:?} in {} is {s:?}: its square is off by ({er:e}, {ei:e})", stringify!($T)));
            c.check(s.re >= 0.0, || format!("sqrt of {z:?} in {} is {s:?}: negative real part", stringify!($T)));
            c.check(s.im >= 0.0 || b < 0.0, || format!("sqrt of {z:?} in {} is {s:?}: negative imaginary part", stringify!($T)));
            // a negative imaginary part may only vanish by underflow
            c.check(!(b < 0.0) || s.im < 0.0 || (s.im == 0.0 && b.abs() / m < $T::MIN_POSITIVE), || format!("sqrt of {z:?} in {} is {s:?}: imaginary part must be negative", stringify!($T)));
        }
    };
}
sqrtf!(sqrt64, f64);
sqrtf!(sqrt32, f32);

pub fn c05(c: &mut Ctx) {
    let k = if c.thorough { 60 } else { 24 };
    for p in -k..=k {
        for q in -k..=k {
            sqrt_rat(c, Rat(p, 1), Rat(q, 1));
        }
    }
    for _ in 0..c.reps(4000) {
        let p = rat(c.below(400) as i128 - 200, 1 + c.below(40) as i128);
        let q = match c.below(8) {
            0 => Rat(0, 1),
            1 => p,
            2 => -p,
            _ => rat(c.below(400) as i128 - 200, 1 + c.below(40) as i128),
        };
        sqrt_rat(c, p, q);
    }
    for k in c.consts.clone() {
        if k.abs() < 1 << 16 {
            for d in -3..=3i128 {
                for (p, q) in [(k as i128, d), (d, k as i128), (k as i128, k as i128 + d)] {
                    sqrt_rat(c, Rat(p, 1), Rat(q, 1));
                }
            }
        }
    }
    let mut sp: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 4.0, 3.0, 1e-3, -1e-3, 1e-8, -1e-8, 1e3, -1e3, 1e6, 1e-15, -1e-15, 1e10, -1e10, 1e-12, 1e15];
    for f in c.fconsts.clone() {
        sp.push(f);
        sp.push(-f);
    }
    for k in c.consts.clone() {
        sp.push(k as f64);
        sp.push(-k as f64);
    }
    for &a in &sp {
        for &b in &sp {
            sqrt64(c, a, b);
            sqrt32(c, a as f32, b as f32);
        }
    }
    for _ in 0..c.reps(40000) {
        let mag = (c.unit() * 40.0 - 20.0).exp2();
        let (a, b) = match c.below(6) {
            // both sides of the case split |re| = 2 |im|, and of other slopes
            0 => {
                let r = (c.unit() * 2.0 - 1.0) * mag;
                let t = *c.pick(&[0.5, 0.25, 1.0, 2.0, 0.125]);
                let d = 1.0 + (c.below(9) as f64 - 4.0) * *c.pick(&[f64::EPSILON, 1e-7, 1e-2]);
                (r, r * t * d * if c.below(2) == 0 { 1.0 } else { -1.0 })
            }
            1 => (*c.pick(&sp), (c.unit() * 2.0 - 1.0) * mag),
            2 => ((c.unit() * 2.0 - 1.0) * mag, *c.pick(&sp)),
            // near the axes
            3 => ((c.unit() * 2.0 - 1.0) * mag, (c.unit() * 2.0 - 1.0) * mag * (-(c.unit() * 40.0)).exp2()),
            4 => ((c.unit() * 2.0 - 1.0) * mag * (-(c.unit() * 40.0)).exp2(), (c.unit() * 2.0 - 1.0) * mag),
            _ => ((c.unit() * 2.0 - 1.0) * mag, (c.unit() * 2.0 - 1.0) * mag),
        };
        sqrt64(c, a, b);
        sqrt32(c, a as f32, b as f32);
    }
}
