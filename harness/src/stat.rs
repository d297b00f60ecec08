//! Fixed-size vectors and matrices.
use crate::ctx::Ctx;
use crate::types::*;
use magnesia::algebra::*;
use magnesia::linalg::*;
use std::panic::{catch_unwind, AssertUnwindSafe};


include!(concat!(env!("OUT_DIR"), "/dims.rs"));

fn v<const N: usize>(f: impl FnMut(usize) -> Nc) -> [Nc; N] {
    std::array::from_fn(f)
}

fn c09_dim<const N: usize>(c: &mut Ctx) {
    let reps = if N <= 8 { 40 } else { 8 };
    for _ in 0..c.reps(reps) {
        let a = arr_nc::<N>(c);
        let b = if c.below(5) == 0 { a.clone() } else { arr_nc::<N>(c) };
        let s = gen_nc(c);
        c.case(|| format!("SVector<_, {N}>: a = {a:?}, b = {b:?}, s = {s:?}"));
        let at = |l: &str| format!("{l} in dimension {N} for a = {a:?}, b = {b:?}, s = {s:?}");
        let (sa, sb) = (SVector::<Nc, N>::from(a.clone()), SVector::<Nc, N>::from(b.clone()));
        c.eq(&sa.0, &a, || at("from"));
        let add: [Nc; N] = v(|i| nadd(&a[i], &b[i]));
        let sub: [Nc; N] = v(|i| nsub(&a[i], &b[i]));
        let scl: [Nc; N] = v(|i| nmul(&a[i], &s));
        let mut dot = n0();
        for i in 0..N {
            dot = nadd(&dot, &nmul(&a[i], &b[i]));
        }
        c.eq(&(sa.clone() + sb.clone()).0, &add, || at("a + b"));
        c.eq(&(sa.clone() + &sb).0, &add, || at("a + &b"));
        let mut r = sa.clone();
        r += sb.clone();
        c.eq(&r.0, &add, || at("a += b"));
        let mut r = sa.clone();
        r += &sb;
        c.eq(&r.0, &add, || at("a += &b"));
        c.eq(&(sa.clone() - sb.clone()).0, &sub, || at("a - b"));
        c.eq(&(sa.clone() - &sb).0, &sub, || at("a - &b"));
        let mut r = sa.clone();
        r -= sb.clone();
        c.eq(&r.0, &sub, || at("a -= b"));
        let mut r = sa.clone();
        r -= &sb;
        c.eq(&r.0, &sub, || at("a -= &b"));
        c.eq(&(sa.clone() * s.clone()).0, &scl, || at("a * s"));
        c.eq(&(sa.clone() * &s).0, &scl, || at("a * &s"));
        let mut r = sa.clone();
        r *= s.clone();
        c.eq(&r.0, &scl, || at("a *= s"));
        let mut r = sa.clone();
        r *= &s;
        c.eq(&r.0, &scl, || at("a *= &s"));
        c.eq(&(sa.clone() * sb.clone()), &dot, || at("a * b (dot product)"));
        c.eq(&(sa.clone() * &sb), &dot, || at("a * &b (dot product)"));
        c.eq(&SVector::<Nc, N>::zero().0, &v::<N>(|_| n0()), || at("zero()"));
        // indexing and iteration
        for i in 0..N {
            c.eq(&sa[i], &a[i], || at(&format!("a[{i}]")));
            let mut r = sa.clone();
            r[i] = s.clone();
            let want: [Nc; N] = v(|j| if i == j { s.clone() } else { a[j].clone() });
            c.eq(&r.0, &want, || at(&format!("a[{i}] = s")));
        }
        let got: Vec<Nc> = sa.clone().into_iter().collect();
        c.eq(&got, &a.to_vec(), || at("iteration by value"));
        let got: Vec<Nc> = (&sa).into_iter().cloned().collect();
        c.eq(&got, &a.to_vec(), || at("iteration by reference"));
        let mut r = sa.clone();
        let got: Vec<Nc> = (&mut r).into_iter().map(|x| x.clone()).collect();
        c.eq(&got, &a.to_vec(), || at("mutable iteration"));
        if N > 0 {
            let k = c.below(N as u64) as usize;
            let mut r = sa.clone();
            for (i, x) in (&mut r).into_iter().enumerate() {
                if i == k {
                    *x = s.clone();
                }
            }
            let want: [Nc; N] = v(|j| if j == k { s.clone() } else { a[j].clone() });
            c.eq(&r.0, &want, || at(&format!("writing component {k} through mutable iteration")));
        }
        c.eq(&sa.0, &a, || at("a changed"));
        c.eq(&sb.0, &b, || at("b changed"));
    }
    for i in [N, N + 1, 2 * N + 1, usize::MAX] {
        let a = SVector::<Nc, N>::from(arr_nc::<N>(c));
        c.panics(|| a[i].clone(), || format!("SVector<_, {N}> indexed with {i}"));
        let mut b = a.clone();
        c.panics(|| b[i] = n1(), || format!("SVector<_, {N}> mutably indexed with {i}"));
    }
}
#[cfg(feature = "c09")]
pub fn c09(c: &mut Ctx) {
    each_dim!(c09_dim, c);
}

fn mt<const R: usize, const C: usize>(mut f: impl FnMut(usize, usize) -> Nc) -> [[Nc; C]; R] {
    std::array::from_fn(|i| std::array::from_fn(|j| f(i, j)))
}
fn sm<const R: usize, const C: usize>(a: &[[Nc; C]; R]) -> SMatrix<Nc, R, C> {
    SMatrix::from(a.clone())
}
fn ts(mut s: String) -> String {
    if s.len() > 1200 {
        s.truncate(1200);
        s.push_str("...");
    }
    s
}

fn c10_shape<const R: usize, const C: usize>(c: &mut Ctx) {
    let reps = if R * C <= 36 { 12 } else { 3 };
    for _ in 0..c.reps(reps) {
        let a = mat_nc::<R, C>(c);
        let b = if c.below(5) == 0 { a.clone() } else { mat_nc::<R, C>(c) };
        c.case(|| ts(format!("SMatrix<_, {R}, {C}>: a = {a:?}, b = {b:?}")));
        let at = |l: &str| ts(format!("{l} in shape {R}x{C} for a = {a:?}, b = {b:?}"));
        let (sa, sb) = (sm(&a), sm(&b));
        let add = sm(&mt::<R, C>(|i, j| nadd(&a[i][j], &b[i][j])));
        let sub = sm(&mt::<R, C>(|i, j| nsub(&a[i][j], &b[i][j])));
        let neg = sm(&mt::<R, C>(|i, j| nneg(&a[i][j])));
        let con = sm(&mt::<R, C>(|i, j| nconj(&a[i][j])));
        c.eq(&(sa.clone() + sb.clone()), &add, || at("a + b"));
        c.eq(&(sa.clone() + &sb), &add, || at("a + &b"));
        let mut r = sa.clone();
        r += sb.clone();
        c.eq(&r, &add, || at("a += b"));
        let mut r = sa.clone();
        r += &sb;
        c.eq(&r, &add, || at("a += &b"));
        c.eq(&(sa.clone() - sb.clone()), &sub, || at("a - b"));
        c.eq(&(sa.clone() - &sb), &sub, || at("a - &b"));
        let mut r = sa.clone();
        r -= sb.clone();
        c.eq(&r, &sub, || at("a -= b"));
        let mut r = sa.clone();
        r -= &sb;
        c.eq(&r, &sub, || at("a -= &b"));
        c.eq(&(-sa.clone()), &neg, || at("-a"));
        c.eq(&sa.clone().conj(), &con, || at("a.conj()"));
        c.eq(&SMatrix::<Nc, R, C>::zero(), &sm(&mt::<R, C>(|_, _| n0())), || at("zero()"));
        c.eq(&SMatrix::<Nc, R, C>::one(), &sm(&mt::<R, C>(|i, j| if i == j { n1() } else { n0() })), || at("one()"));
        c.eq(&sa, &sm(&a), || at("a changed"));
        c.eq(&sb, &sm(&b), || at("b changed"));
    }
}
#[cfg(feature = "c10")]
pub fn c10(c: &mut Ctx) {
    each_shape!(c10_shape, c);
}

fn prod<const L: usize, const M: usize, const N: usize>(a: &[[Nc; M]; L], b: &[[Nc; N]; M]) -> [[Nc; N]; L] {
    mt::<L, N>(|i, j| {
        let mut s = n0();
        for k in 0..M {
            s = nadd(&s, &nmul(&a[i][k], &b[k][j]));
        }
        s
    })
}
fn c11_triple<const L: usize, const M: usize, const N: usize>(c: &mut Ctx) {
    let reps = if L * M * N <= 64 { 6 } else { 2 };
    for _ in 0..c.reps(reps) {
        let a = mat_nc::<L, M>(c);
        let b = mat_nc::<M, N>(c);
        let x = arr_nc::<M>(c);
        c.case(|| ts(format!("product {L}x{M} by {M}x{N}: a = {a:?}, b = {b:?}, v = {x:?}")));
        let at = |l: &str| ts(format!("{l} for L, M, N = {L}, {M}, {N}, a = {a:?}, b = {b:?}, v = {x:?}"));
        let want = sm(&prod(&a, &b));
        let (sa, sb) = (sm(&a), sm(&b));
        c.eq(&(&sa * &sb), &want, || at("&a * &b"));
        c.eq(&(sa.clone() * sb.clone()), &want, || at("a * b"));
        let wv: [Nc; L] = v(|i| {
            let mut s = n0();
            for k in 0..M {
                s = nadd(&s, &nmul(&a[i][k], &x[k]));
            }
            s
        });
        let sx = SVector::<Nc, M>::from(x.clone());
        c.eq(&(&sa * &sx).0, &wv, || at("&a * &v"));
        let sq = mat_nc::<M, M>(c);
        let want = sm(&prod(&a, &sq));
        let ss = sm(&sq);
        let mut r = sa.clone();
        r *= &ss;
        c.eq(&r, &want, || at(&format!("a *= &s with s = {sq:?}")));
        let mut r = sa.clone();
        r *= ss;
        c.eq(&r, &want, || at(&format!("a *= s with s = {sq:?}")));
        c.eq(&sa, &sm(&a), || at("a changed"));
        c.eq(&sb, &sm(&b), || at("b changed"));
    }
}
fn c11_sq<const N: usize>(c: &mut Ctx) {
    for _ in 0..c.reps(2) {
        let a = mat_nc::<N, N>(c);
        c.case(|| ts(format!("square of {a:?}")));
        let want = sm(&prod(&a, &a));
        let sa = sm(&a);
        c.eq(&(&sa * &sa), &want, || ts(format!("&a * &a for a = {a:?}")));
        c.eq(&sa.mul_refs(&sa), &want, || ts(format!("a.mul_refs(&a) for a = {a:?}")));
    }
}
#[cfg(feature = "c11")]
pub fn c11(c: &mut Ctx) {
    each_triple!(c11_triple, c);
    each_square!(c11_sq, c);
}

fn c12_n<const N: usize>(c: &mut Ctx) {
    let reps = if N <= 5 { 40 } else { 4 };
    for _ in 0..c.reps(reps) {
        let (x, y, z) = (mat_nc::<N, N>(c), mat_nc::<N, N>(c), mat_nc::<N, N>(c));
        c.case(|| ts(format!("ring laws for {N}x{N}: a = {x:?}, b = {y:?}, c = {z:?}")));
        let at = |l: &str| ts(format!("{l} for {N}x{N} matrices a = {x:?}, b = {y:?}, c = {z:?}"));
        let (a, b, d) = (sm(&x), sm(&y), sm(&z));
        let (zero, one) = (SMatrix::<Nc, N, N>::zero(), SMatrix::<Nc, N, N>::one());
        c.eq(&((a.clone() + &b) + &d), &(a.clone() + (b.clone() + &d)), || at("(a+b)+c = a+(b+c)"));
        c.eq(&(a.clone() + b.clone()), &(b.clone() + a.clone()), || at("a+b = b+a"));
        c.eq(&(a.clone() + zero.clone()), &a, || at("a+0 = a"));
        c.eq(&(zero.clone() + a.clone()), &a, || at("0+a = a"));
        c.eq(&(a.clone() + (-a.clone())), &zero, || at("a+(-a) = 0"));
        c.eq(&(a.clone() - a.clone()), &zero, || at("a-a = 0"));
        c.eq(&(&(&a * &b) * &d), &(&a * &(&b * &d)), || at("(ab)c = a(bc)"));
        c.eq(&(&a * &one), &a, || at("a*1 = a"));
        c.eq(&(&one * &a), &a, || at("1*a = a"));
        c.eq(&(&a * &(b.clone() + &d)), &((&a * &b) + (&a * &d)), || at("a(b+c) = ab+ac"));
        c.eq(&(&(a.clone() + &b) * &d), &((&a * &d) + (&b * &d)), || at("(a+b)c = ac+bc"));
        c.check(a == a.clone() && !(a != a.clone()), || at("a == a"));
        c.check(N == 0 || (zero != one), || at("0 differs from 1"));
    }
}
#[cfg(feature = "c12")]
pub fn c12(c: &mut Ctx) {
    each_square!(c12_n, c);
    // nested: 2x2 matrices over 2x2 matrices and over complex numbers
    for _ in 0..c.reps(200) {
        type M2 = SMatrix<Nc, 2, 2>;
        let g = |c: &mut Ctx| -> [[M2; 2]; 2] { std::array::from_fn(|_| std::array::from_fn(|_| sm(&mat_nc::<2, 2>(c)))) };
        let (x, y, z) = (g(c), g(c), g(c));
        c.case(|| ts(format!("ring laws for 2x2 matrices of 2x2 matrices a = {x:?}, b = {y:?}, c = {z:?}")));
        let at = |l: &str| ts(format!("{l} for 2x2 matrices of 2x2 matrices a = {x:?}, b = {y:?}, c = {z:?}"));
        let (a, b, d) = (SMatrix::from(x.clone()), SMatrix::from(y.clone()), SMatrix::from(z.clone()));
        c.eq(&(&(&a * &b) * &d), &(&a * &(&b * &d)), || at("(ab)c = a(bc)"));
        c.eq(&(&a * &(b.clone() + &d)), &((&a * &b) + (&a * &d)), || at("a(b+c) = ab+ac"));
        c.eq(&(&a * &SMatrix::one()), &a, || at("a*1 = a"));
        c.eq(&(a.clone() + (-a.clone())), &SMatrix::zero(), || at("a+(-a) = 0"));
    }
    let _ = catch_unwind(AssertUnwindSafe(|| ()));
}
