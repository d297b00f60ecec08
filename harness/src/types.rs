//! Coefficient types.
//!  Nc   2x2 matrices over a prime field: a ring that is not commutative
//!  Fp   prime field; Fx the same with uninterpreted elementary functions
//!  Rat  exact rationals with exact roots of perfect squares
use crate::ctx::Ctx;
use magnesia::algebra::{Conj, Field, Ring};
use magnesia::functions::*;
use std::ops::*;

pub const P: u64 = 2147483647;

fn md(x: i64) -> u64 {
    x.rem_euclid(P as i64) as u64
}

macro_rules! ops {
    ($T:ident, $add:expr, $sub:expr, $mul:expr, $div:expr, $neg:expr) => {
        ops!(@bin $T, Add, add, AddAssign, add_assign, $add);
        ops!(@bin $T, Sub, sub, SubAssign, sub_assign, $sub);
        ops!(@bin $T, Mul, mul, MulAssign, mul_assign, $mul);
        ops!(@bin $T, Div, div, DivAssign, div_assign, $div);
        impl Neg for $T { type Output = $T; fn neg(self) -> $T { ($neg)(&self) } }
        impl<'a> Neg for &'a $T { type Output = $T; fn neg(self) -> $T { ($neg)(self) } }
    };
    (@bin $T:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $e:expr) => {
        impl $Tr<$T> for $T { type Output = $T; fn $f(self, o: $T) -> $T { ($e)(&self, &o) } }
        impl<'a> $Tr<&'a $T> for $T { type Output = $T; fn $f(self, o: &'a $T) -> $T { ($e)(&self, o) } }
        impl<'a> $Tr<$T> for &'a $T { type Output = $T; fn $f(self, o: $T) -> $T { ($e)(self, &o) } }
        impl<'a, 'b> $Tr<&'b $T> for &'a $T { type Output = $T; fn $f(self, o: &'b $T) -> $T { ($e)(self, o) } }
        impl $TrA<$T> for $T { fn $fa(&mut self, o: $T) { *self = ($e)(&*self, &o); } }
        impl<'a> $TrA<&'a $T> for $T { fn $fa(&mut self, o: &'a $T) { *self = ($e)(&*self, o); } }
    };
}

/// How an `Nc` is stored; another representation than the usual one is built when the source
/// under test asks about the size or the destructor of a type.
mod rep {
    macro_rules! ints {
        ($p:expr, $R:ty, $put:expr, $get:expr) => {
            pub const PN: u64 = $p;
            pub type Rep = $R;
            pub fn put(a: [u64; 4]) -> Rep {
                ($put)(a)
            }
            pub fn get(r: &Rep) -> [u64; 4] {
                ($get)(r)
            }
        };
    }
    #[cfg(feature = "rep0")]
    ints!(1, (), |_a| (), |_r| [0; 4]);
    #[cfg(feature = "rep1")]
    ints!(2, u8, |a: [u64; 4]| (a[0] | a[1] << 1 | a[2] << 2 | a[3] << 3) as u8, |r: &u8| [0, 1, 2, 3].map(|k| (*r >> k & 1) as u64));
    #[cfg(feature = "rep2")]
    ints!(13, u16, |a: [u64; 4]| (a[0] | a[1] << 4 | a[2] << 8 | a[3] << 12) as u16, |r: &u16| [0, 4, 8, 12].map(|k| (*r >> k & 15) as u64));
    #[cfg(feature = "rep4")]
    ints!(251, [u8; 4], |a: [u64; 4]| a.map(|x| x as u8), |r: &[u8; 4]| r.map(|x| x as u64));
    #[cfg(feature = "rep8")]
    ints!(65521, [u16; 4], |a: [u64; 4]| a.map(|x| x as u16), |r: &[u16; 4]| r.map(|x| x as u64));
    #[cfg(feature = "rep16")]
    ints!(2147483647, [u32; 4], |a: [u64; 4]| a.map(|x| x as u32), |r: &[u32; 4]| r.map(|x| x as u64));
    #[cfg(feature = "repbig")]
    ints!(2147483647, [u64; 40], |a: [u64; 4]| std::array::from_fn(|i| a[i % 4]), |r: &[u64; 40]| [r[36], r[37], r[38], r[39]]);
    #[cfg(feature = "repbox")]
    ints!(2147483647, Box<[u64; 4]>, |a: [u64; 4]| Box::new(a), |r: &Box<[u64; 4]>| **r);
    #[cfg(not(any(feature = "rep0", feature = "rep1", feature = "rep2", feature = "rep4", feature = "rep8", feature = "rep16", feature = "repbig", feature = "repbox")))]
    ints!(2147483647, [u64; 4], |a: [u64; 4]| a, |r: &[u64; 4]| *r);
}
use rep::PN;
#[derive(Clone, PartialEq, Eq)]
pub struct Nc(rep::Rep);
pub fn nc(a: [u64; 4]) -> Nc {
    Nc(rep::put(a.map(|x| x % PN)))
}
impl Nc {
    fn g(&self) -> [u64; 4] {
        rep::get(&self.0)
    }
}
fn mdn(x: i64) -> u64 {
    x.rem_euclid(PN as i64) as u64
}
impl std::fmt::Debug for Nc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let a = self.g();
        if a[1] == 0 && a[2] == 0 && a[0] == a[3] {
            write!(f, "{}", sh(a[0]))
        } else {
            write!(f, "[{} {};{} {}]", sh(a[0]), sh(a[1]), sh(a[2]), sh(a[3]))
        }
    }
}
fn sh(x: u64) -> i64 {
    if x > PN / 2 {
        x as i64 - PN as i64
    } else {
        x as i64
    }
}
impl From<i8> for Nc {
    fn from(x: i8) -> Nc {
        let v = mdn(x as i64);
        nc([v, 0, 0, v])
    }
}
pub fn nadd(a: &Nc, b: &Nc) -> Nc {
    let (a, b) = (a.g(), b.g());
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = a[i] + b[i];
    }
    nc(r)
}
pub fn nsub(a: &Nc, b: &Nc) -> Nc {
    let (a, b) = (a.g(), b.g());
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = a[i] + PN - b[i];
    }
    nc(r)
}
pub fn nneg(a: &Nc) -> Nc {
    nsub(&nc([0; 4]), a)
}
pub fn nmul(a: &Nc, b: &Nc) -> Nc {
    let (a, b) = (a.g(), b.g());
    nc([a[0] * b[0] % PN + a[1] * b[2] % PN, a[0] * b[1] % PN + a[1] * b[3] % PN, a[2] * b[0] % PN + a[3] * b[2] % PN, a[2] * b[1] % PN + a[3] * b[3] % PN])
}
/// Not a division, but an operation that is neither symmetric nor linear:
/// used where only "the operator / of the coefficients" is specified.
pub fn ndiv(a: &Nc, b: &Nc) -> Nc {
    let s = nc([3, 1, 4, 1]);
    nadd(&nmul(a, &nadd(&nmul(b, b), &s)), &nmul(&s, b))
}
pub fn nconj(a: &Nc) -> Nc {
    let a = a.g();
    nc([a[3], a[2], PN - a[1], a[0]])
}
ops!(Nc, nadd, nsub, nmul, ndiv, nneg);
impl Conj for Nc {
    fn conj(self) -> Nc {
        nconj(&self)
    }
}
impl Ring for Nc {}
pub fn n0() -> Nc {
    nc([0; 4])
}
pub fn n1() -> Nc {
    nc([1, 0, 0, 1])
}

pub fn gen_nc(c: &mut Ctx) -> Nc {
    match c.below(16) {
        0 => n0(),
        1 => n1(),
        2 => nneg(&n1()),
        3 => {
            let v = mdn(c.below(9) as i64 - 4);
            nc([v, 0, 0, v])
        }
        4 => nc([0, 1, 0, 0]),
        5 => {
            let v: Vec<u64> = (0..4).map(|_| mdn(c.below(5) as i64 - 2)).collect();
            nc([v[0], v[1], v[2], v[3]])
        }
        6 if !c.consts.is_empty() => {
            let k = c.consts.clone();
            let v = mdn(*c.pick(&k));
            nc([v, 0, 0, v])
        }
        _ => {
            let v: Vec<u64> = (0..4).map(|_| c.below(P)).collect();
            nc([v[0], v[1], v[2], v[3]])
        }
    }
}
/// a generic (almost surely regular, non-scalar) element
pub fn gen_nc_big(c: &mut Ctx) -> Nc {
    let v: Vec<u64> = (0..4).map(|_| c.below(P)).collect();
    nc([v[0], v[1], v[2], v[3]])
}
pub fn vec_nc(c: &mut Ctx, n: usize) -> Vec<Nc> {
    // some vectors generic throughout, some with special values
    match c.below(6) {
        0 => (0..n).map(|_| gen_nc(c)).collect(),
        1 => {
            let x = gen_nc(c);
            (0..n).map(|_| x.clone()).collect()
        }
        2 => {
            let z = gen_nc_big(c);
            (0..n).map(|_| if c.below(3) == 0 { z.clone() } else { n0() }).collect()
        }
        _ => (0..n).map(|_| gen_nc_big(c)).collect(),
    }
}
pub fn arr_nc<const N: usize>(c: &mut Ctx) -> [Nc; N] {
    vec_nc(c, N).try_into().unwrap()
}
pub fn mat_nc<const R: usize, const C: usize>(c: &mut Ctx) -> [[Nc; C]; R] {
    let m = c.below(4);
    let v = if m == 0 { vec_nc(c, R * C) } else { (0..R * C).map(|_| gen_nc_big(c)).collect() };
    let mut it = v.into_iter();
    let rows: Vec<[Nc; C]> = (0..R)
        .map(|_| {
            let row: Vec<Nc> = (0..C).map(|_| it.next().unwrap()).collect();
            row.try_into().unwrap()
        })
        .collect();
    rows.try_into().unwrap()
}

// ---------------------------------------------------------------- fields
macro_rules! field {
    ($T:ident, $p:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd)]
        pub struct $T(pub u64);
        impl std::fmt::Debug for $T {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}", if self.0 > $p / 2 { self.0 as i64 - $p as i64 } else { self.0 as i64 })
            }
        }
        impl From<i8> for $T {
            fn from(x: i8) -> $T {
                $T((x as i64).rem_euclid($p as i64) as u64)
            }
        }
        impl $T {
            pub const MOD: u64 = $p;
            pub fn inv(self) -> $T {
                let mut e = $p - 2;
                let mut b = self.0;
                let mut r = 1u64;
                while e > 0 {
                    if e & 1 == 1 {
                        r = r * b % $p;
                    }
                    b = b * b % $p;
                    e >>= 1;
                }
                $T(r)
            }
            pub fn gen(c: &mut Ctx) -> $T {
                match c.below(8) {
                    0 => $T(0),
                    1 => $T(1),
                    2 => $T($p - 1),
                    3 => $T((c.below(9) as i64 - 4).rem_euclid($p as i64) as u64),
                    _ => $T(c.below($p)),
                }
            }
        }
        ops!($T, |a: &$T, b: &$T| $T((a.0 + b.0) % $p), |a: &$T, b: &$T| $T((a.0 + $p - b.0) % $p), |a: &$T, b: &$T| $T(a.0 * b.0 % $p), |a: &$T, b: &$T| $T(a.0 * b.inv().0 % $p), |a: &$T| $T(($p - a.0) % $p));
        impl Ring for $T {}
        impl Field for $T {}
        impl Conj for $T {
            fn conj(self) -> $T {
                self
            }
        }
    };
}
field!(Fp, 2147483647u64); // = 3 mod 4: the squared norm vanishes only at 0
field!(Fq, 2147483629u64); // = 1 mod 4: zero norms occur
field!(F7, 7u64);
field!(F13, 13u64);

pub fn mix(k: u64, x: u64, y: u64) -> Fp {
    let mut z = k.wrapping_mul(0x9E3779B97F4A7C15) ^ x.wrapping_mul(0xD6E8FEB86659FD93) ^ y.rotate_left(29).wrapping_mul(0xA0761D6478BD642F);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
    z = (z ^ (z >> 32)).wrapping_mul(0xD6E8FEB86659FD93);
    Fp((z ^ (z >> 32)) % P)
}
macro_rules! hashfn {
    ($($Tr:ident $f:ident $k:expr),*) => { $(impl $Tr for Fp { fn $f(self) -> Fp { mix($k, self.0, 0) } })* };
}
hashfn!(Sin sin 1, Cos cos 2, Sinh sinh 3, Cosh cosh 4, Exp exp 5, Ln ln 6, Tan tan 8, Asin asin 9);
impl Sqrt for Fp {
    fn sqrt(&self) -> Fp {
        mix(7, self.0, 0)
    }
}
impl Atan2 for Fp {
    fn atan2(self, o: Fp) -> Fp {
        mix(10, self.0, o.0.wrapping_add(77))
    }
}

// ------------------------------------------------------------- rationals
/// d == 0 marks an undefined value, which is unequal to everything.
#[derive(Clone, Copy, Debug)]
pub struct Rat(pub i128, pub i128);
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
pub fn rat(n: i128, d: i128) -> Rat {
    if d == 0 {
        return Rat(0, 0);
    }
    let g = gcd(n, d);
    let s = if d < 0 { -1 } else { 1 };
    Rat(s * n / g, s * d / g)
}
const LIM: i128 = 1 << 60;
fn lim(r: Rat) -> Rat {
    if r.0.abs() > LIM || r.1 > LIM {
        Rat(0, 0)
    } else {
        r
    }
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        self.1 != 0 && self.0 == o.0 && self.1 == o.1
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<std::cmp::Ordering> {
        if self.1 == 0 || o.1 == 0 {
            return None;
        }
        (self.0 * o.1).partial_cmp(&(o.0 * self.1))
    }
}
impl From<i8> for Rat {
    fn from(x: i8) -> Rat {
        Rat(x as i128, 1)
    }
}
fn und(a: &Rat, b: &Rat) -> bool {
    a.1 == 0 || b.1 == 0
}
ops!(
    Rat,
    |a: &Rat, b: &Rat| if und(a, b) { Rat(0, 0) } else { lim(rat(a.0 * b.1 + b.0 * a.1, a.1 * b.1)) },
    |a: &Rat, b: &Rat| if und(a, b) { Rat(0, 0) } else { lim(rat(a.0 * b.1 - b.0 * a.1, a.1 * b.1)) },
    |a: &Rat, b: &Rat| if und(a, b) { Rat(0, 0) } else { lim(rat(a.0 * b.0, a.1 * b.1)) },
    |a: &Rat, b: &Rat| if und(a, b) || b.0 == 0 { Rat(0, 0) } else { lim(rat(a.0 * b.1, a.1 * b.0)) },
    |a: &Rat| Rat(-a.0, a.1)
);
impl Ring for Rat {}
impl Abs for Rat {
    type Output = Rat;
    fn abs(self) -> Rat {
        Rat(self.0.abs(), self.1)
    }
}
impl Abs for &Rat {
    type Output = Rat;
    fn abs(self) -> Rat {
        Rat(self.0.abs(), self.1)
    }
}
fn isqrt(n: i128) -> Option<i128> {
    if n < 0 {
        return None;
    }
    let mut r = (n as f64).sqrt() as i128;
    while r * r > n {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= n {
        r += 1;
    }
    if r * r == n {
        Some(r)
    } else {
        None
    }
}
impl Sqrt for Rat {
    fn sqrt(&self) -> Rat {
        if self.1 == 0 {
            return *self;
        }
        match (isqrt(self.0), isqrt(self.1)) {
            (Some(a), Some(b)) => Rat(a, b),
            _ => Rat(0, 0),
        }
    }
}
