//! C16 - C20: dynamic matrices.
use crate::ctx::Ctx;
use crate::dynv::{dv, shv};
use crate::types::*;
use magnesia::linalg::*;


include!(concat!(env!("OUT_DIR"), "/dims.rs"));

/// rows, columns, entries row by row
#[derive(Clone, PartialEq)]
pub struct M(pub usize, pub usize, pub Vec<Nc>);
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({}x{}) {}", self.0, self.1, shv(&self.2))
    }
}
impl M {
    fn at(&self, i: usize, j: usize) -> &Nc {
        &self.2[i * self.1 + j]
    }
    fn mk(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> Nc) -> M {
        let mut v = vec![];
        for i in 0..r {
            for j in 0..c {
                v.push(f(i, j));
            }
        }
        M(r, c, v)
    }
    fn map(&self, f: impl Fn(&Nc) -> Nc) -> M {
        M(self.0, self.1, self.2.iter().map(f).collect())
    }
    fn zip(&self, o: &M, f: impl Fn(&Nc, &Nc) -> Nc) -> M {
        M(self.0, self.1, self.2.iter().zip(&o.2).map(|(x, y)| f(x, y)).collect())
    }
    /// a user-defined expression with all default methods
    fn user(&self) -> UserM {
        UserM(self.clone())
    }
    /// a dynamic matrix, through the default eval
    fn dm(&self) -> DMatrix<Nc> {
        self.user().eval()
    }
}
pub struct UserM(M);
impl MatrixExpr for UserM {
    type Entry = Nc;
    fn entry(&self, row: usize, col: usize) -> Nc {
        assert!(row < self.0 .0 && col < self.0 .1);
        self.0.at(row, col).clone()
    }
    fn num_rows(&self) -> usize {
        self.0 .0
    }
    fn num_cols(&self) -> usize {
        self.0 .1
    }
}
fn gen_m(c: &mut Ctx, r: usize, k: usize) -> M {
    M(r, k, vec_nc(c, r * k))
}
fn is_dm(c: &Ctx, d: &DMatrix<Nc>, w: &M, l: &dyn Fn() -> String) {
    c.check(MatrixExpr::num_rows(d) == w.0 && MatrixExpr::num_cols(d) == w.1, || format!("{}: shape {}x{} instead of {}x{}", l(), MatrixExpr::num_rows(d), MatrixExpr::num_cols(d), w.0, w.1));
    for i in 0..w.0 {
        for j in 0..w.1 {
            c.eq(&d[[i, j]], w.at(i, j), || format!("{}: entry ({i},{j})", l()));
        }
    }
}
fn ex<E: MatrixExpr<Entry = Nc>>(c: &Ctx, mk: impl Fn() -> E, w: &M, l: &str, inp: &dyn Fn() -> String) {
    let at = || format!("{l}, {}", inp());
    let e = mk();
    c.check(e.num_rows() == w.0 && e.num_cols() == w.1, || format!("{}: shape {}x{} instead of {}x{}", at(), e.num_rows(), e.num_cols(), w.0, w.1));
    for i in 0..w.0 {
        for j in 0..w.1 {
            c.eq(&e.entry(i, j), w.at(i, j), || format!("{}: entry({i}, {j})", at()));
        }
    }
    is_dm(c, &e.eval(), w, &|| format!("eval() of {}", at()));
    let e = mk().wrap();
    c.check(e.num_rows() == w.0 && e.num_cols() == w.1, || format!("{} wrapped: shape {}x{} instead of {}x{}", at(), e.num_rows(), e.num_cols(), w.0, w.1));
    for i in 0..w.0 {
        for j in 0..w.1 {
            c.eq(&e.entry(i, j), w.at(i, j), || format!("{} wrapped: entry({i}, {j})", at()));
        }
    }
    is_dm(c, &e.wrap().eval().eval(), w, &|| format!("eval() of {} wrapped twice and evaluated twice", at()));
}
fn shapes(c: &Ctx) -> Vec<(usize, usize)> {
    let mut s = vec![];
    for r in 0..=7 {
        for k in 0..=7 {
            s.push((r, k));
        }
    }
    s.extend([(8, 8), (9, 9), (10, 10), (8, 9), (16, 16), (17, 17), (16, 3), (3, 17), (32, 32), (33, 31), (1, 33), (33, 1), (2, 64), (64, 2), (65, 1), (1, 65), (1, 100), (100, 1), (0, 40), (40, 0), (1, 128), (130, 1)]);
    for n in c.lens(&[], 1100) {
        s.extend([(n, 2), (2, n), (n, 1), (1, n), (n, 0), (0, n), (n, 3), (3, n)]);
        if n <= 70 {
            s.extend([(n, n), (n, n + 1), (n + 1, n)]);
        }
        // products of the two sizes that hit the constant
        for d in 1..=12 {
            if n % d == 0 {
                s.push((d, n / d));
                s.push((n / d, d));
            }
        }
    }
    s.sort();
    s.dedup();
    s
}
fn f(x: Nc) -> Nc {
    nadd(&nmul(&nc([2, 3, 5, 7]), &x), &nmul(&x, &x))
}
fn reps(c: &Ctx, r: usize, k: usize) -> usize {
    c.reps(if r * k <= 64 { 6 } else { 1 })
}

fn arr_shape<const R: usize, const C: usize>(c: &mut Ctx) {
    for _ in 0..c.reps(2) {
        let a = mat_nc::<R, C>(c);
        let w = M(R, C, a.iter().flatten().cloned().collect());
        c.case(|| format!("nested array {R}x{C} {w:?}"));
        let inp = || format!("a = {w:?}");
        ex(c, || a.clone(), &w, "nested array a", &inp);
        let d = a.clone().eval();
        ex(c, || d.clone(), &w, "owned matrix a", &inp);
        let wr = a.clone().wrap();
        is_dm(c, &wr.eval(), &w, &|| format!("wrapped array evaluated, {}", inp()));
        oob(c, &a.clone(), R, C, "nested array");
        oob(c, &a.clone().wrap(), R, C, "wrapped nested array");
    }
}
fn positions(r: usize, k: usize) -> Vec<(usize, usize)> {
    let mut v = vec![(r, 0), (r, k), (r + 1, 0), (r + 7, k / 2), (usize::MAX, 0), (usize::MAX, k), (usize::MAX, usize::MAX), (0, usize::MAX)];
    if k > 0 {
        v.extend([(r, k - 1), (usize::MAX / k, 0), ((usize::MAX / k).wrapping_add(1), 0), ((usize::MAX / k).wrapping_add(1), k - 1), (1usize << 63, 0), (1 << 62, k - 1)]);
    }
    if r > 0 {
        v.extend([(0, k), (r - 1, k), (0, k + 1), (r / 2, k), (0, 2 * k), (r - 1, usize::MAX), (r - 1, k + 5), (0, usize::MAX.wrapping_sub(k))]);
        v.push((r - 1, (0usize).wrapping_sub((r - 1) * k)));
        if r > 1 {
            v.push((r - 2, k));
            v.push((r - 2, 2 * k - k / 2));
        }
    }
    v.retain(|&(i, j)| i >= r || j >= k);
    v
}
fn oob<E: MatrixExpr<Entry = Nc>>(c: &mut Ctx, e: &E, r: usize, k: usize, l: &str) {
    for (i, j) in positions(r, k) {
        c.panics(|| e.entry(i, j), || format!("entry({i}, {j}) of a {r}x{k} {l}"));
    }
}

pub fn c16(c: &mut Ctx) {
    each_shape!(arr_shape, c);
    for (r, k) in shapes(c) {
        for _ in 0..reps(c, r, k) {
            let a = gen_m(c, r, k);
            let b = gen_m(c, r, k);
            let s = gen_nc(c);
            c.case(|| format!("matrix expressions over a = {a:?}, b = {b:?}"));
            let inp = || format!("a = {a:?}, b = {b:?}");
            let (da, db) = (a.dm(), b.dm());
            ex(c, || a.user(), &a, "user-defined expression a", &inp);
            ex(c, || da.clone(), &a, "owned matrix a", &inp);
            ex(c, || &da, &a, "borrowed matrix a", &inp);
            ex(c, || make_matrix_expr(r, k, |i, j| a.at(i, j).clone()), &a, "make_matrix_expr(r, c, a)", &inp);
            let m = M::mk(r, k, |i, j| nc([i as u64, j as u64, 7, 1]));
            ex(c, || make_matrix_expr(r, k, |i, j| nc([i as u64, j as u64, 7, 1])), &m, "make_matrix_expr(r, c, f)", &inp);
            ex(c, || (&da + &db).map(f), &a.zip(&b, |x, y| f(nadd(x, y))), "(a + b).map(f)", &inp);
            ex(c, || (&da).wrap().t().map(f), &M::mk(k, r, |i, j| f(a.at(j, i).clone())), "a.t().map(f)", &inp);
            ex(c, || (&da - &db).eval().wrap() + &db, &a, "(a - b).eval() + b", &inp);
            // reading and writing single entries
            if r * k > 0 {
                for (i, j) in [(0, 0), (r - 1, k - 1), (0, k - 1), (r - 1, 0), (c.below(r as u64) as usize, c.below(k as u64) as usize)] {
                    c.eq(&da[[i, j]], a.at(i, j), || format!("a[[{i}, {j}]], {}", inp()));
                    c.eq(&MatrixExpr::entry(&da, i, j), a.at(i, j), || format!("a.entry({i}, {j}), {}", inp()));
                    let mut d = da.clone();
                    d[[i, j]] = s.clone();
                    let w = M::mk(r, k, |x, y| if (x, y) == (i, j) { s.clone() } else { a.at(x, y).clone() });
                    is_dm(c, &d, &w, &|| format!("a[[{i}, {j}]] = {s:?}, {}", inp()));
                }
            }
            if r * k <= 64 {
                for (i, j) in positions(r, k) {
                    c.panics(|| da[[i, j]].clone(), || format!("a[[{i}, {j}]] of a {r}x{k} matrix"));
                    let mut d = da.clone();
                    c.panics(|| d[[i, j]] = n0(), || format!("a[[{i}, {j}]] = 0 on a {r}x{k} matrix"));
                }
                oob(c, &da.clone(), r, k, "owned matrix");
                oob(c, &&da, r, k, "borrowed matrix");
                oob(c, &(&da).wrap(), r, k, "wrapped matrix");
            }
            is_dm(c, &da, &a, &|| format!("a changed, {}", inp()));
        }
    }
}

pub fn c17(c: &mut Ctx) {
    let sh = shapes(c);
    for &(r, k) in &sh {
        for _ in 0..reps(c, r, k) {
            let a = gen_m(c, r, k);
            let b = if c.below(6) == 0 { a.clone() } else { gen_m(c, r, k) };
            c.case(|| format!("matrix combinators on a = {a:?}, b = {b:?}"));
            let inp = || format!("a = {a:?}, b = {b:?}");
            let (da, db) = (a.dm(), b.dm());
            ex(c, || (&da).wrap().map(f), &a.map(|x| f(x.clone())), "a.map(f)", &inp);
            ex(c, || (&da).wrap().zip(&db).map(|(x, y)| x * nc([1, 2, 3, 4]) + y), &a.zip(&b, |x, y| nadd(&nmul(x, &nc([1, 2, 3, 4])), y)), "a.zip(b)", &inp);
            let add = a.zip(&b, nadd);
            ex(c, || (&da).wrap() + &db, &add, "wrapped a + &b", &inp);
            ex(c, || a.user().wrap() + b.user(), &add, "user-defined a + b", &inp);
            ex(c, || &da + &db, &add, "&a + &b", &inp);
            ex(c, || &da + b.user().wrap(), &add, "&a + wrapped b", &inp);
            let sub = a.zip(&b, nsub);
            ex(c, || (&da).wrap() - &db, &sub, "wrapped a - &b", &inp);
            ex(c, || a.user().wrap() - b.user(), &sub, "user-defined a - b", &inp);
            ex(c, || &da - &db, &sub, "&a - &b", &inp);
            ex(c, || &da - db.clone(), &sub, "&a - b", &inp);
            let mul = a.zip(&b, nmul);
            ex(c, || (&da).wrap().mul_elemwise(&db), &mul, "wrapped a.mul_elemwise(b)", &inp);
            ex(c, || da.mul_elemwise(&db), &mul, "a.mul_elemwise(b)", &inp);
            let div = a.zip(&b, ndiv);
            ex(c, || (&da).wrap().div_elemwise(&db), &div, "wrapped a.div_elemwise(b)", &inp);
            ex(c, || da.div_elemwise(&db), &div, "a.div_elemwise(b)", &inp);
            let t = M::mk(k, r, |i, j| a.at(j, i).clone());
            ex(c, || (&da).wrap().t(), &t, "wrapped a.t()", &inp);
            ex(c, || da.t(), &t, "a.t()", &inp);
            ex(c, || a.user().wrap().t(), &t, "user-defined a.t()", &inp);
            ex(c, || da.t().t(), &a, "a.t().t()", &inp);
            let h = t.map(nconj);
            ex(c, || (&da).wrap().h(), &h, "wrapped a.h()", &inp);
            ex(c, || da.h(), &h, "a.h()", &inp);
            let want: Vec<Nc> = (0..r.min(k)).map(|i| a.at(i, i).clone()).collect();
            for (l, d) in [("wrapped a.diag()", (&da).wrap().diag().eval()), ("a.diag()", da.diag().eval()), ("user-defined a.diag()", a.user().wrap().diag().eval())] {
                c.check(d == dv(&want) && VectorExpr::len(&d) == want.len(), || format!("{l} gave {d:?}, {}", inp()));
            }
            let e = (&da).wrap().diag();
            c.check(e.len() == want.len() && (0..want.len()).all(|i| e.entry(i) == want[i]), || format!("entries of a.diag(), {}", inp()));
            is_dm(c, &da, &a, &|| format!("a changed, {}", inp()));
            is_dm(c, &db, &b, &|| format!("b changed, {}", inp()));
        }
    }
    let mut pairs = vec![];
    for r in 0..4 {
        for k in 0..4 {
            for r2 in 0..4 {
                for k2 in 0..4 {
                    pairs.push(((r, k), (r2, k2)));
                }
            }
        }
    }
    for &(r, k) in &sh {
        pairs.extend([((r, k), (k, r)), ((r, k), (r + 1, k)), ((r, k), (r, k + 1)), ((r + 1, k), (r, k)), ((r, k + 1), (r, k)), ((r, k), (r * k, 1)), ((r, k), (1, r * k)), ((2 * r, k), (r, 2 * k))]);
    }
    pairs.retain(|(a, b)| a != b);
    pairs.sort();
    pairs.dedup();
    for ((r, k), (r2, k2)) in pairs {
        let (a, b) = (M(r, k, vec![n1(); r * k]), M(r2, k2, vec![n1(); r2 * k2]));
        c.case(|| format!("matrix combinators on shapes {r}x{k} and {r2}x{k2}"));
        let (da, db) = (a.dm(), b.dm());
        let at = |l: &str| format!("{l} with shapes {r}x{k} and {r2}x{k2}");
        c.panics(|| (&da).wrap() + &db, || at("wrapped a + &b"));
        c.panics(|| (&da).wrap() - &db, || at("wrapped a - &b"));
        c.panics(|| &da + &db, || at("&a + &b"));
        c.panics(|| &da - &db, || at("&a - &b"));
        c.panics(|| (&da).wrap().zip(&db), || at("a.zip(b)"));
        c.panics(|| (&da).wrap().mul_elemwise(&db), || at("wrapped a.mul_elemwise(b)"));
        c.panics(|| da.mul_elemwise(&db), || at("a.mul_elemwise(b)"));
        c.panics(|| (&da).wrap().div_elemwise(&db), || at("wrapped a.div_elemwise(b)"));
        c.panics(|| da.div_elemwise(&db), || at("a.div_elemwise(b)"));
        c.panics(|| a.user().wrap() + b.user(), || at("user-defined a + b"));
        c.panics(|| a.user().wrap() - b.user(), || at("user-defined a - b"));
    }
}

pub fn c18(c: &mut Ctx) {
    let mut t = vec![];
    for l in 0..=4usize {
        for m in 1..=6usize {
            for n in 0..=4usize {
                t.push((l, m, n));
            }
        }
    }
    t.extend([(5, 5, 5), (7, 7, 7), (8, 8, 8), (9, 9, 9), (16, 16, 16), (17, 17, 17), (2, 16, 3), (3, 17, 2), (16, 2, 3), (2, 3, 16), (1, 33, 1), (1, 64, 2), (33, 2, 33), (1, 100, 1), (2, 129, 2), (32, 32, 32), (33, 33, 33), (20, 1, 20), (1, 1000, 1), (64, 3, 65)]);
    for n in c.lens(&[7, 8, 9, 10, 11, 12, 13, 15, 31, 32, 65, 127, 128], 1100) {
        if n > 0 {
            t.extend([(1, n, 1), (2, n, 2), (n, 2, 2), (2, 2, n), (n, 1, 3), (3, 1, n), (2, n, 1), (1, n, 3)]);
            if n <= 40 {
                t.extend([(n, n, n), (n, n, 2), (2, n, n), (n, 3, n)]);
            }
        }
    }
    for (l, m, n) in t {
        for _ in 0..c.reps(if l * m * n <= 64 { 4 } else { 1 }) {
            let (a, b) = (gen_m(c, l, m), gen_m(c, m, n));
            c.case(|| format!("product of a = {a:?} and b = {b:?}"));
            let w = M::mk(l, n, |i, j| {
                let mut s = n0();
                for k in 0..m {
                    s = nadd(&s, &nmul(a.at(i, k), b.at(k, j)));
                }
                s
            });
            let (da, db) = (a.dm(), b.dm());
            let inp = || format!("a = {a:?}, b = {b:?}");
            ex(c, || &da * &db, &w, "&a * &b", &inp);
            is_dm(c, &da, &a, &|| format!("a changed, {}", inp()));
            is_dm(c, &db, &b, &|| format!("b changed, {}", inp()));
            if l == m {
                let w = M::mk(l, l, |i, j| {
                    let mut s = n0();
                    for k in 0..m {
                        s = nadd(&s, &nmul(a.at(i, k), a.at(k, j)));
                    }
                    s
                });
                ex(c, || &da * &da, &w, "&a * &a", &inp);
            }
        }
    }
    let mut pairs = vec![];
    for m in 0..8usize {
        for k in 0..8usize {
            pairs.push((m, k));
        }
    }
    for n in c.lens(&[8, 15, 16, 17, 32, 64, 100], 1100) {
        pairs.extend([(n, n + 1), (n + 1, n), (2 * n, n), (n, 2 * n), (n, 1), (1, n)]);
    }
    for (m, k) in pairs {
        if m != k {
            for (l, n) in [(1, 1), (2, 3), (k, m), (m, k), (0, 0), (3, 0)] {
                let (a, b) = (M(l, m, vec![n1(); l * m]), M(k, n, vec![n1(); k * n]));
                let (da, db) = (a.dm(), b.dm());
                c.case(|| format!("product of shapes {l}x{m} and {k}x{n}"));
                c.panics(|| &da * &db, || format!("&a * &b with shapes {l}x{m} and {k}x{n}"));
            }
        }
    }
}

pub fn c19(c: &mut Ctx) {
    let sh = shapes(c);
    for &(r, k) in &sh {
        for _ in 0..reps(c, r, k) {
            let a = gen_m(c, r, k);
            let b = if c.below(6) == 0 { a.clone() } else { gen_m(c, r, k) };
            c.case(|| format!("in-place matrix operations on a = {a:?}, b = {b:?}"));
            let inp = || format!("a = {a:?}, b = {b:?}");
            let (da, db) = (a.dm(), b.dm());
            let add = a.zip(&b, nadd);
            let sub = a.zip(&b, nsub);
            macro_rules! inpl { ($op:tt, $rhs:expr, $w:expr, $l:expr) => {{
                let mut d = da.clone();
                d $op $rhs;
                is_dm(c, &d, $w, &|| format!("{}, {}", $l, inp()));
            }} }
            inpl!(+=, &db, &add, "a += &b");
            inpl!(+=, db.clone(), &add, "a += b");
            inpl!(+=, b.user(), &add, "a += user-defined b");
            inpl!(+=, (&db).wrap(), &add, "a += wrapped b");
            inpl!(+=, &db + &da, &add.zip(&a, nadd), "a += &b + &a");
            inpl!(+=, db.t().eval().t(), &add, "a += b.t().t()");
            inpl!(-=, &db, &sub, "a -= &b");
            inpl!(-=, db.clone(), &sub, "a -= b");
            inpl!(-=, b.user(), &sub, "a -= user-defined b");
            inpl!(-=, (&db).wrap().map(f), &a.zip(&b, |x, y| nsub(x, &f(y.clone()))), "a -= b.map(f)");
            is_dm(c, &da, &a, &|| format!("a changed, {}", inp()));
            is_dm(c, &db, &b, &|| format!("b changed, {}", inp()));
        }
    }
    let mut pairs = vec![];
    for r in 0..4 {
        for k in 0..4 {
            for r2 in 0..4 {
                for k2 in 0..4 {
                    pairs.push(((r, k), (r2, k2)));
                }
            }
        }
    }
    for &(r, k) in &sh {
        pairs.extend([((r, k), (k, r)), ((r, k), (r + 1, k)), ((r, k), (r, k + 1)), ((r + 1, k), (r, k)), ((r, k + 1), (r, k)), ((r, k), (r * k, 1)), ((r, k), (1, r * k)), ((2 * r, k), (r, 2 * k))]);
    }
    pairs.retain(|(a, b)| a != b);
    pairs.sort();
    pairs.dedup();
    for ((r, k), (r2, k2)) in pairs {
        let (a, b) = (M(r, k, vec![n1(); r * k]), M(r2, k2, vec![n1(); r2 * k2]));
        c.case(|| format!("in-place matrix operations on shapes {r}x{k} and {r2}x{k2}"));
        let (da, db) = (a.dm(), b.dm());
        let at = |l: &str| format!("{l} with shapes {r}x{k} and {r2}x{k2}");
        let mut d = da.clone();
        c.panics(|| d += &db, || at("a += &b"));
        let mut d = da.clone();
        c.panics(|| d += b.user(), || at("a += user-defined b"));
        let mut d = da.clone();
        c.panics(|| d -= &db, || at("a -= &b"));
        let mut d = da.clone();
        c.panics(|| d -= b.user(), || at("a -= user-defined b"));
    }
}

pub fn c20(c: &mut Ctx) {
    crate::dynv::c20v(c);
    for (r, k) in shapes(c) {
        let s = gen_nc(c);
        c.case(|| format!("matrix constructors of shape {r}x{k}, value {s:?}"));
        let inp = || format!("shape {r}x{k}, s = {s:?}");
        ex(c, || DMatrix::<Nc>::zeros(r, k), &M(r, k, vec![n0(); r * k]), "DMatrix::zeros", &inp);
        ex(c, || DMatrix::<Nc>::ones(r, k), &M(r, k, vec![n1(); r * k]), "DMatrix::ones", &inp);
        ex(c, || DMatrix::<Nc>::same(r, k, s.clone()), &M(r, k, vec![s.clone(); r * k]), "DMatrix::same", &inp);
    }
    for n in c.lens(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 32, 33, 64, 65, 100], 300) {
        c.case(|| format!("eye({n})"));
        ex(c, || DMatrix::<Nc>::eye(n), &M::mk(n, n, |i, j| if i == j { n1() } else { n0() }), "DMatrix::eye", &|| format!("n = {n}"));
    }
}
