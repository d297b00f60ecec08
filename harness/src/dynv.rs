//! C13, C14, C15 and the vector part of C20.
use crate::ctx::Ctx;
use crate::types::*;
use magnesia::linalg::*;

/// A user-defined expression that keeps all default methods.
pub struct UserV(pub Vec<Nc>);
impl VectorExpr for UserV {
    type Entry = Nc;
    fn entry(&self, index: usize) -> Nc {
        self.0[index].clone()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub fn shv(v: &[Nc]) -> String {
    if v.len() <= 10 {
        format!("{v:?}")
    } else {
        format!("{:?}... (length {})", &v[..10], v.len())
    }
}
pub fn dv(a: &[Nc]) -> DVector<Nc> {
    a.eval()
}
fn is_dv(c: &Ctx, d: &DVector<Nc>, want: &[Nc], l: &dyn Fn() -> String) {
    c.check(VectorExpr::len(d) == want.len(), || format!("{}: length {} instead of {}", l(), VectorExpr::len(d), want.len()));
    for i in 0..want.len() {
        c.eq(&d[i], &want[i], || format!("{}: component {i}", l()));
    }
}
/// an expression and its value
fn ex<E: VectorExpr<Entry = Nc>>(c: &Ctx, mk: impl Fn() -> E, want: &[Nc], l: &str, inp: &dyn Fn() -> String) {
    let at = || format!("{l}, {}", inp());
    let e = mk();
    c.check(e.len() == want.len(), || format!("{}: len() is {} instead of {}", at(), e.len(), want.len()));
    c.check(e.is_empty() == (want.len() == 0), || format!("{}: is_empty() is {} at length {}", at(), e.is_empty(), want.len()));
    for i in 0..want.len() {
        c.eq(&e.entry(i), &want[i], || format!("{}: entry({i})", at()));
    }
    is_dv(c, &e.eval(), want, &|| format!("eval() of {}", at()));
    let w = mk().wrap();
    c.check(w.len() == want.len() && w.is_empty() == (want.len() == 0), || format!("{} wrapped: len() is {}, is_empty() is {}", at(), w.len(), w.is_empty()));
    for i in 0..want.len() {
        c.eq(&w.entry(i), &want[i], || format!("{} wrapped: entry({i})", at()));
    }
    is_dv(c, &w.eval(), want, &|| format!("eval() of {} wrapped", at()));
    is_dv(c, &mk().wrap().wrap().eval().eval(), want, &|| format!("eval() of {} wrapped twice and evaluated twice", at()));
}
fn zipw(a: &[Nc], b: &[Nc], f: impl Fn(&Nc, &Nc) -> Nc) -> Vec<Nc> {
    a.iter().zip(b).map(|(x, y)| f(x, y)).collect()
}
const LENS: [usize; 30] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257];
fn f(x: Nc) -> Nc {
    nadd(&nmul(&nc([2, 3, 5, 7]), &x), &nmul(&x, &x))
}

pub fn c13(c: &mut Ctx) {
    let lens = c.lens(&[&LENS[..], &[1000, 1024, 1025]].concat(), 70000);
    for &n in &lens {
        let reps = if n <= 20 { 10 } else { 2 };
        for _ in 0..c.reps(reps) {
            let (a, b) = (vec_nc(c, n), vec_nc(c, n));
            let s = gen_nc(c);
            c.case(|| format!("vector expressions over a = {}, b = {}", shv(&a), shv(&b)));
            let inp = || format!("a = {}, b = {}", shv(&a), shv(&b));
            let (da, db) = (dv(&a), dv(&b));
            ex(c, || &a[..], &a, "slice a", &inp);
            ex(c, || da.clone(), &a, "owned vector a", &inp);
            ex(c, || &da, &a, "borrowed vector a", &inp);
            ex(c, || UserV(a.clone()), &a, "user-defined expression a", &inp);
            ex(c, || make_vector_expr(n, |i| a[i].clone()), &a, "make_vector_expr(n, a)", &inp);
            let idx: Vec<Nc> = (0..n).map(|i| nc([i as u64, 1, 0, 2 * i as u64])).collect();
            ex(c, || make_vector_expr(n, |i| nc([i as u64, 1, 0, 2 * i as u64])), &idx, "make_vector_expr(n, f)", &inp);
            let m: Vec<Nc> = a.iter().cloned().map(f).collect();
            ex(c, || (&da).wrap().map(f), &m, "a mapped", &inp);
            ex(c, || UserV(a.clone()).wrap().map(f), &m, "user-defined a mapped", &inp);
            let add = zipw(&a, &b, nadd);
            ex(c, || &da + &db, &add, "&a + &b", &inp);
            ex(c, || (&a[..]).wrap() + &db, &add, "slice a + &b", &inp);
            ex(c, || UserV(a.clone()).wrap() + UserV(b.clone()), &add, "user-defined a + b", &inp);
            let sub = zipw(&a, &b, nsub);
            ex(c, || &da - db.clone(), &sub, "&a - b", &inp);
            let z = zipw(&a, &b, |x, y| nsub(&nmul(x, y), y));
            ex(c, || (&da).wrap().zip(&b[..]).map(|(x, y)| x * &y - y), &z, "a.zip(b).map(xy - y)", &inp);
            let t: Vec<Nc> = (0..n).map(|i| nsub(&f(nadd(&a[i], &b[i])), &nmul(&nconj(&b[i]), &a[i]))).collect();
            ex(c, || ((&da).wrap() + UserV(b.clone())).map(f) - (&db).wrap().conj().mul_elemwise(&a[..]), &t, "(a + b).map(f) - conj(b) .* a", &inp);
            let t: Vec<Nc> = (0..n).map(|i| ndiv(&nsub(&a[i], &b[i]), &s)).collect();
            ex(c, || (&da - &db).div_elemwise(DVector::same(n, s.clone())), &t, "(a - b) ./ same(s)", &inp);
            ex(c, || (&da + &db).eval(), &add, "(a + b).eval()", &inp);
            ex(c, || (&da + &db).eval() .wrap() - &db, &a, "(a + b).eval() - b", &inp);
            ex(c, || make_matrix_expr(n, n + 1, |i, j| if i == j { a[i].clone() } else { s.clone() }).diag(), &a, "diagonal of a matrix expression", &inp);
            if n > 2 {
                ex(c, || &a[1..n - 1], &a[1..n - 1], "subslice a[1..n-1]", &inp);
            }
            c.check(da == dv(&a) && db == dv(&b), || format!("borrowed operands changed, {}", inp()));
        }
    }
    // arrays of other entry types, and expressions over pairs
    for n in 0..6usize {
        let a: Vec<i32> = (0..n as i32).map(|i| i * i - 3).collect();
        c.case(|| format!("i32 vector {a:?}"));
        let d = a[..].eval();
        let p = (&d).wrap().zip((&a[..]).wrap().map(|x| x as f64 / 2.0)).eval();
        c.check(VectorExpr::len(&p) == n && (0..n).all(|i| p[i] == (a[i], a[i] as f64 / 2.0)), || format!("zip of {a:?} with its halves gave {p:?}"));
    }
    let d = [5u8, 6, 7].eval();
    c.check(d.len() == 3 && (0..3).all(|i| d[i] == 5 + i as u8), || format!("[5, 6, 7].eval() gave {d:?}"));
}

pub fn c14(c: &mut Ctx) {
    let lens = c.lens(&LENS, 70000);
    for &n in &lens {
        let reps = if n <= 20 { 20 } else { 3 };
        for _ in 0..c.reps(reps) {
            let a = vec_nc(c, n);
            let b = if c.below(6) == 0 { a.clone() } else { vec_nc(c, n) };
            c.case(|| format!("vector combinators on a = {}, b = {}", shv(&a), shv(&b)));
            let inp = || format!("a = {}, b = {}", shv(&a), shv(&b));
            let (da, db) = (dv(&a), dv(&b));
            let m: Vec<Nc> = a.iter().cloned().map(f).collect();
            ex(c, || (&da).wrap().map(f), &m, "a.map(f)", &inp);
            let z = zipw(&a, &b, |x, y| nadd(&nmul(x, &nc([1, 2, 3, 4])), y));
            ex(c, || (&da).wrap().zip(&db).map(|(x, y)| x * nc([1, 2, 3, 4]) + y), &z, "a.zip(b)", &inp);
            let add = zipw(&a, &b, nadd);
            ex(c, || (&da).wrap() + &db, &add, "wrapped a + &b", &inp);
            ex(c, || da.clone().wrap() + db.clone(), &add, "wrapped a + b", &inp);
            ex(c, || (&a[..]).wrap() + (&b[..]).wrap(), &add, "wrapped slice a + wrapped slice b", &inp);
            ex(c, || &da + &db, &add, "&a + &b", &inp);
            ex(c, || &da + db.clone(), &add, "&a + b", &inp);
            let sub = zipw(&a, &b, nsub);
            ex(c, || (&da).wrap() - &db, &sub, "wrapped a - &b", &inp);
            ex(c, || &da - &db, &sub, "&a - &b", &inp);
            ex(c, || &da - (&b[..]).wrap(), &sub, "&a - wrapped slice b", &inp);
            let mul = zipw(&a, &b, nmul);
            ex(c, || (&da).wrap().mul_elemwise(&db), &mul, "wrapped a.mul_elemwise(b)", &inp);
            ex(c, || da.mul_elemwise(&db), &mul, "a.mul_elemwise(b)", &inp);
            ex(c, || da.mul_elemwise(UserV(b.clone())), &mul, "a.mul_elemwise(user-defined b)", &inp);
            let div = zipw(&a, &b, ndiv);
            ex(c, || (&da).wrap().div_elemwise(&db), &div, "wrapped a.div_elemwise(b)", &inp);
            ex(c, || da.div_elemwise(&db), &div, "a.div_elemwise(b)", &inp);
            let con: Vec<Nc> = a.iter().map(nconj).collect();
            ex(c, || (&da).wrap().conj(), &con, "wrapped a.conj()", &inp);
            ex(c, || da.conj(), &con, "a.conj()", &inp);
            if n <= 40 {
                for (w, m) in [("wrapped a.diag()", (&da).wrap().diag().eval()), ("a.diag()", da.diag().eval())] {
                    c.check(MatrixExpr::num_rows(&m) == n && MatrixExpr::num_cols(&m) == n, || format!("{w} is {}x{}, {}", MatrixExpr::num_rows(&m), MatrixExpr::num_cols(&m), inp()));
                    for i in 0..n {
                        for j in 0..n {
                            c.eq(&m[[i, j]], &if i == j { a[i].clone() } else { n0() }, || format!("{w}: entry ({i},{j}), {}", inp()));
                        }
                    }
                }
                let e = (&da).wrap().diag();
                for (i, j) in [(0, 0), (n / 2, n / 2), (0, n.saturating_sub(1)), (n.saturating_sub(1), 0)] {
                    if n > 0 {
                        c.eq(&e.entry(i, j), &if i == j { a[i].clone() } else { n0() }, || format!("a.diag(): entry ({i},{j}), {}", inp()));
                    }
                }
            }
        }
    }
    let mut pairs: Vec<(usize, usize)> = vec![];
    for a in 0..6 {
        for b in 0..6 {
            if a != b {
                pairs.push((a, b));
            }
        }
    }
    for &n in &lens {
        pairs.extend([(n, n + 1), (n + 1, n), (n, 2 * n + 1), (2 * n + 1, n), (n + 1, 0), (0, n + 1), (n, n + 8)]);
    }
    for (n, k) in pairs {
        let (a, b) = (vec_nc(c, n), vec_nc(c, k));
        c.case(|| format!("vector combinators on lengths {n} and {k}"));
        let (da, db) = (dv(&a), dv(&b));
        let at = |l: &str| format!("{l} with lengths {n} and {k}");
        c.panics(|| (&da).wrap() + &db, || at("wrapped a + &b"));
        c.panics(|| (&da).wrap() - &db, || at("wrapped a - &b"));
        c.panics(|| &da + &db, || at("&a + &b"));
        c.panics(|| &da - &db, || at("&a - &b"));
        c.panics(|| &da + (&b[..]).wrap(), || at("&a + wrapped b"));
        c.panics(|| &da - UserV(b.clone()), || at("&a - user-defined b"));
        c.panics(|| (&a[..]).wrap() + UserV(b.clone()), || at("slice a + user-defined b"));
        c.panics(|| (&da).wrap().zip(&db), || at("a.zip(b)"));
        c.panics(|| (&da).wrap().mul_elemwise(&db), || at("wrapped a.mul_elemwise(b)"));
        c.panics(|| da.mul_elemwise(&db), || at("a.mul_elemwise(b)"));
        c.panics(|| (&da).wrap().div_elemwise(&db), || at("wrapped a.div_elemwise(b)"));
        c.panics(|| da.div_elemwise(&db), || at("a.div_elemwise(b)"));
    }
}

pub fn c15(c: &mut Ctx) {
    let lens = c.lens(&[&LENS[..], &[1000, 1024, 1025]].concat(), 70000);
    for &n in &lens {
        let reps = if n <= 20 { 25 } else { 4 };
        for _ in 0..c.reps(reps) {
            let a = vec_nc(c, n);
            let b = if c.below(6) == 0 { a.clone() } else { vec_nc(c, n) };
            c.case(|| format!("in-place operations on a = {}, b = {}", shv(&a), shv(&b)));
            let inp = || format!("a = {}, b = {}", shv(&a), shv(&b));
            let (da, db) = (dv(&a), dv(&b));
            let add = zipw(&a, &b, nadd);
            let sub = zipw(&a, &b, nsub);
            macro_rules! inp { ($op:tt, $rhs:expr, $w:expr, $l:expr) => {{
                let mut r = da.clone();
                r $op $rhs;
                is_dv(c, &r, $w, &|| format!("{}, {}", $l, inp()));
            }} }
            inp!(+=, &db, &add, "a += &b");
            inp!(+=, db.clone(), &add, "a += b");
            inp!(+=, (&b[..]).wrap(), &add, "a += wrapped slice b");
            inp!(+=, UserV(b.clone()), &add, "a += user-defined b");
            inp!(+=, &db + &da, &zipw(&add, &a, nadd), "a += &b + &a");
            inp!(-=, &db, &sub, "a -= &b");
            inp!(-=, db.clone(), &sub, "a -= b");
            inp!(-=, (&b[..]).wrap(), &sub, "a -= wrapped slice b");
            inp!(-=, UserV(b.clone()), &sub, "a -= user-defined b");
            let mut dot = n0();
            for i in 0..n {
                dot = nadd(&dot, &nmul(&nconj(&a[i]), &b[i]));
            }
            c.eq(&(&da * &db), &dot, || format!("&a * &b, {}", inp()));
            c.eq(&(da.clone() * db.clone()), &dot, || format!("a * b, {}", inp()));
            let mut dot = n0();
            for i in 0..n {
                dot = nadd(&dot, &nmul(&nconj(&a[i]), &a[i]));
            }
            c.eq(&(&da * &da), &dot, || format!("&a * &a, {}", inp()));
            if n > 0 {
                let x = gen_nc(c);
                for k in [0, n / 2, n - 1, c.below(n as u64) as usize] {
                    c.eq(&da[k], &a[k], || format!("a[{k}], {}", inp()));
                    let mut r = da.clone();
                    r[k] = x.clone();
                    let mut w = a.clone();
                    w[k] = x.clone();
                    is_dv(c, &r, &w, &|| format!("a[{k}] = {x:?}, {}", inp()));
                }
            }
            for k in [n, n + 1, 2 * n + 3, usize::MAX] {
                c.panics(|| da[k].clone(), || format!("a[{k}] at length {n}"));
                let mut r = da.clone();
                c.panics(|| r[k] = n0(), || format!("a[{k}] = 0 at length {n}"));
            }
            is_dv(c, &da, &a, &|| format!("a changed, {}", inp()));
            is_dv(c, &db, &b, &|| format!("b changed, {}", inp()));
        }
    }
    let mut pairs: Vec<(usize, usize)> = vec![];
    for a in 0..6 {
        for b in 0..6 {
            if a != b {
                pairs.push((a, b));
            }
        }
    }
    for &n in &lens {
        pairs.extend([(n, n + 1), (n + 1, n), (n, 2 * n + 1), (2 * n + 1, n), (n + 1, 0), (0, n + 1), (n, n + 8)]);
    }
    for (n, k) in pairs {
        let (a, b) = (vec_nc(c, n), vec_nc(c, k));
        c.case(|| format!("in-place operations on lengths {n} and {k}"));
        let (da, db) = (dv(&a), dv(&b));
        let at = |l: &str| format!("{l} with lengths {n} and {k}");
        let mut r = da.clone();
        c.panics(|| r += &db, || at("a += &b"));
        let mut r = da.clone();
        c.panics(|| r += (&b[..]).wrap(), || at("a += wrapped b"));
        let mut r = da.clone();
        c.panics(|| r -= &db, || at("a -= &b"));
        let mut r = da.clone();
        c.panics(|| r -= UserV(b.clone()), || at("a -= user-defined b"));
        c.panics(|| &da * &db, || at("&a * &b"));
        c.panics(|| da.clone() * db.clone(), || at("a * b"));
    }
}

pub fn c20v(c: &mut Ctx) {
    let lens = c.lens(&[&LENS[..], &[1000, 1024, 1025]].concat(), 70000);
    for &n in &lens {
        let s = gen_nc(c);
        c.case(|| format!("vector constructors of length {n}, value {s:?}"));
        let inp = || format!("n = {n}, s = {s:?}");
        ex(c, || DVector::<Nc>::zeros(n), &vec![n0(); n], "DVector::zeros(n)", &inp);
        ex(c, || DVector::<Nc>::ones(n), &vec![n1(); n], "DVector::ones(n)", &inp);
        ex(c, || DVector::<Nc>::same(n, s.clone()), &vec![s.clone(); n], "DVector::same(n, s)", &inp);
    }
}
