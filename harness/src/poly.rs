use crate::ctx::Ctx;
use crate::types::*;
use magnesia::algebra::*;

type Po = Polynomial<Nc>;
fn po(v: &[Nc]) -> Po {
    // with and without room to spare
    let mut a = Vec::with_capacity(v.len() + v.len() * 7 % 11);
    a.extend_from_slice(v);
    Polynomial::from_coefficients(a)
}
fn show(v: &[Nc]) -> String {
    if v.len() <= 12 {
        format!("{v:?}")
    } else {
        format!("{:?}... ({} coefficients)", &v[..12], v.len())
    }
}
fn get(v: &[Nc], i: usize) -> Nc {
    v.get(i).cloned().unwrap_or(n0())
}
fn gen_poly(c: &mut Ctx, n: usize) -> Vec<Nc> {
    let mut v = vec_nc(c, n);
    match c.below(6) {
        0 => {
            // trailing zeros
            let k = c.below(n as u64 + 1) as usize;
            for x in v.iter_mut().skip(n - k) {
                *x = n0();
            }
        }
        1 => {
            let k = c.below(n as u64 + 1) as usize;
            for x in v.iter_mut().take(k) {
                *x = n0();
            }
        }
        _ => {}
    }
    v
}
pub fn eval_ref(v: &[Nc], x: &Nc) -> Nc {
    let mut pow = n1();
    let mut s = n0();
    for a in v {
        s = nadd(&s, &nmul(a, &pow));
        pow = nmul(&pow, x);
    }
    s
}
const LENS: [usize; 24] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100];

pub fn c06(c: &mut Ctx) {
    let lens = c.lens(&[&LENS[..], &[127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025]].concat(), 20000);
    for &n in &lens {
        let reps = if n <= 20 { 60 } else if n < 200 { 12 } else { 4 };
        for _ in 0..c.reps(reps) {
            let v = gen_poly(c, n);
            let x = match c.below(6) {
                0 => get(&v, 0),
                1 => gen_nc_big(c),
                2 => nc([0, 1, 0, 0]),
                _ => gen_nc(c),
            };
            let p = po(&v);
            c.case(|| format!("evaluation of the polynomial with coefficients {} at x = {x:?}", show(&v)));
            let want = eval_ref(&v, &x);
            let at = |l: &str| format!("{l} for coefficients {} and x = {x:?}", show(&v));
            let x0 = x.clone();
            c.eq(&p.eval_ref(&x), &want, || at("eval_ref"));
            c.eq(&p.eval(x.clone()), &want, || at("eval"));
            // once more: evaluation leaves the polynomial and x unchanged
            c.eq(&x, &x0, || at("x changed by eval_ref"));
            c.eq(&p.eval_ref(&x), &want, || at("second eval_ref"));
            let v2: Vec<i64> = (0..n.min(12)).map(|_| c.below(11) as i64 - 5).collect();
            let y = c.below(7) as i64 - 3;
            let want: i64 = v2.iter().rev().fold(0, |s, a| s * y + a);
            c.eq(&Polynomial::from_coefficients(v2.clone()).eval(y), &want, || format!("eval over i64 of {v2:?} at {y}"));
        }
    }
    // all small integer polynomials at all small points
    for n in 0..=4usize {
        for code in 0..3i64.pow(n as u32) {
            let mut k = code;
            let v: Vec<i64> = (0..n)
                .map(|_| {
                    let d = k % 3 - 1;
                    k /= 3;
                    d
                })
                .collect();
            for x in -3..=3i64 {
                c.case(|| format!("i64 polynomial {v:?} at {x}"));
                let want: i64 = v.iter().rev().fold(0, |s, a| s * x + a);
                let p = Polynomial::from_coefficients(v.clone());
                c.eq(&p.eval(x), &want, || format!("eval over i64 of {v:?} at {x}"));
                c.eq(&p.eval_ref(&x), &want, || format!("eval_ref over i64 of {v:?} at {x}"));
            }
        }
    }
}

/// r has exactly the coefficients w: decided by == and by evaluation at
/// random central points (equal only if one of the two says so)
fn same(c: &mut Ctx, r: &Po, w: &[Nc]) -> bool {
    let q = po(w);
    if *r == q {
        return true;
    }
    (0..3).all(|_| {
        let s = c.below(P);
        let x = nc([s, 0, 0, s]);
        r.eval_ref(&x) == eval_ref(w, &x)
    })
}
fn expect(c: &mut Ctx, r: &Po, w: &[Nc], l: &str, p: &[Nc], q: &[Nc]) {
    let ok = same(c, r, w);
    c.check(ok, || format!("{l} for p = {} and q = {}\n  got      {}\n  expected {}", show(p), show(q), trunc(format!("{r:?}")), show(w)));
}
fn trunc(mut s: String) -> String {
    if s.len() > 900 {
        s.truncate(900);
        s.push_str("...");
    }
    s
}

fn c07_pair(c: &mut Ctx, p: &[Nc], q: &[Nc]) {
    c.case(|| format!("polynomial operators on p = {} and q = {}", show(p), show(q)));
    let n = p.len().max(q.len());
    let add: Vec<Nc> = (0..n).map(|i| nadd(&get(p, i), &get(q, i))).collect();
    let sub: Vec<Nc> = (0..n).map(|i| nsub(&get(p, i), &get(q, i))).collect();
    let neg: Vec<Nc> = p.iter().map(nneg).collect();
    let mut mul = if p.is_empty() || q.is_empty() { vec![] } else { vec![n0(); p.len() + q.len() - 1] };
    for i in 0..p.len() {
        for j in 0..q.len() {
            mul[i + j] = nadd(&mul[i + j], &nmul(&p[i], &q[j]));
        }
    }
    let (pp, qq) = (po(p), po(q));
    expect(c, &(po(p) + po(q)), &add, "p + q", p, q);
    let mut r = po(p);
    r += po(q);
    expect(c, &r, &add, "p += q", p, q);
    let mut r = po(p);
    r += &qq;
    expect(c, &r, &add, "p += &q", p, q);
    expect(c, &(po(p) - po(q)), &sub, "p - q", p, q);
    let mut r = po(p);
    r -= po(q);
    expect(c, &r, &sub, "p -= q", p, q);
    let mut r = po(p);
    r -= &qq;
    expect(c, &r, &sub, "p -= &q", p, q);
    expect(c, &(-po(p)), &neg, "-p", p, q);
    expect(c, &(&pp * &qq), &mul, "&p * &q", p, q);
    expect(c, &pp.mul_refs(&qq), &mul, "p.mul_refs(&q)", p, q);
    expect(c, &(po(p) * po(q)), &mul, "p * q", p, q);
    let mut r = po(p);
    r *= po(q);
    expect(c, &r, &mul, "p *= q", p, q);
    let sq: Vec<Nc> = {
        let mut m = if p.is_empty() { vec![] } else { vec![n0(); 2 * p.len() - 1] };
        for i in 0..p.len() {
            for j in 0..p.len() {
                m[i + j] = nadd(&m[i + j], &nmul(&p[i], &p[j]));
            }
        }
        m
    };
    expect(c, &(&pp * &pp), &sq, "&p * &p", p, q);
    // operands taken by reference are unchanged
    expect(c, &pp, p, "p after the operations", p, q);
    expect(c, &qq, q, "q after the operations", p, q);
    // an operation sequence: results are full-fledged operands
    let mut r = po(p) - po(q);
    r += &qq;
    r += po(q);
    r -= &qq;
    expect(c, &r, p, "p - q, += &q, += q, -= &q", p, q);
}

pub fn c07(c: &mut Ctx) {
    let z = po(&[]);
    expect(c, &Po::zero(), &[], "Polynomial::zero()", &[], &[]);
    expect(c, &Po::one(), &[n1()], "Polynomial::one()", &[], &[]);
    c.check(z == Po::zero(), || "zero() differs from the empty polynomial".into());
    for a in 0..=10 {
        for b in 0..=10 {
            for _ in 0..c.reps(6) {
                let p = gen_poly(c, a);
                let q = match c.below(6) {
                    0 if a == b => p.clone(),
                    1 if a == b => p.iter().map(nneg).collect(),
                    _ => gen_poly(c, b),
                };
                c07_pair(c, &p, &q);
            }
        }
    }
    let lens = c.lens(&[0, 1, 2, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129], 1100);
    for &a in &lens {
        let others = [0, 1, 2, 3, 7, a / 2, a.saturating_sub(1), a, a + 1, 40];
        for &b in &others {
            let p = gen_poly(c, a);
            let q = gen_poly(c, b);
            c07_pair(c, &p, &q);
            c07_pair(c, &q, &p);
        }
    }
}

fn coeff_eq(p: &[i64], q: &[i64]) -> bool {
    (0..p.len().max(q.len())).all(|i| p.get(i).unwrap_or(&0) == q.get(i).unwrap_or(&0))
}

pub fn c08(c: &mut Ctx) {
    // == exactly when the coefficients agree: all short integer polynomials
    let mut all: Vec<Vec<i64>> = vec![vec![]];
    for n in 1..=4usize {
        for code in 0..3i64.pow(n as u32) {
            let mut k = code;
            all.push(
                (0..n)
                    .map(|_| {
                        let d = k % 3 - 1;
                        k /= 3;
                        d
                    })
                    .collect(),
            );
        }
    }
    let polys: Vec<Polynomial<i64>> = all.iter().map(|v| Polynomial::from_coefficients(v.clone())).collect();
    for (p, pp) in all.iter().zip(&polys) {
        for (q, qq) in all.iter().zip(&polys) {
            c.case(|| format!("comparison of {p:?} and {q:?} over i64"));
            let w = coeff_eq(p, q);
            c.check((pp == qq) == w, || format!("{p:?} == {q:?} over i64 gave {}", !w));
            c.check((pp != qq) != w, || format!("{p:?} != {q:?} over i64 gave {w}"));
        }
    }
    let lens = c.lens(&[0, 1, 2, 3, 5, 8, 16, 17, 33, 64, 65, 100, 130], 2000);
    for &n in &lens {
        for _ in 0..c.reps(8) {
            let p = gen_poly(c, n);
            let mut q = p.clone();
            let k = c.below(5) as usize;
            q.resize(n + k, n0());
            c.case(|| format!("comparison of {} with itself padded by {k} zeros, and with one coefficient changed", show(&p)));
            c.check(po(&p) == po(&q) && po(&q) == po(&p), || format!("{} compares unequal to itself with {k} zeros appended", show(&p)));
            if !q.is_empty() {
                let i = match c.below(3) {
                    0 => q.len() - 1,
                    1 => 0,
                    _ => c.below(q.len() as u64) as usize,
                };
                q[i] = nadd(&q[i], &if c.below(2) == 0 { n1() } else { nc([0, 1, 0, 0]) });
                c.check(po(&p) != po(&q) && po(&q) != po(&p), || format!("{} compares equal to {}, which differs in coefficient {i}", show(&p), show(&q)));
            }
        }
    }
    // ring laws with ==
    for round in 0..c.reps(500) {
        let m = if round % 20 == 0 { 40 } else { 7 };
        let (a, b, d) = (c.below(m) as usize, c.below(m) as usize, c.below(m) as usize);
        let (p, q, r) = (gen_poly(c, a), gen_poly(c, b), gen_poly(c, d));
        c.case(|| format!("ring laws for p = {}, q = {}, r = {}", show(&p), show(&q), show(&r)));
        let (pp, qq, rr) = (po(&p), po(&q), po(&r));
        let at = |l: &str| format!("{l} fails for p = {}, q = {}, r = {}", show(&p), show(&q), show(&r));
        let (zero, one) = (Po::zero(), Po::one());
        c.check(pp.clone() - pp.clone() == zero, || at("p - p = 0"));
        c.check(pp.clone() + (-pp.clone()) == zero, || at("p + (-p) = 0"));
        c.check(zero == pp.clone() - pp.clone(), || at("0 = p - p"));
        c.check(pp.clone() + zero.clone() == pp && zero.clone() + pp.clone() == pp, || at("p + 0 = 0 + p = p"));
        c.check(pp.clone() + qq.clone() == qq.clone() + pp.clone(), || at("p + q = q + p"));
        c.check((pp.clone() + qq.clone()) + rr.clone() == pp.clone() + (qq.clone() + rr.clone()), || at("(p+q)+r = p+(q+r)"));
        c.check(&(&pp * &qq) * &rr == &pp * &(&qq * &rr), || at("(pq)r = p(qr)"));
        c.check(&pp * &(qq.clone() + rr.clone()) == &pp * &qq + &pp * &rr, || at("p(q+r) = pq+pr"));
        c.check(&(pp.clone() + qq.clone()) * &rr == &pp * &rr + &qq * &rr, || at("(p+q)r = pr+qr"));
        c.check(&pp * &one == pp && &one * &pp == pp, || at("p*1 = 1*p = p"));
        c.check(&pp * &zero == zero && &zero * &pp == zero, || at("p*0 = 0*p = 0"));
        c.check(pp.clone() - qq.clone() == pp.clone() + (-qq.clone()), || at("p - q = p + (-q)"));
        let x = gen_nc(c);
        let (ep, eq) = (pp.eval_ref(&x), qq.eval_ref(&x));
        c.eq(&(pp.clone() + qq.clone()).eval_ref(&x), &nadd(&ep, &eq), || at(&format!("(p+q)({x:?}) = p(x)+q(x)")));
        c.eq(&(-pp.clone()).eval_ref(&x), &nneg(&ep), || at(&format!("(-p)({x:?}) = -p(x)")));
        c.eq(&(pp.clone() - qq.clone()).eval_ref(&x), &nsub(&ep, &eq), || at(&format!("(p-q)({x:?}) = p(x)-q(x)")));
        c.eq(&Po::one().eval_ref(&x), &n1(), || "one evaluates to 1".into());
        c.eq(&Po::zero().eval_ref(&x), &n0(), || "zero evaluates to 0".into());
        // commuting coefficients
        let pf: Vec<Fp> = (0..a).map(|_| Fp::gen(c)).collect();
        let qf: Vec<Fp> = (0..b).map(|_| Fp::gen(c)).collect();
        let x = Fp::gen(c);
        let (pp, qq) = (Polynomial::from_coefficients(pf.clone()), Polynomial::from_coefficients(qf.clone()));
        c.eq(&(&pp * &qq).eval(x), &(pp.eval(x) * qq.eval(x)), || format!("(pq)(x) = p(x)q(x) mod {} for p = {pf:?}, q = {qf:?}, x = {x:?}", Fp::MOD));
        c.check(&pp * &qq == &qq * &pp, || format!("pq = qp mod {} for p = {pf:?}, q = {qf:?}", Fp::MOD));
    }
}
