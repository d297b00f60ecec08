//! C22 - C24: differential evolution, with logged comparisons and many
//! random streams.
use crate::ctx::Ctx;
use magnesia::optimize::differential_evolution;
use rand::RngCore;
use std::cell::RefCell;

/// Random streams: plain, with every number repeated, and with few distinct
/// numbers (so that drawn indices collide often).
#[derive(Clone)]
struct Stream {
    state: u64,
    mode: u32,
    last: u64,
    count: u32,
    pool: Vec<u64>,
}
impl Stream {
    fn new(seed: u64, mode: u32) -> Stream {
        let mut s = Stream { state: seed, mode: 0, last: 0, count: 0, pool: vec![] };
        let k = 12 + (seed % 20) as usize;
        let pool = (0..k).map(|_| s.raw()).collect();
        s.pool = pool;
        s.mode = mode;
        s
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.mode {
            1 => {
                if self.count == 0 {
                    self.last = self.raw();
                    self.count = 1 + (self.raw() % 4) as u32;
                }
                self.count -= 1;
                self.last
            }
            2 => {
                let i = self.raw() as usize % (self.pool.len() + 3);
                if i < self.pool.len() {
                    self.pool[i]
                } else {
                    self.raw()
                }
            }
            3 => {
                // extreme values now and then
                let x = self.raw();
                match x % 8 {
                    0 => u64::MAX,
                    1 => 0,
                    2 => 0xff_ffff << 40,
                    _ => self.raw(),
                }
            }
            _ => self.raw(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

trait Num: Copy + PartialOrd + std::fmt::Debug + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + rand::distributions::uniform::SampleUniform + 'static {
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn to(self) -> f64 {
        self
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}

#[derive(Clone, Copy, Debug)]
enum Cmp {
    Never,
    Sphere,
    Worst,
    First,
    Quant,
    Lex,
    Valley,
}
const CMPS: [Cmp; 7] = [Cmp::Never, Cmp::Sphere, Cmp::Worst, Cmp::First, Cmp::Quant, Cmp::Lex, Cmp::Valley];
fn less<const N: usize>(m: Cmp, a: &[f64; N], b: &[f64; N]) -> bool {
    let sq = |x: &[f64; N]| x.iter().map(|t| t * t).sum::<f64>();
    match m {
        Cmp::Never => false,
        Cmp::Sphere => sq(a) < sq(b),
        Cmp::Worst => sq(a) > sq(b),
        Cmp::First => a[0] < b[0],
        Cmp::Quant => sq(a).floor() < sq(b).floor(),
        Cmp::Lex => a.partial_cmp(b) == Some(std::cmp::Ordering::Less),
        Cmp::Valley => (a[N - 1] - 1.25).abs() < (b[N - 1] - 1.25).abs(),
    }
}
#[derive(Clone, Debug)]
struct Cfg<const N: usize> {
    bounds: [(f64, f64); N],
    n: usize,
    cr: f32,
    w: f64,
    iters: usize,
    cmp: Cmp,
    seed: u64,
    mode: u32,
}
type Log<T, const N: usize> = Vec<([T; N], [T; N], bool)>;
fn run<T: Num, const N: usize>(g: &Cfg<N>, cmp: Cmp, iters: usize) -> ([T; N], Log<T, N>)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let log: RefCell<Log<T, N>> = RefCell::new(vec![]);
    let bounds: [(T, T); N] = g.bounds.map(|(a, b)| (T::of(a), T::of(b)));
    let mut rng = Stream::new(g.seed, g.mode);
    let r = differential_evolution(&bounds, g.n, g.cr, T::of(g.w), iters, &mut rng, |a: &[T; N], b: &[T; N]| {
        let r = less(cmp, &a.map(|x| x.to()), &b.map(|x| x.to()));
        log.borrow_mut().push((*a, *b, r));
        r
    });
    (r, log.into_inner())
}
fn gen<const N: usize>(c: &mut Ctx) -> Cfg<N> {
    let mut bounds = [(0.0, 1.0); N];
    for b in bounds.iter_mut() {
        *b = match c.below(5) {
            0 => (-5.0, 5.0),
            1 => (0.0, 1.0),
            2 => (100.0, 101.0),
            3 => (-3.0, -1.0),
            _ => {
                let l = c.below(2000) as f64 / 100.0 - 10.0;
                (l, l + 0.25 + c.below(800) as f64 / 100.0)
            }
        };
    }
    let ks: Vec<i64> = c.consts.iter().cloned().filter(|&k| (4..=300).contains(&k)).collect();
    let n = match c.below(4) {
        0 => 4,
        1 => 4 + c.below(5) as usize,
        2 if !ks.is_empty() => (*c.pick(&ks) + c.below(3) as i64 - 1).max(4) as usize,
        _ => 4 + c.below(30) as usize,
    };
    let its: Vec<i64> = c.consts.iter().cloned().filter(|&k| (0..=3000).contains(&k)).collect();
    let iters = match c.below(8) {
        0 => 0,
        1 => c.below(3) as usize,
        2 => n * c.below(4) as usize,
        3 if !its.is_empty() => (*c.pick(&its) + c.below(3) as i64 - 1).max(0) as usize,
        4 => n + c.below(n as u64) as usize,
        5 => c.below(700) as usize,
        _ => c.below(120) as usize,
    };
    let fs: Vec<f64> = c.fconsts.clone();
    let cr = match c.below(7) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 if !fs.is_empty() => c.pick(&fs).clamp(0.0, 1.0) as f32,
        _ => c.unit() as f32,
    };
    let w = match c.below(7) {
        0 => 0.0,
        1 => 2.0,
        2 => 0.5,
        3 if !fs.is_empty() => c.pick(&fs).clamp(0.0, 2.0),
        _ => (c.unit() * 2.0) as f32 as f64,
    };
    Cfg { bounds, n, cr, w, iters, cmp: *c.pick(&CMPS), seed: c.u(), mode: c.below(4) as u32 }
}
/// Runs far beyond the usual: many iterations, or a large population.
fn long<const N: usize>(c: &mut Ctx, max_n: usize) -> Vec<Cfg<N>> {
    let mut its = vec![70_000, 140_003];
    for &k in c.consts.clone().iter().filter(|&&k| (3000..=400_000).contains(&k)) {
        its.push(k as usize + 23);
        its.push(2 * k as usize + 23);
    }
    let mut out = vec![];
    for it in its {
        for n in [5, 7] {
            let mut g = gen::<N>(c);
            (g.n, g.iters, g.cr, g.w) = (n, it, 0.5, 0.5);
            g.cmp = if n == 5 { Cmp::Never } else { Cmp::Sphere };
            g.mode = 0;
            out.push(g);
        }
    }
    let mut ns = vec![300, 1000, 70_001];
    for &k in c.consts.clone().iter().filter(|&&k| (300..=400_000).contains(&k)) {
        ns.extend([k as usize, k as usize + 1]);
    }
    for n in ns.into_iter().filter(|&n| n <= max_n) {
        for it in [0, 3, n + 3] {
            let mut g = gen::<N>(c);
            (g.n, g.iters, g.cr, g.w) = (n, it, 0.5, 0.5);
            g.cmp = *c.pick(&[Cmp::Sphere, Cmp::First, Cmp::Valley]);
            g.mode = 0;
            out.push(g);
        }
    }
    out
}
/// the initial candidates: with a comparator that never prefers the first
/// argument, iteration i presents initial member i as the second one
fn initial<T: Num, const N: usize>(g: &Cfg<N>) -> Vec<[T; N]>
where
    f32: Into<T>,
    i8: Into<T>,
{
    let (_, log) = run::<T, N>(g, Cmp::Never, g.n);
    log.iter().take(g.n).map(|l| l.1).collect()
}
/// no coordinate anywhere near overflow (a comparison of NaNs is no order)
fn tame<T: Num, const N: usize>(log: &Log<T, N>) -> bool {
    let big = if std::mem::size_of::<T>() == 4 { 1e30 } else { 1e100 };
    log.iter().all(|l| l.0.iter().chain(l.1.iter()).all(|x| x.to().abs() < big))
}
fn bits<T: Num, const N: usize>(a: &[T; N]) -> [u64; N] {
    a.map(|x| x.to().to_bits())
}

fn c22_run<T: Num, const N: usize>(c: &mut Ctx, ty: &str)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let g = gen::<N>(c);
    c22_case::<T, N>(c, ty, g)
}
fn c22_case<T: Num, const N: usize>(c: &mut Ctx, ty: &str, g: Cfg<N>)
where
    f32: Into<T>,
    i8: Into<T>,
{
    c.case(|| format!("differential evolution over {ty}: {g:?}"));
    let at = || format!("differential evolution over {ty} with {g:?} (streams as in harness/src/de.rs)");
    let (best, log) = run::<T, N>(&g, g.cmp, g.iters);
    if !tame(&log) {
        return;
    }
    let init = initial::<T, N>(&g);
    let b64 = best.map(|x| x.to());
    let mut seen = false;
    for x in init.iter().chain(log.iter().flat_map(|l| [&l.0, &l.1])) {
        let x64 = x.map(|t| t.to());
        c.check(!less(g.cmp, &x64, &b64), || format!("{}: candidate {x:?} of the run is strictly better than the returned {best:?}", at()));
        seen |= bits(x) == bits(&best);
    }
    c.check(seen, || format!("{}: the returned point {best:?} is no candidate of the run", at()));
    if g.iters == 0 {
        c.check(init.iter().any(|x| bits(x) == bits(&best)), || format!("{}: without iterations the returned point {best:?} is no initial candidate", at()));
    }
}
pub fn c22(c: &mut Ctx) {
    for g in long::<2>(c, 70_001) {
        c22_case::<f64, 2>(c, "f64", g);
    }
    for _ in 0..c.reps(1200) {
        c22_run::<f64, 1>(c, "f64");
        c22_run::<f64, 2>(c, "f64");
        c22_run::<f32, 3>(c, "f32");
        c22_run::<f64, 5>(c, "f64");
    }
    for n in c.lens(&(4..=40).collect::<Vec<_>>(), 600) {
        if n < 4 {
            continue;
        }
        for cmp in CMPS {
            let mut g = gen::<2>(c);
            g.n = n;
            g.cmp = cmp;
            g.iters = *c.pick(&[0, 1, n, 2 * n + 1]);
            let g2 = g.clone();
            c.case(|| format!("differential evolution over f64: {g2:?}"));
            let (best, log) = run::<f64, 2>(&g, g.cmp, g.iters);
            if !tame(&log) {
                continue;
            }
            for x in initial::<f64, 2>(&g).iter().chain(log.iter().flat_map(|l| [&l.0, &l.1])) {
                c.check(!less(cmp, x, &best), || format!("differential evolution over f64 with {g:?}: candidate {x:?} is strictly better than the returned {best:?}"));
            }
        }
    }
}

fn c23_run<T: Num, const N: usize>(c: &mut Ctx, ty: &str)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let mut g = gen::<N>(c);
    g.n = g.n.min(12);
    c23_case::<T, N>(c, ty, g)
}
fn c23_case<T: Num, const N: usize>(c: &mut Ctx, ty: &str, g: Cfg<N>)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let n = g.n;
    c.case(|| format!("differential evolution over {ty}: {g:?}"));
    let at = || format!("differential evolution over {ty} with {g:?} (streams as in harness/src/de.rs)");
    let init = initial::<T, N>(&g);
    let bounds: [(T, T); N] = g.bounds.map(|(a, b)| (T::of(a), T::of(b)));
    for (m, x) in init.iter().enumerate() {
        for d in 0..N {
            c.check(bounds[d].0 <= x[d] && x[d] <= bounds[d].1, || format!("{}: coordinate {d} of initial candidate {m} is {:?}, outside its bounds", at(), x[d]));
        }
    }
    let (_, log) = run::<T, N>(&g, g.cmp, g.iters);
    if !tame(&log) {
        return;
    }
    c.check(log.len() >= g.iters, || format!("{}: only {} comparisons", at(), log.len()));
    let mut cur = init;
    let w = T::of(g.w);
    for (t, (x, member, better)) in log.iter().take(g.iters).enumerate() {
        let i = t % n;
        c.check(bits(member) == bits(&cur[i]), || format!("{}: iteration {t} compares with {member:?}, but member {i} is {:?}", at(), cur[i]));
        // coordinates that certainly come from the combination
        let near = |a: T, b: T, s: f64| (a.to() - b.to()).abs() <= 4.0 * s * if std::mem::size_of::<T>() == 4 { f32::EPSILON as f64 } else { f64::EPSILON };
        let mut ok = false;
        'find: for j in 0..n {
            for k in 0..n {
                for l in 0..n {
                    if j == i || k == i || l == i || j == k || j == l || k == l {
                        continue;
                    }
                    let mut all = true;
                    let mut some = false;
                    for d in 0..N {
                        let m = cur[j][d] + (cur[k][d] - cur[l][d]) * w;
                        let s = cur[j][d].to().abs() + 2.0 * (cur[k][d].to().abs() + cur[l][d].to().abs());
                        let mutated = near(x[d], m, s);
                        let kept = x[d].to().to_bits() == member[d].to().to_bits();
                        some |= mutated;
                        all &= mutated || (kept && g.cr < 1.0);
                    }
                    if all && some {
                        ok = true;
                        break 'find;
                    }
                }
            }
        }
        c.check(ok, || format!("{}: trial {t} (for member {i}) is {x:?}, which no choice of three distinct other members explains\n  members: {cur:?}", at()));
        if *better {
            cur[i] = *x;
        }
    }
}
pub fn c23(c: &mut Ctx) {
    for g in long::<2>(c, 0) {
        c23_case::<f64, 2>(c, "f64", g);
    }
    for n in c.lens(&[13, 16, 17, 31, 32, 33], 70) {
        let mut g = gen::<2>(c);
        g.n = n.max(4);
        g.iters = g.iters.min(60);
        c23_case::<f64, 2>(c, "f64", g);
    }
    for _ in 0..c.reps(500) {
        c23_run::<f64, 1>(c, "f64");
        c23_run::<f64, 2>(c, "f64");
        c23_run::<f32, 3>(c, "f32");
        c23_run::<f64, 6>(c, "f64");
        c23_run::<f32, 9>(c, "f32");
    }
}

fn c24_run<T: Num, const N: usize>(c: &mut Ctx, ty: &str)
where
    f32: Into<T>,
    i8: Into<T>,
{
    let g = gen::<N>(c);
    c24_case::<T, N>(c, ty, g)
}
fn c24_case<T: Num, const N: usize>(c: &mut Ctx, ty: &str, g: Cfg<N>)
where
    f32: Into<T>,
    i8: Into<T>,
{
    c.case(|| format!("differential evolution over {ty}: {g:?}"));
    let at = || format!("differential evolution over {ty} with {g:?} (streams as in harness/src/de.rs)");
    let (_, log) = run::<T, N>(&g, g.cmp, g.iters);
    c.check(log.len() == g.iters + g.n - 1, || format!("{}: {} comparisons instead of {} + {} - 1", at(), log.len(), g.iters, g.n));
    if !tame(&log) {
        return;
    }
    let mut cur = initial::<T, N>(&g);
    for (t, (x, member, better)) in log.iter().take(g.iters).enumerate() {
        let i = t % g.n;
        c.check(bits(member) == bits(&cur[i]), || format!("{}: the second argument in iteration {t} is {member:?}, but the current member {i} is {:?}", at(), cur[i]));
        if *better {
            cur[i] = *x;
        }
    }
    // the final selection compares current members
    let now: std::collections::HashSet<[u64; N]> = cur.iter().map(bits).collect();
    for (a, b, _) in log.iter().skip(g.iters) {
        for x in [a, b] {
            c.check(now.contains(&bits(x)), || format!("{}: the final selection compares {x:?}, which is no current member", at()));
        }
    }
}
fn args<T: Num>(c: &mut Ctx, n: usize, cr: f32, w: f64, ok: bool, ty: &str)
where
    f32: Into<T>,
    i8: Into<T>,
{
    for iters in [3, 0, 1] {
        args_iters::<T>(c, n, cr, w, iters, ok, ty);
    }
}
fn args_iters<T: Num>(c: &mut Ctx, n: usize, cr: f32, w: f64, iters: usize, ok: bool, ty: &str)
where
    f32: Into<T>,
    i8: Into<T>,
{
    c.case(|| format!("arguments population {n}, crossover {cr:?}, weight {w:?}, {iters} iterations over {ty}"));
    let calls = std::cell::Cell::new(0usize);
    let bounds = [(T::of(-1.0), T::of(1.0)); 2];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut rng = Stream::new(5, 0);
        differential_evolution(&bounds, n, cr, T::of(w), iters, &mut rng, |a: &[T; 2], b: &[T; 2]| {
            calls.set(calls.get() + 1);
            a[0] < b[0]
        })
    }));
    let at = || format!("population {n}, crossover probability {cr:?}, differential weight {w:?}, {iters} iterations over {ty}");
    if ok {
        c.check(r.is_ok(), || format!("valid arguments ({}) panic", at()));
    } else {
        c.check(r.is_err(), || format!("invalid arguments ({}) are accepted", at()));
        c.check(calls.get() == 0, || format!("invalid arguments ({}): the comparator was called {} times before the panic", at(), calls.get()));
    }
}
pub fn c24(c: &mut Ctx) {
    let mut crs: Vec<f32> = vec![0.0, -0.0, 1.0, 0.5, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON, -1e-45, 1e-45, -f32::MIN_POSITIVE, 2.0, -1.0, 1.5, 1e30, 0.999];
    let mut ws: Vec<f64> = vec![0.0, -0.0, 2.0, 1.0, 0.5, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0 + 2.0 * f64::EPSILON, 2.0 - 2.0 * f64::EPSILON, -5e-324, 5e-324, 2.0000005, -1e-30, 3.0, -1.0, 2.5, 1.99];
    for f in c.fconsts.clone() {
        crs.extend([f as f32, f as f32 * 1.0001, f as f32 * 0.9999]);
        ws.extend([f, f * 1.0001, f * 0.9999]);
    }
    for &cr in &crs {
        let okc = cr >= 0.0 && cr <= 1.0;
        for &w in &ws {
            args::<f64>(c, 4, cr, w, okc && w >= 0.0 && w <= 2.0, "f64");
            let wf = w as f32;
            args::<f32>(c, 5, cr, w, okc && wf >= 0.0 && wf <= 2.0, "f32");
        }
    }
    for n in c.lens(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 64, 100], 3000) {
        args::<f64>(c, n, 0.5, 0.5, n >= 4, "f64");
        args::<f32>(c, n, 0.0, 2.0, n >= 4, "f32");
        args::<f64>(c, n, f32::NAN, 0.5, false, "f64");
    }
    for g in long::<2>(c, 1000) {
        c24_case::<f64, 2>(c, "f64", g);
    }
    for _ in 0..c.reps(1000) {
        c24_run::<f64, 1>(c, "f64");
        c24_run::<f64, 2>(c, "f64");
        c24_run::<f32, 3>(c, "f32");
        c24_run::<f64, 5>(c, "f64");
    }
}
