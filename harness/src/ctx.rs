//! Case bookkeeping and random generation.
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    state: u64,
    pub cases: u64,
    pub samples: Vec<String>,
    pub thorough: bool,
    pub consts: Vec<i64>,
    pub fconsts: Vec<f64>,
    pub trace: Option<String>,
    case_no: u64,
    fast_panics: bool,
}

/// number of cases started, for the watchdog
pub static STARTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

#[derive(Debug)]
pub struct Failure(pub String);

impl Ctx {
    pub fn new(seed: u64, thorough: bool, consts: Vec<i64>, fconsts: Vec<f64>, trace: Option<String>) -> Self {
        Ctx { state: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def0, cases: 0, samples: vec![], thorough, consts, fconsts, trace, case_no: 0, fast_panics: false }
    }
    /// Announces a case; the description is only rendered when tracing.
    pub fn case<F: FnOnce() -> String>(&mut self, f: F) {
        self.cases += 1;
        self.case_no += 1;
        STARTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, f());
        } else if self.samples.len() < 3 && (self.case_no % 97 == 5) {
            let mut s = f();
            if s.len() > 400 {
                s.truncate(s.char_indices().take(400).last().map(|x| x.0).unwrap_or(0));
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn check<F: FnOnce() -> String>(&self, ok: bool, f: F) {
        if !ok {
            std::panic::panic_any(Failure(f()));
        }
    }
    pub fn eq<T: PartialEq + Debug, F: FnOnce() -> String>(&self, got: &T, want: &T, f: F) {
        if got != want {
            std::panic::panic_any(Failure(format!("{}\n  got      {:?}\n  expected {:?}", f(), got, want)));
        }
    }
    pub fn u(&mut self) -> u64 {
        // splitmix64
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u() % n
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// number of repetitions: 5 n in the quick tier, 100 n in the thorough one
    pub fn reps(&self, n: usize) -> usize {
        if self.thorough {
            n * 100
        } else {
            n * 5
        }
    }
    /// lengths to try: the given base plus the neighbourhood of every integer
    /// constant in the source under test up to `max`
    pub fn lens(&self, base: &[usize], max: usize) -> Vec<usize> {
        let mut v: Vec<usize> = base.to_vec();
        for &c in &self.consts {
            if c >= 0 {
                let c = c as usize;
                for d in [c.saturating_sub(1), c, c + 1, c + 2, 2 * c + 1] {
                    if d <= max {
                        v.push(d);
                    }
                }
                for d in [2 * c, 2 * c + 1, c / 2] {
                    if d <= max.min(64) {
                        v.push(d);
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// Runs `f`, expecting a panic; anything else is a failure.
    pub fn panics<R, F: FnOnce() -> R, D: FnOnce() -> String>(&mut self, f: F, d: D) {
        let _ = self.fast_panics;
        let r = catch_unwind(AssertUnwindSafe(f));
        if r.is_ok() {
            std::panic::panic_any(Failure(format!("{}\n  expected a panic, but the call returned", d())));
        }
    }
}
