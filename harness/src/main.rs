#![allow(unused_macros, dead_code, unused_imports)]
//! Bounded companion of the proofs: exercises the public interface of the
//! crate under test with exact coefficient types and compares with the
//! specification.  usage: vharness PROPERTY SEED TIER [TRACE-FILE]
//! VERIF_CONSTS / VERIF_FCONSTS: numbers occurring in the source under test.
#[cfg(feature = "complex")]
mod complex;
mod ctx;
#[cfg(feature = "de")]
mod de;
#[cfg(feature = "dynm")]
mod dynm;
#[cfg(any(feature = "dynv", feature = "dynm"))]
mod dynv;
#[cfg(feature = "poly")]
mod poly;
#[cfg(feature = "prim")]
mod prim;
#[cfg(any(feature = "c09", feature = "c10", feature = "c11", feature = "c12"))]
mod stat;
#[cfg(feature = "tf")]
mod tf;
mod types;
use ctx::{Ctx, Failure};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn list<T: std::str::FromStr>(name: &str) -> Vec<T> {
    std::env::var(name).unwrap_or_default().split(',').filter_map(|s| s.trim().parse().ok()).collect()
}

/// processor time this process has used, in seconds
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

/// Ends the process (status 4) when one case has used a minute of processor time.
fn watchdog() {
    let now = || ctx::STARTED.load(std::sync::atomic::Ordering::Relaxed);
    let (mut n, mut at) = (now(), cpu());
    loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if now() != n {
            (n, at) = (now(), cpu());
        } else if cpu() - at > 60.0 {
            println!("HANG case {n}");
            std::process::exit(4);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = args[2].parse().unwrap_or(1);
    let mut c = Ctx::new(seed, args[3] == "thorough", list("VERIF_CONSTS"), list("VERIF_FCONSTS"), args.get(4).cloned());
    let f: fn(&mut Ctx) = match args[1].as_str() {
        #[cfg(feature = "tf")]
        "C26" => tf::c26,
        #[cfg(feature = "complex")]
        "C01" => complex::c01,
        #[cfg(feature = "complex")]
        "C02" => complex::c02,
        #[cfg(feature = "complex")]
        "C03" => complex::c03,
        #[cfg(feature = "complex")]
        "C04" => complex::c04,
        #[cfg(feature = "complex")]
        "C05" => complex::c05,
        #[cfg(feature = "poly")]
        "C06" => poly::c06,
        #[cfg(feature = "poly")]
        "C07" => poly::c07,
        #[cfg(feature = "poly")]
        "C08" => poly::c08,
        #[cfg(feature = "c09")]
        "C09" => stat::c09,
        #[cfg(feature = "c10")]
        "C10" => stat::c10,
        #[cfg(feature = "c11")]
        "C11" => stat::c11,
        #[cfg(feature = "c12")]
        "C12" => stat::c12,
        #[cfg(feature = "dynv")]
        "C13" => dynv::c13,
        #[cfg(feature = "dynv")]
        "C14" => dynv::c14,
        #[cfg(feature = "dynv")]
        "C15" => dynv::c15,
        #[cfg(feature = "dynm")]
        "C16" => dynm::c16,
        #[cfg(feature = "dynm")]
        "C17" => dynm::c17,
        #[cfg(feature = "dynm")]
        "C18" => dynm::c18,
        #[cfg(feature = "dynm")]
        "C19" => dynm::c19,
        #[cfg(feature = "dynm")]
        "C20" => dynm::c20,
        #[cfg(feature = "prim")]
        "C21" => prim::c21,
        #[cfg(feature = "de")]
        "C22" => de::c22,
        #[cfg(feature = "de")]
        "C23" => de::c23,
        #[cfg(feature = "de")]
        "C24" => de::c24,
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(3);
        }
    };
    std::panic::set_hook(Box::new(|_| {}));
    let last = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new({
        let last: &'static std::sync::Mutex<String> = Box::leak(Box::new(last));
        move |i| {
            *last.lock().unwrap() = format!("{i}");
            unsafe { LAST = Some(last) };
        }
    }));
    let child = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        (c, r)
    });
    let child = child.unwrap();
    std::thread::spawn(watchdog);
    let (c, r) = child.join().unwrap();
    match r {
        Ok(()) => {
            println!("OK {}", c.cases);
            for s in &c.samples {
                println!("SAMPLE {}", s.replace('\n', " "));
            }
        }
        Err(e) => {
            if let Some(Failure(d)) = e.downcast_ref::<Failure>() {
                println!("FAIL case {}\n{d}", c.cases);
                std::process::exit(1);
            }
            let msg = unsafe { LAST.map(|l| l.lock().unwrap().clone()) }.unwrap_or_default();
            println!("PANIC case {}\n{msg}", c.cases);
            std::process::exit(2);
        }
    }
}
static mut LAST: Option<&'static std::sync::Mutex<String>> = None;
