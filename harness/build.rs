// Generates the lists of dimensions used for const-generic types: a fixed
// base list plus the integers found in the source under test (VERIF_DIMS).
use std::io::Write;
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_DIMS");
    let mined: Vec<usize> = std::env::var("VERIF_DIMS")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.trim().parse().ok())
        .filter(|n| *n <= 300)
        .collect();
    let mut dims: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 31, 32, 33, 50, 64, 65, 100];
    for &m in &mined {
        for d in [m.saturating_sub(1), m, m + 1] {
            dims.push(d);
        }
    }
    dims.sort();
    dims.dedup();
    let mut shapes: Vec<(usize, usize)> = vec![];
    for r in 0..=6 {
        for c in 0..=6 {
            shapes.push((r, c));
        }
    }
    shapes.extend([(8, 8), (9, 9), (7, 10), (10, 7), (16, 16), (17, 17), (16, 3), (3, 17), (1, 33), (33, 1), (2, 64), (64, 2), (32, 32), (1, 9), (12, 2), (2, 12)]);
    let mut triples: Vec<(usize, usize, usize)> = vec![];
    for l in 0..=4 {
        for m in 0..=5 {
            for n in 0..=4 {
                triples.push((l, m, n));
            }
        }
    }
    triples.extend([(5, 5, 5), (6, 6, 6), (7, 7, 7), (8, 8, 8), (9, 9, 9), (16, 16, 16), (17, 17, 17), (2, 16, 3), (3, 17, 2), (16, 2, 3), (2, 3, 16), (1, 33, 1), (1, 64, 2), (33, 2, 33), (1, 7, 1), (6, 2, 7), (2, 6, 2), (8, 3, 5), (3, 8, 2), (4, 9, 4), (1, 6, 5), (1, 10, 1), (1, 12, 2), (10, 10, 10), (12, 12, 12), (20, 1, 20)]);
    let mut squares: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17];
    for &m in &mined {
        if m <= 70 {
            for d in [m.saturating_sub(1), m, m + 1] {
                shapes.extend([(d, 2), (2, d), (d, d), (d, 3), (3, d)]);
                triples.extend([(d, 2, 2), (2, d, 2), (2, 2, d), (d, d, d), (d, d, 2), (2, d, d), (d, 3, d)]);
                squares.push(d);
            }
        }
    }
    shapes.sort();
    shapes.dedup();
    triples.sort();
    triples.dedup();
    squares.sort();
    squares.dedup();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("dims.rs");
    let mut f = std::fs::File::create(out).unwrap();
    write!(f, "macro_rules! each_dim {{ ($f:ident, $ctx:expr) => {{ ").unwrap();
    for d in &dims {
        write!(f, "$f::<{d}>($ctx);").unwrap();
    }
    writeln!(f, " }} }}").unwrap();
    write!(f, "macro_rules! each_shape {{ ($f:ident, $ctx:expr) => {{ ").unwrap();
    for (r, c) in &shapes {
        write!(f, "$f::<{r},{c}>($ctx);").unwrap();
    }
    writeln!(f, " }} }}").unwrap();
    write!(f, "macro_rules! each_triple {{ ($f:ident, $ctx:expr) => {{ ").unwrap();
    for (a, b, c) in &triples {
        write!(f, "$f::<{a},{b},{c}>($ctx);").unwrap();
    }
    writeln!(f, " }} }}").unwrap();
    write!(f, "macro_rules! each_square {{ ($f:ident, $ctx:expr) => {{ ").unwrap();
    for a in &squares {
        write!(f, "$f::<{a}>($ctx);").unwrap();
    }
    writeln!(f, " }} }}").unwrap();
}
