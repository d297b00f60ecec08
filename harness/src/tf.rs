//! Test functions for optimizers.
use crate::ctx::Ctx;
use magnesia::optimize::test_functions::ackley;

fn reference(x: f32, y: f32) -> f64 {
    use std::f64::consts::{E, PI};
    let (x, y) = (x as f64, y as f64);
    -20.0 * (-0.2 * (0.5 * (x * x + y * y)).sqrt()).exp_m1() - (0.5 * ((2.0 * PI * x).cos() + (2.0 * PI * y).cos())).exp() + E
}
fn point(c: &mut Ctx, x: f32, y: f32) {
    c.case(|| format!("ackley({:?}, {:?})", x, y));
    let (got, want) = (ackley(x, y) as f64, reference(x, y));
    // f32 rounding, and that of 2 pi x
    let tol = 2e-5 + 4e-6 * (x.abs() as f64 + y.abs() as f64);
    c.check((got - want).abs() <= tol, || format!("ackley({:?}, {:?})\n  got      {:?}\n  expected {:?} up to {:e}", x, y, got, want, tol));
}
pub fn c26(c: &mut Ctx) {
    let mut v: Vec<f32> = vec![0.0, -0.0, 1e-40, 1e-20, 1e-8, 1e-5, 1e-3, 0.01, 0.1, 1.0 / 3.0, 0.999, 1.001, 2.0, 3.0, 4.0, 4.999, 5.0, 5.001, 6.5, 7.25, 10.0, 12.3, 31.4, 32.768, 33.1, 64.0, 99.7, 100.1, 255.5, 500.25, 1000.0];
    for f in c.fconsts.clone() {
        let f = f as f32;
        for g in [f, f * 1.001, f * 0.999, f * 2.0, f * 0.5, f.sqrt()] {
            if g.is_finite() && g.abs() <= 1000.0 {
                v.push(g);
            }
        }
    }
    for k in c.consts.clone() {
        if k.abs() <= 1000 {
            v.extend([k as f32, k as f32 + 0.25, k as f32 - 0.25]);
        }
    }
    for i in 0..v.len() {
        let m = -v[i];
        v.push(m);
    }
    for &x in &v {
        for &y in &v {
            point(c, x, y);
        }
    }
    for i in -20..=20 {
        for j in -20..=20 {
            point(c, i as f32 * 0.25, j as f32 * 0.25);
        }
    }
    for _ in 0..c.reps(20000) {
        let s = *c.pick(&[5.0, 5.0, 5.0, 1.0, 0.01, 40.0]);
        let (x, y) = ((c.unit() * 2.0 - 1.0) * s, (c.unit() * 2.0 - 1.0) * s);
        // on the axes and the diagonals too
        match c.below(8) {
            0 => point(c, x as f32, x as f32),
            1 => point(c, x as f32, -x as f32),
            2 => point(c, x as f32, 0.0),
            3 => point(c, 0.0, y as f32),
            4 => point(c, x.round() as f32, y as f32),
            _ => point(c, x as f32, y as f32),
        }
    }
}
