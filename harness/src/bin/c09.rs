//! C09: robust kernels.
use factrs::robust::{Cauchy, Fair, GemanMcClure, Huber, RobustCost, Tukey, Welsch, L1, L2};
use harness::{engine::*, ensure, graphs::Rob, note};

fn gen_c(g: &mut Gen) -> f64 {
    match g.below(6) {
        0 => 1.0,
        1 => g.logu(1e-3, 1e3),
        2 => g.logu(1e-6, 1e6),
        _ => g.uniform(0.2, 8.0),
    }
}
fn gen_kernel(g: &mut Gen) -> (Rob, Box<dyn RobustCost>, f64, bool) {
    // default construction is construction with the documented parameter
    let c = gen_c(g);
    let k = g.below(14);
    let (r, b, c, d): (Rob, Box<dyn RobustCost>, f64, bool) = match k {
        0 => (Rob::L2, if g.bool() { Box::new(L2) } else { Box::new(L2::default()) }, 1.0, false),
        1 => (Rob::L1, if g.bool() { Box::new(L1) } else { Box::new(L1::default()) }, 1.0, false),
        2 => (Rob::Huber(c), Box::new(Huber::new(c)), c, false),
        3 => (Rob::Fair(c), Box::new(Fair::new(c)), c, false),
        4 => (Rob::Cauchy(c), Box::new(Cauchy::new(c)), c, false),
        5 => (Rob::Geman(c), Box::new(GemanMcClure::new(c)), c, false),
        6 => (Rob::Welsch(c), Box::new(Welsch::new(c)), c, false),
        7 => (Rob::Tukey(c), Box::new(Tukey::new(c)), c, false),
        8 => (Rob::Huber(1.345), Box::new(Huber::default()), 1.345, true),
        9 => (Rob::Fair(1.3998), Box::new(Fair::default()), 1.3998, true),
        10 => (Rob::Cauchy(2.3849), Box::new(Cauchy::default()), 2.3849, true),
        11 => (Rob::Geman(1.3998), Box::new(GemanMcClure::default()), 1.3998, true),
        12 => (Rob::Welsch(2.9846), Box::new(Welsch::default()), 2.9846, true),
        _ => (Rob::Tukey(4.6851), Box::new(Tukey::default()), 4.6851, true),
    };
    if d {
        g.class("default construction");
    }
    (r, b, c, d)
}
/// residual magnitude, dense around the kernel's own scale and its switch points
fn gen_x(g: &mut Gen, c: f64) -> f64 {
    match g.below(8) {
        0 => {
            g.class("x = 0");
            0.0
        }
        1 => {
            g.class("x at the switch");
            c * (1.0 + g.sym(1e-3))
        }
        2 => c * g.logu(1e-6, 1e-2),
        3 => {
            g.class("x far out");
            c * g.logu(10.0, 1e9)
        }
        4 => 1e-3f64.sqrt() * (1.0 + g.sym(0.5)),
        _ => c * g.uniform(0.0, 3.0),
    }
}
fn values(g: &mut Gen) -> Outcome {
    let (r, k, c, _) = gen_kernel(g);
    let x = gen_x(g, c);
    let d2 = x * x;
    note!(g, "{r:?} at x = {x}, x^2 = {d2}");
    let (l, w) = (k.loss(d2), k.weight(d2));
    ensure!(l >= -1e-13 * c * c, "{r:?}: loss({d2}) = {l} is negative");
    ensure!(w >= 0.0 && w.is_finite(), "{r:?}: weight({d2}) = {w}");
    ensure!(k.loss(0.0) == 0.0, "{r:?}: loss(0) = {}", k.loss(0.0));
    let want = r.loss(d2);
    // the documented formulas subtract numbers of size c^2 (or c x)
    let size = match r {
        Rob::L2 | Rob::L1 | Rob::Geman(_) => want,
        Rob::Fair(c) => c * c * (1.0 + x / c),
        _ => want + c * c,
    };
    ensure!((l - want).abs() <= 1e-13 * size + 1e-300, "{r:?}: loss({d2}) = {l}, documented {want}");
    let want = r.weight(d2);
    let at_switch = r.kink().map_or(false, |k| (x / k - 1.0).abs() < 1e-9);
    if !at_switch {
        ensure!((w - want).abs() <= 1e-12 * (want + if matches!(r, Rob::Tukey(_)) { 1.0 } else { 0.0 }) + 1e-300, "{r:?}: weight({d2}) = {w}, influence over residual {want}");
    }
    // bounded kernels
    if let Some(b) = match r {
        Rob::Geman(c) | Rob::Welsch(c) => Some(c * c / 2.0),
        Rob::Tukey(c) => Some(c * c / 6.0),
        _ => None,
    } {
        ensure!(l <= b * (1.0 + 1e-12), "{r:?}: loss({d2}) = {l} exceeds its bound {b}");
    }
    Ok(x > 0.0)
}
/// relations between two residuals, without the documented formulas
fn shape(g: &mut Gen) -> Outcome {
    let (r, k, c, _) = gen_kernel(g);
    let a = gen_x(g, c);
    let b = if g.bool() { gen_x(g, c) } else { a * (1.0 + g.logu(1e-6, 1.0)) };
    let (a, b) = (a.min(b), a.max(b));
    note!(g, "{r:?} at {a} and {b}");
    let (la, lb) = (k.loss(a * a), k.loss(b * b));
    ensure!(la <= lb + 1e-13 * (c * c + lb + c * b), "{r:?}: loss decreases from {la} at {a} to {lb} at {b}");
    if !(matches!(r, Rob::L1) && a * a <= 1e-3) {
        ensure!(k.weight(a * a) >= k.weight(b * b) - 1e-13, "{r:?}: weight increases between {a} and {b}");
    }
    // mean value: the loss difference is the integral of weight * x
    if b - a > 1e-3 * c && b < 100.0 * c && !(matches!(r, Rob::L1) && a * a <= 1e-3) {
        let n = 200;
        let h = (b - a) / n as f64;
        let mut s = 0.0;
        for i in 0..n {
            let f = |x: f64| k.weight(x * x) * x;
            let x0 = a + i as f64 * h;
            s += h / 6.0 * (f(x0) + 4.0 * f(x0 + h / 2.0) + f(x0 + h));
        }
        let tol = 1e-5 * (lb + la) + h * h * 2.0 * (1.0 + 1.0 / c.min(1.0)) + 1e-12 * (c * c + c * b);
        ensure!((s - (lb - la)).abs() < tol, "{r:?}: loss grows by {} between {a} and {b}, but weight*x integrates to {s}", lb - la);
        g.class("integral");
    }
    Ok(b > a)
}

fn main() {
    harness::engine::main(Property {
        id: "C09",
        rule: "8 kernels, parameters 1e-6..1e6 and default construction; residuals 0, 1e-6..1e9 times the parameter, within 0.1% of the switch points. Oracle: the documented loss table in an independently rounded form and its closed-form derivative; plus formula-free shape relations (monotone, bounded, loss difference = integral of weight times residual). Non-trivial: x > 0 / the two residuals differ.",
        assumptions: &["the L1 weight is exempted up to x^2 = 1e-3, as stated", "at a switch point (within 1e-9) the weight is not compared"],
        subs: vec![sub("values", 600_000, values), sub("shape", 200_000, shape)],
    });
}
