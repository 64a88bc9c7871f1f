//! C28: assertion helpers.
use factrs::{
    assert_variable_eq,
    linalg::VectorX,
    robust::{test_weight, Cauchy, Fair, GemanMcClure, Huber, RobustCost, Tukey, Welsch, L2},
    variables::{ImuBias, Variable, VectorVar, SE2, SE3, SO2, SO3},
};
use harness::{engine::*, ensure, geom::*, note, vars::Var};

fn ulps(d: f64) -> Option<u64> {
    if d == 0.0 {
        Some(0)
    } else if d > 0.0 {
        Some(d.to_bits())
    } else {
        None
    }
}
/// a tolerance dense around the largest component of the difference
fn gen_tol(g: &mut Gen, m: f64) -> f64 {
    match g.below(6) {
        0 => m,
        1 => m * (1.0 - 1e-12),
        2 => m * (1.0 + g.sym(0.3)),
        3 => 0.0,
        _ => g.logu(1e-12, 10.0),
    }
}
macro_rules! judge {
    ($g:ident, $t:ty, $move:expr) => {{
        let g = $g;
        let x: $t = <$t as Var>::gen_o(g, 1.0, 3.0);
        // one component (often not the first), several, or none differ, by a little or a lot
        let n = <$t as Variable>::DIM;
        let mut d = vec![0.0; n];
        let size = match g.below(4) {
            0 => 0.0,
            1 => g.logu(1e-300, 1e-12),
            _ => g.logu(1e-12, 1.0),
        };
        if g.bool() {
            let k = g.below(n as u64) as usize;
            d[k] = g.sign() * size;
        } else {
            d.iter_mut().for_each(|x| *x = g.sym(size));
        }
        let y: $t = $move(&x, &d);
        let (a, b) = if g.bool() { (x, y) } else { (y, x) };
        // what the library says the difference is (judged by C03) decides, component by component
        let e: Vec<f64> = Variable::ominus(&a, &b).iter().cloned().collect();
        let m = maxabs(e.iter());
        let (tol, ut) = (gen_tol(g, m), if g.bool() { g.below(10) } else { ulps(m).unwrap_or(0).wrapping_sub(g.below(2)) });
        note!(g, "{} differing by {e:?}, tolerances {tol} and {ut} ulp", <$t as Var>::NAME);
        let exact = e.iter().all(|d| *d == 0.0);
        let abs = |t: f64| e.iter().all(|d| d.abs() <= t);
        let ulp = |t: u64| e.iter().all(|d| ulps(*d).map_or(false, |u| u <= t));
        let float = |t: f64, u: u64| e.iter().all(|d| d.abs() <= t || ulps(*d).map_or(false, |w| w <= u));
        let eps = 4.0 * f64::EPSILON;
        for (form, want, got) in [
            ("(x, y)", exact, no_panic(|| assert_variable_eq!(a, b)).is_ok()),
            ("(&x, y)", exact, no_panic(|| assert_variable_eq!(&a, b)).is_ok()),
            ("comp = exact", exact, no_panic(|| assert_variable_eq!(a, b, comp = exact)).is_ok()),
            ("comp = abs", abs(tol), no_panic(|| assert_variable_eq!(a, b, comp = abs, tol = tol)).is_ok()),
            ("comp = ulp", ulp(ut), no_panic(|| assert_variable_eq!(a, b, comp = ulp, tol = ut)).is_ok()),
            ("comp = float", float(eps, 4), no_panic(|| assert_variable_eq!(a, b, comp = float)).is_ok()),
            ("comp = float, eps", float(tol, 4), no_panic(|| assert_variable_eq!(a, b, comp = float, eps = tol)).is_ok()),
            ("comp = float, ulp", float(eps, ut), no_panic(|| assert_variable_eq!(a, b, comp = float, ulp = ut)).is_ok()),
            ("comp = float, eps, ulp", float(tol, ut), no_panic(|| assert_variable_eq!(a, b, comp = float, eps = tol, ulp = ut)).is_ok()),
        ] {
            ensure!(want == got, "assert_variable_eq! {form} {} variables whose difference is {e:?}", if got { "accepts" } else { "rejects" });
        }
        if abs(tol) {
            g.class("accepted");
        } else {
            g.class("rejected");
        }
        Ok(!exact)
    }};
}
fn variables(g: &mut Gen) -> Outcome {
    fn mv<P: Variable>(x: &P, d: &[f64]) -> P
    where
        P: Variable<f64>,
    {
        x.oplus(VectorX::from_column_slice(d).as_view())
    }
    match g.below(7) {
        0 => judge!(g, SO2, mv),
        1 => judge!(g, SE2, mv),
        2 => judge!(g, SO3, mv),
        3 => judge!(g, SE3, mv),
        4 => judge!(g, ImuBias, mv),
        5 => judge!(g, VectorVar<1>, mv),
        _ => judge!(g, VectorVar<6>, mv),
    }
}

/// a kernel whose weight is off by a factor or an offset
#[derive(Debug)]
struct Off<K>(K, f64, f64);
impl<K: RobustCost> RobustCost for Off<K> {
    fn loss(&self, d2: f64) -> f64 {
        self.0.loss(d2)
    }
    fn weight(&self, d2: f64) -> f64 {
        self.0.weight(d2) * self.1 + self.2
    }
}
fn weights(g: &mut Gen) -> Outcome {
    let c = g.uniform(0.5, 6.0);
    // away from the kernels' switch points, where the derivative is one-sided
    let d = c * if g.bool() { g.uniform(0.1, 0.95) } else { g.uniform(1.05, 20.0) };
    fn one<K: RobustCost + Clone>(g: &mut Gen, k: K, d: f64) -> Outcome {
        let w = k.weight(d * d);
        note!(g, "{k:?} at {d}: weight {w}");
        ensure!(no_panic(|| test_weight(&k, d)).is_ok(), "test_weight rejects {k:?} at {d}, weight {w}");
        let (f, o) = match g.below(3) {
            0 => (1.0 + g.sign() * g.logu(1e-5, 0.5) / w.max(1e-2), 0.0),
            1 => (1.0, g.sign() * g.logu(1e-5, 0.5)),
            _ => (1.0, 0.0),
        };
        let off = (w * (f - 1.0) + o).abs();
        let ok = no_panic(|| test_weight(&Off(k.clone(), f, o), d)).is_ok();
        if off > 3e-6 {
            ensure!(!ok, "test_weight accepts {k:?} at {d} with a weight that is off by {off}");
        } else if off == 0.0 {
            ensure!(ok, "test_weight rejects {k:?} at {d} behind a wrapper");
        }
        Ok(off > 3e-6)
    }
    match g.below(7) {
        0 => one(g, L2, d),
        1 => one(g, Huber::new(c), d),
        2 => one(g, Fair::new(c), d),
        3 => one(g, Cauchy::new(c), d),
        4 => one(g, GemanMcClure::new(c), d),
        5 => one(g, Welsch::new(c), d),
        _ => one(g, Tukey::new(c), d),
    }
}

fn main() {
    mute_library();
    harness::engine::main(Property {
        id: "C28",
        rule: "pairs of variables of seven types that differ in no, one or all components by 1e-300..1, tolerances at, just below and around the largest component or anywhere, every form of the assertion: it must accept exactly when every component of the difference is within the tolerance of that form; seven kernels with parameters 0.5..6 at residuals away from their switch points, with their own weight and with weights off by 1e-5 or more. Non-trivial: the variables differ / the weight is off.",
        assumptions: &["the difference itself is judged by C03", "weights off by less than 3e-6 but not zero are not judged (the helper's tolerance is 1e-6)"],
        subs: vec![sub("variables", 15_000, variables), sub("weights", 15_000, weights)],
    });
}
