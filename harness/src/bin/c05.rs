//! C05: forward-mode differentiation returns the true Jacobian.
use harness::{engine::*, ensure, funcs::*, geom::*};

fn check(g: &mut Gen, tight: bool) -> Outcome {
    let c = any_case(g, &Which::Forward);
    ensure!(vdiff(c.got_value.as_slice(), c.value.as_slice()) <= 1e-12 * c.scale * c.scale, "{}: value {:?}, function gives {:?}", c.label, c.got_value.as_slice(), c.value.as_slice());
    ensure!(c.got_jac.shape() == c.jac.shape(), "{}: Jacobian has shape {:?}, not {:?}", c.label, c.got_jac.shape(), c.jac.shape());
    let tol = if tight { 1e-8 * c.scale * c.scale } else { 1e-5 * c.scale * (1.0 + maxabs(c.jac.iter()).min(c.scale)) };
    let d = diff(&c.got_jac, &c.jac);
    ensure!(d < tol, "{}: Jacobian is {} but the derivative is {} (difference {:e}, tolerance {:e})", c.label, c.got_jac, c.jac, d, tol);
    Ok(maxabs(c.jac.iter()) > 1e-6)
}
/// any point, including every small-angle branch
fn forward(g: &mut Gen) -> Outcome {
    check(g, false)
}
/// ordinary rotations, tight tolerance
fn forward_tight(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    check(g, true)
}
/// functions of arity 1-6 as residuals, through the value store
fn residuals(g: &mut Gen) -> Outcome {
    harness::res::residual_case(g)
}

/// polynomials of vectors, each output at its own scale: derivatives are known exactly, so even tiny ones are compared relatively
fn scales(g: &mut Gen) -> Outcome {
    use factrs::linalg::{Const, Diff, DiffResult, DualVector, ForwardProp, VectorX};
    use factrs::variables::{VectorVar2, VectorVar3};
    type T = DualVector<Const<5>>;
    let n = g.range(1, 6);
    let coef = |g: &mut Gen| if g.chance(1, 6) { 0.0 } else { g.sym(1.0) * 10f64.powi(g.range(0, 8) as i32 - 4) };
    let s: Vec<f64> = (0..n).map(|_| if g.chance(1, 4) { 1.0 } else { 10f64.powi(g.range(0, 60) as i32 - 30) }).collect();
    let c: Vec<[[f64; 5]; 2]> = (0..n).map(|_| [0, 1].map(|_| [0; 5].map(|_| coef(g)))).collect();
    let x: Vec<f64> = (0..5).map(|_| if g.chance(1, 8) { 0.0 } else { g.sym(1.0) * 10f64.powi(g.range(0, 6) as i32 - 3) }).collect();
    harness::note!(g, "x = {x:?}, scales {s:?}, coefficients {c:?}");
    let DiffResult { value, diff } = ForwardProp::<Const<5>>::jacobian_2(
        |a: VectorVar2<T>, b: VectorVar3<T>| {
            let v = [a[0], a[1], b[0], b[1], b[2]];
            VectorX::<T>::from_fn(n, |i, _| {
                let mut o = T::from(0.0);
                for k in 0..5 {
                    o += v[k] * T::from(c[i][0][k]) + v[k] * v[k] * T::from(c[i][1][k]);
                }
                o * T::from(s[i])
            })
        },
        &VectorVar2::new(x[0], x[1]),
        &VectorVar3::new(x[2], x[3], x[4]),
    );
    ensure!(value.len() == n && diff.shape() == (n, 5), "{n} outputs of 5 coordinates: value of {} entries, Jacobian {:?}", value.len(), diff.shape());
    for i in 0..n {
        let (mut v, mut m) = (0.0, 0.0);
        for k in 0..5 {
            let (p, q) = (c[i][0][k] * x[k], c[i][1][k] * x[k] * x[k]);
            v += p + q;
            m += p.abs() + q.abs();
            let (want, mag) = (s[i] * (c[i][0][k] + 2.0 * c[i][1][k] * x[k]), s[i] * (c[i][0][k].abs() + 2.0 * (c[i][1][k] * x[k]).abs()));
            ensure!((diff[(i, k)] - want).abs() <= 1e-13 * mag, "derivative of output {i} by coordinate {k} is {:e}, exactly {want:e}", diff[(i, k)]);
        }
        ensure!((value[i] - s[i] * v).abs() <= 1e-13 * s[i] * m, "output {i} is {:e}, exactly {:e}", value[i], s[i] * v);
    }
    Ok(diff.iter().any(|d| *d != 0.0))
}

fn main() {
    harness::engine::main(Property {
        id: "C05",
        rule: "a function R^n-valued (n in 1..7, or scalar through the gradient form) of 1..6 variables, 22 type mixes over SO2, SO3, SE2, SE3, V1..V6, ImuBias and a user-defined affine group; each variable enters through its point action, inverse action, matrix entries, or the logarithm of its product/quotient with a generated constant, mixed linearly, by products and by sin/cos with generated coefficients. Oracle: sixth-order central differences of the f64 instantiation along X expm(h e_i) computed by the harness. scales: polynomials of two vectors with outputs scaled by 1e-30..1e30, against exact derivatives, relatively. Non-trivial: the Jacobian has an entry above 1e-6.",
        assumptions: &["residual functions are smooth at the point (logarithms are taken at rotation angles below 3.1)", "tolerance 1e-5 relative at small angles (the small-angle series of the repository are truncated), 1e-8 relative at ordinary angles"],
        subs: vec![sub("forward", 30_000, forward), sub("forward_tight", 30_000, forward_tight), sub("residuals", 12_000, residuals), sub("scales", 60_000, scales)],
    });
}
