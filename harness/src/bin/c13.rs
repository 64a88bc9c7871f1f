//! C13: Gauss-Newton steps.
use factrs::{
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, OptError, Optimizer},
};
use harness::{engine::*, ensure, geom::*, note, optim::*, world::*};

/// expected step from these variables, with the tolerance on it; None if the problem is not well posed there
fn expected(w: &World, vars: &[AnyVar]) -> Option<(V, f64)> {
    if w.factors.iter().any(|f| f.at_kink(vars) || !f.smooth(vars)) {
        return None;
    }
    let (a, b) = w.dense(vars);
    if !a.iter().chain(b.iter()).all(|x| x.is_finite() && (*x == 0.0 || x.abs() > 1e-70)) {
        return None;
    }
    let k = normal_cond(&a);
    if !(k < 1e5) {
        return None;
    }
    let d = spd_solve(&(a.transpose() * &a), &(a.transpose() * &b))?;
    let n = maxabs(d.iter());
    Some((d, (1e-8 * k + 1e-7) * (1.0 + n)))
}
fn steps<S: LinearSolver>(g: &mut Gen, name: &str, w: &World) -> Outcome {
    let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
    let rec = Record::default();
    opt.observers.add(rec.clone());
    let mut values = w.values(g);
    let mut vars = w.vars.clone();
    opt.init(&values);
    let n = if g.chance(1, 25) { g.range(8, 30) } else { g.range(1, 3) };
    let mut judged = 0;
    let mut moved = false;
    for i in 0..n {
        let Some((d, tol)) = expected(w, &vars) else { break };
        if maxabs(d.iter()) > 1e3 {
            break;
        }
        let want = retract_all(&vars, &d);
        let before = rec.steps.borrow().len();
        values = match opt.step(values, i + 5) {
            Ok(v) => v,
            Err(e) => return Err(format!("{name}: step {i} of a well-posed problem failed with {}", err_name(&e))),
        };
        ensure!(values.len() == w.vars.len(), "{name}: {} values after the step, {} before", values.len(), w.vars.len());
        let got = w.fetch(&values)?;
        for (j, (a, b)) in got.iter().zip(&want).enumerate() {
            let e = diff(&a.mat(), &b.mat());
            let tol = tol * extent(&want);
            ensure!(e < tol, "{name}: step {i} takes variable {j} ({}) to {} but the least-squares step leads to {} (off by {e:e}, tolerance {tol:e})", a.name(), a.show(), b.show());
        }
        let seen = rec.steps.borrow();
        ensure!(seen.len() == before + 1, "{name}: {} observer calls for one step", seen.len() - before);
        let (t, v) = seen.last().unwrap();
        ensure!(*t == (i + 5) as f64, "{name}: observer got step number {t} in step {}", i + 5);
        ensure!(apart(&w.fetch(v)?, &got) == 0.0, "{name}: observer saw other values than the step returned");
        moved |= maxabs(d.iter()) > 1e-6;
        vars = got;
        judged += 1;
    }
    ensure!(opt.graph().len() == w.factors.len(), "{name}: the optimiser holds {} factors, {} were given", opt.graph().len(), w.factors.len());
    g.class(["no step judged", "1 step", "2 steps", "3 steps", "4 to 30 steps"][judged.min(4)]);
    Ok(judged > 0 && moved)
}
fn err_name<T>(e: &OptError<T>) -> &'static str {
    match e {
        OptError::MaxIterations(_) => "MaxIterations",
        OptError::InvalidSystem => "InvalidSystem",
        OptError::FailedToStep => "FailedToStep",
    }
}
fn opts(robust: bool, vectors: bool) -> Opts {
    Opts { max_vars: 5, max_extra: 5, ang: 0.8, tr: 1.0, sigma: (0.3, 2.0), anchored: true, robust, custom: !vectors, vectors }
}
fn step(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let robust = g.bool();
    let mut o = opts(robust, false);
    o.tr = *g.pick(&[1.0, 1.0, 1.0, 30.0]);
    let w = World::gen(g, o);
    match g.below(3) {
        0 => steps::<CholeskySolver>(g, "Cholesky", &w),
        1 => steps::<QRSolver>(g, "QR", &w),
        _ => steps::<LUSolver>(g, "LU", &w),
    }
}

/// linear problems: one step to the minimiser, from anywhere
fn linear_run<S: LinearSolver>(g: &mut Gen, name: &str, w: &World) -> Outcome {
    let start = retract_all(&w.vars, &V::from_fn(w.dim(), |_, _| g.sym(1.0) * 10f64.powi(g.range(0, 6) as i32)));
    let Some((d, tol)) = expected(w, &start) else { return Ok(false) };
    let want = retract_all(&start, &d);
    let tol = tol * 30.0 + 1e-6 * (1.0 + maxabs(d.iter())) + 1e-9 * extent(&start);
    let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
    let values = w.values_of(g, &start);
    opt.init(&values);
    let v1 = opt.step(values, 1).map_err(|e| format!("{name}: step failed with {}", err_name(&e)))?;
    let got = w.fetch(&v1)?;
    ensure!(apart(&got, &want) < tol, "{name}: one step on a linear problem ends {:e} from the minimiser (tolerance {tol:e})", apart(&got, &want));
    // stationary: the gradient of the quadratic vanishes
    let (a, b) = w.dense(&got);
    let grad = a.transpose() * &b;
    ensure!(maxabs(grad.iter()) < tol * maxabs((a.transpose() * &a).iter()), "{name}: gradient {:e} after one step on a linear problem", maxabs(grad.iter()));
    // from any other start to the same point, and the full optimisation stays there
    let rec = Record::default();
    let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
    opt.observers.add(rec.clone());
    let other = retract_all(&w.vars, &V::from_fn(w.dim(), |_, _| g.sym(10.0)));
    let ov = w.values_of(g, &other);
    let e0 = opt.error(&ov);
    let r = opt.optimize(ov).map_err(|e| format!("{name}: optimisation of a linear problem failed with {}", err_name(&e)))?;
    let fin = w.fetch(&r)?;
    ensure!(apart(&fin, &want) < tol , "{name}: optimisation of a linear problem ends {:e} from the minimiser (tolerance {tol:e})", apart(&fin, &want));
    let n = rec.steps.borrow().len();
    ensure!(n >= 1 || e0 == 0.0, "{name}: no step was taken");
    let first = w.fetch(&rec.steps.borrow()[0].1)?;
    ensure!(apart(&first, &want) < tol, "{name}: the first step of the optimisation ends {:e} from the minimiser", apart(&first, &want));
    note!(g, "minimiser reached in one step from two starts; optimise took {n} steps");
    Ok(maxabs(d.iter()) > 1e-6)
}
fn linear(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let w = World::gen(g, opts(false, true));
    match g.below(3) {
        0 => linear_run::<CholeskySolver>(g, "Cholesky", &w),
        1 => linear_run::<QRSolver>(g, "QR", &w),
        _ => linear_run::<LUSolver>(g, "LU", &w),
    }
}

/// linear problems at any scale: the step is right relative to its own size
fn scaled_run<S: LinearSolver>(g: &mut Gen, name: &str, w: &World) -> Outcome {
    let values = w.values(g);
    let (a, b) = system(w, &values);
    let k = normal_cond(&a);
    if !(k < 1e5) || !b.iter().all(|x| *x == 0.0 || x.abs() > 1e-70) {
        return Ok(false);
    }
    let Some(d) = spd_solve(&(a.transpose() * &a), &(a.transpose() * &b)) else { return Ok(false) };
    let n = maxabs(d.iter());
    let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
    opt.init(&values);
    let got = w.fetch(&opt.step(values, 1).map_err(|e| format!("{name}: step failed with {}", err_name(&e)))?)?;
    let want = retract_all(&w.vars, &d);
    let r = maxabs(b.iter()) / maxabs(a.iter());
    let tol = 1e-12 * k * (n + r) + 1e-14 * extent(&want);
    let off = apart(&got, &want);
    note!(g, "step of size {n:e}, condition {k:e}");
    ensure!(off < tol, "{name}: a step of size {n:e} on a linear problem ends {off:e} from the minimiser (tolerance {tol:e})");
    Ok(n > 10.0 * tol)
}
fn scaled(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let s = 10f64.powi(g.range(0, 16) as i32 - 8);
    let tr = 10f64.powi(g.range(0, 16) as i32 - 10);
    let w = World::gen(g, Opts { tr, sigma: (0.3 * s, 2.0 * s), ..opts(false, true) });
    g.class(if tr < 1e-6 { "residuals below 1e-6" } else if tr > 1e2 { "residuals above 1e2" } else { "residuals between" });
    match g.below(3) {
        0 => scaled_run::<CholeskySolver>(g, "Cholesky", &w),
        1 => scaled_run::<QRSolver>(g, "QR", &w),
        _ => scaled_run::<LUSolver>(g, "LU", &w),
    }
}

/// a step of a large sparse problem satisfies its normal equations
fn large(g: &mut Gen) -> Outcome {
    let w = harness::big::Big::gen(g, 2_000, 300);
    w.note(g);
    let values = w.values(g.bool());
    let cols = w.columns(&factrs::containers::ValuesOrder::from_values(&values))?;
    fn run<S: LinearSolver>(w: &harness::big::Big, values: factrs::containers::Values) -> Result<factrs::containers::Values, String> {
        let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
        opt.init(&values);
        opt.step(values, 1).map_err(|_| "the step failed".to_string())
    }
    let (name, v) = match g.below(3) {
        0 => ("Cholesky", run::<CholeskySolver>(&w, values)?),
        1 => ("QR", run::<QRSolver>(&w, values)?),
        _ => ("LU", run::<LUSolver>(&w, values)?),
    };
    let d = w.moved(&v, &cols)?;
    let r = w.normal_residual(&w.x, &cols, &d, 0.0, true);
    ensure!(r < 1e-9, "{name}: the step of a problem of {} variables and {} factors leaves its normal equations unsolved by {r:e}", w.dims.len(), w.f.len());
    Ok(w.f.len() > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C13",
        rule: "generated well-posed graphs (priors, betweens, custom residuals, every noise, positive-weight kernels on a spanning anchor and any kernel elsewhere), up to three (1 case in 25: 8..30) successive steps with each solver, keys and hash order from the tape; the expected step comes from the harness's dense system (reference residuals, sixth-order difference Jacobians). linear: vector graphs with quadratic kernels; scaled: the same with sigmas from 1e-9 to 1e8 and residuals from 1e-10 to 1e6, one step compared relative to its own size. Non-trivial: a judged step that moves something by more than 1e-6.",
        assumptions: &["steps at points where the normal matrix has condition above 1e5, a kernel is at its switch, a residual is not smooth there (branch cut of a logarithm) or the step exceeds 1e3 are not judged"],
        subs: vec![sub("step", 5_000, step), sub("linear", 10_000, linear), sub("scaled", 10_000, scaled), sub("large", 100, large)],
    });
}
