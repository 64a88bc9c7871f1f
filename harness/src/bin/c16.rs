//! C16: optimisation end to end.
use factrs::{
    containers::Values,
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptParams, Optimizer},
};
use harness::{engine::*, ensure, geom::*, note, optim::*, plans::*, world::*};

fn consistent(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let p = plan(g, false, 30);
    let id: Vec<usize> = (0..p.edges.len()).collect();
    let w = write(g, &p, &id, None);
    describe(g, &w);
    let k = kinds(g);
    note!(g, "optimiser {k:?}");
    let got = solve(g, k, &w, false)?;
    let e = apart(&got, &p.truth);
    let tol = 1e-5 * extent(&p.truth);
    ensure!(e < tol, "{k:?}: consistent measurements, start close to the truth, but the result is {e:e} from it (tolerance {tol:e})");
    g.class(if matches!(k, Kind::Gn(_)) { "Gauss-Newton" } else { "Levenberg-Marquardt" });
    Ok(apart(&p.start, &p.truth) > 1e-3)
}

/// default parameters and the default solver, as a user would call it
fn default_run(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let p = plan(g, false, 12);
    let id: Vec<usize> = (0..p.edges.len()).collect();
    let w = write(g, &p, &id, None);
    describe(g, &w);
    let gr = w.graph();
    let v = w.values(g);
    let before = gr.error(&v);
    let (r, name) = if g.bool() {
        let mut o: GaussNewton = GaussNewton::new(w.graph());
        (o.optimize(v), "Gauss-Newton")
    } else {
        let mut o: LevenMarquardt = LevenMarquardt::new(w.graph());
        (o.optimize(v), "Levenberg-Marquardt")
    };
    let v = r.map_err(|_| format!("{name} with default parameters failed on a consistent problem"))?;
    let after = gr.error(&v);
    ensure!(after <= before && after < 1e-3, "{name}: error {before} before, {after} after");
    ensure!(apart(&w.fetch(&v)?, &p.truth) < 0.1 * extent(&p.truth), "{name}: default run ends {} from the truth", apart(&w.fetch(&v)?, &p.truth));
    Ok(before > 1e-3)
}

/// half the squared length of the remaining Gauss-Newton step in the metric of the problem, by the reference model
fn decrement(w: &World, vars: &[AnyVar]) -> Option<(f64, M)> {
    if w.factors.iter().any(|f| f.at_kink(vars)) {
        return None;
    }
    let (a, b) = w.dense(vars);
    let h = a.transpose() * &a;
    let gv = a.transpose() * &b;
    let d = spd_solve(&h, &gv)?;
    Some((0.5 * gv.dot(&d), h))
}
fn noisy(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let p = plan(g, true, 8);
    let id: Vec<usize> = (0..p.edges.len()).collect();
    let w = write(g, &p, &id, None);
    describe(g, &w);
    let k = kinds(g);
    note!(g, "optimiser {k:?}");
    let got = solve(g, k, &w, true)?;
    let (e0, e1) = (w.error(&w.vars), w.error(&got));
    ensure!(e1 <= e0 * (1.0 + 1e-9) + 1e-9, "{k:?}: error {e0} at the start, {e1} at the result");
    let Some((dec, h)) = decrement(&w, &got) else { return Ok(false) };
    ensure!(dec < 1e-6, "{k:?}: the result is not stationary: a further step would gain {dec:e}");
    // another presentation of the same problem
    let o = shuffled(g, p.edges.len());
    let moved = g.bool();
    let motion: Vec<AnyVar> = (0..=*p.comp.iter().max().unwrap()).map(|c| {
        let i = p.comp.iter().position(|x| *x == c).unwrap();
        p.truth[i].another(g, 3.0, 5.0)
    }).collect();
    let w2 = write(g, &p, &o, if moved { Some(&motion) } else { None });
    let k2 = kinds(g);
    note!(g, "again with factors in order {o:?}, keys {:?}, optimiser {k2:?}{}", w2.keys, if moved { ", moved rigidly" } else { "" });
    let got2 = solve(g, k2, &w2, true)?;
    let off = w.offsets();
    let mut d = V::zeros(w.dim());
    for i in 0..got.len() {
        let expect = if moved { motion[p.comp[i]].compose_ref(&got[i]) } else { got[i].clone() };
        d.rows_mut(off[i], got[i].dim()).copy_from(&got2[i].local(&expect));
    }
    let q = (d.transpose() * h * &d)[(0, 0)];
    ensure!(q < 1e-4, "{k:?} and {k2:?} on two presentations of one problem end apart: squared distance {q:e} in the problem's metric, largest coordinate {:e}", maxabs(d.iter()));
    g.class(if moved { "moved rigidly" } else { "same place" });
    Ok(e0 > e1 + 1e-6)
}

/// one object used several times equals a fresh one
fn reuse(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let is_noisy = g.bool();
    let p = plan(g, is_noisy, 6);
    let id: Vec<usize> = (0..p.edges.len()).collect();
    let w = write(g, &p, &id, None);
    describe(g, &w);
    let k = kinds(g);
    let rec = Record::default();
    let mut o = Any::new(k, &w, &tight(is_noisy), &rec);
    let before = g.range(1, 4);
    note!(g, "optimiser {k:?}, {before} earlier runs");
    for _ in 0..before {
        // earlier runs: from the truth, from elsewhere, cut short
        let s: Vec<AnyVar> = match g.below(3) {
            0 => p.truth.clone(),
            1 => w.vars.clone(),
            _ => p.truth.iter().map(|x| { let t = x.tangent(g, 0.1, 0.2); x.retract(&t) }).collect(),
        };
        let v = w.values_of(g, &s);
        let mut q = tight(is_noisy);
        q.max_iterations = *g.pick(&[100, 1, 2, 0]);
        if g.chance(1, 3) {
            // keep stepping at the minimum, until a step fails or the limit is reached
            q = OptParams { max_iterations: 15, error_tol: -1.0, error_tol_absolute: -1.0, error_tol_relative: -1.0 };
        }
        o.set(q);
        match o.run(v) {
            Ok(_) => g.class("earlier run converged"),
            Err(OptError::MaxIterations(_)) => g.class("earlier run cut short"),
            Err(_) => g.class("earlier run failed"),
        }
    }
    o.set(tight(is_noisy));
    rec.steps.borrow_mut().clear();
    let v = w.values(g);
    let r = o.run(v);
    let got = finish(k, r, &rec, &w).map_err(|e| format!("after {before} earlier runs: {e}"))?;
    let fresh = solve(g, k, &w, is_noisy)?;
    let e = apart(&got, &fresh);
    let tol = 1e-5 * extent(&p.truth);
    ensure!(e < tol, "{k:?}: a used optimiser ends {e:e} from where a fresh one does (tolerance {tol:e})");
    Ok(w.vars.len() > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C16",
        rule: "1..3 components of 1..30 nodes of any of 12 variable types: spanning tree, loop closures, one or more priors, every noise constructor (sigma 0.2..2), positive-weight kernels; start within 0.12 rad / 0.25 of the truth; every optimiser x solver x damping kind. consistent: result = truth; noisy: stationary by the reference model, no worse than the start, and equal (in the problem's metric) for another factor order, key naming, hash order, solver, optimiser and rigid motion; reuse: 1..3 earlier runs on the object, then equal to a fresh one; default: default parameters. Non-trivial: start not at the solution (reuse: several variables).",
        assumptions: &["Levenberg-Marquardt may report a step failure at a numerically exact minimum; the last accepted values are then judged", "convex kernels when noise is present"],
        subs: vec![sub("consistent", 40_000, consistent), sub("default", 20_000, default_run), sub("noisy", 2_000, noisy), sub("reuse", 20_000, reuse)],
    });
}
