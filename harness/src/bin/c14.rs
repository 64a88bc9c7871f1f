//! C14: Levenberg-Marquardt steps, with real solvers and with a scripted one that makes the first attempts fail.
use factrs::{
    containers::Values,
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GraphOptimizer, LevenMarquardt, OptError, Optimizer},
};
use faer::{sparse::SparseColMatRef, Mat, MatRef};
use harness::{engine::*, ensure, geom::*, note, optim::*, world::*};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug)]
enum Bad {
    Zero,
    Opposite,
    Overshoot,
    Nan,
}
thread_local! {
    /// answers to give before answering truthfully (last first)
    static SCRIPT: RefCell<Vec<Bad>> = const { RefCell::new(vec![]) };
}
/// solves densely, after spoiling as many answers as the script says
#[derive(Default)]
struct Scripted;
impl LinearSolver for Scripted {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let d = a.to_dense();
        let am = M::from_fn(d.nrows(), d.ncols(), |i, j| d[(i, j)]);
        let bv = V::from_fn(b.nrows(), |i, _| b[(i, 0)]);
        let x = spd_solve(&am, &bv).expect("scripted solver: not positive definite");
        let s = match SCRIPT.with(|s| s.borrow_mut().pop()) {
            None => 1.0,
            Some(Bad::Zero) => 0.0,
            Some(Bad::Opposite) => -1.0,
            Some(Bad::Overshoot) => 5.0 + 1e6,
            Some(Bad::Nan) => f64::NAN,
        };
        Mat::from_fn(x.len(), 1, |i, _| x[i] * s)
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> {
        let d = a.to_dense();
        let am = M::from_fn(d.nrows(), d.ncols(), |i, j| d[(i, j)]);
        let bv = V::from_fn(b.nrows(), |i, _| b[(i, 0)]);
        let t = am.transpose();
        let (h, y) = (&t * &am, &t * bv);
        let s = faer::sparse::SparseColMat::try_new_from_triplets(h.nrows(), h.nrows(), &(0..h.nrows()).flat_map(|i| (0..h.nrows()).map(move |j| (i, j))).map(|(i, j)| (i, j, h[(i, j)])).collect::<Vec<_>>()).unwrap();
        self.solve_symmetric(s.as_ref(), Mat::from_fn(y.len(), 1, |i, _| y[i]).as_ref())
    }
}

fn damped(h: &M, lambda: f64, diagonal: bool) -> M {
    let mut m = h.clone();
    for i in 0..h.nrows() {
        m[(i, i)] += lambda * if diagonal { h[(i, i)] } else { 1.0 };
    }
    m
}

fn run<S: LinearSolver>(g: &mut Gen, name: &str, w: &World, diagonal: bool, scripted: bool) -> Outcome {
    let lmin = if g.bool() { 0.0 } else { g.logu(1e-9, 1e-5) };
    let lmax = g.logu(2e-5, 1e6);
    let fac = *g.pick(&[10.0, 2.0, 3.7, 100.0]);
    note!(g, "solver {name}, lambda in [{lmin:e}, {lmax:e}], factor {fac}, diagonal damping {diagonal}");
    let mut opt: LevenMarquardt<S> = LevenMarquardt::new(w.graph());
    opt.params_leven.lambda_min = lmin;
    opt.params_leven.lambda_max = lmax;
    opt.params_leven.lambda_factor = fac;
    opt.params_leven.diagonal_damping = diagonal;
    let rec = Record::default();
    opt.observers.add(rec.clone());
    let mut values = w.values(g);
    opt.init(&values);
    let mut lambda = 1e-5;
    let n = if g.chance(1, 25) { g.range(8, 30) } else { g.range(1, 4) };
    let mut judged = 0;
    for i in 0..n {
        let vars = w.fetch(&values)?;
        let (a, b) = system(w, &values);
        if !a.iter().chain(b.iter()).all(|x| x.is_finite() && (*x == 0.0 || x.abs() > 1e-70)) {
            // (entries whose squares underflow are not judged)
            break;
        }
        let (h, rhs) = (a.transpose() * &a, a.transpose() * &b);
        // the script of this step: bad answers first
        let bad: Vec<Bad> = if scripted { (0..*g.pick(&[0usize, 0, 1, 2, 3, 5, 9])).map(|_| *g.pick(&[Bad::Opposite, Bad::Overshoot, Bad::Nan])).collect() } else { vec![] };
        let mut lam = lambda;
        let mut fails = false;
        let mut clear = true;
        for k in &bad {
            // the spoiled answer clearly does not decrease the linear error
            let s = match k {
                Bad::Opposite => -1.0,
                Bad::Overshoot => 5.0 + 1e6,
                _ => 0.0,
            };
            if s != 0.0 {
                clear &= spd_solve(&damped(&h, lam, diagonal), &rhs).map_or(false, |x| (&a * x * s - &b).norm_squared() > b.norm_squared() * (1.0 + 1e-9));
            }
            lam *= fac;
            if lam > lmax {
                fails = true;
                break;
            }
        }
        if !clear || bad.len() > 0 && (lam / lmax - 1.0).abs() < 1e-6 {
            break;
        }
        let m = damped(&h, lam, diagonal);
        let e = m.clone().symmetric_eigen().eigenvalues;
        let m0 = damped(&h, lambda, diagonal).symmetric_eigen().eigenvalues;
        let kappa = (e.max() / e.min()).max(m0.max() / m0.min());
        if !(e.min() > 0.0 && m0.min() > 0.0 && kappa < 1e9) {
            break;
        }
        let Some(d) = spd_solve(&m, &rhs) else { break };
        let (old, new) = (0.5 * b.norm_squared(), 0.5 * (&a * &d - &b).norm_squared());
        if !(maxabs(d.iter()) < 1e3) || !(old - new > 1e-7 * old && old > 1e-100) {
            // numerically at a minimum of the linearised problem: nothing to judge
            break;
        }
        note!(g, "step {i}: damping {lam:e} after {} spoiled answers {bad:?}, expected to {}", bad.len(), if fails { "fail" } else { "succeed" });
        SCRIPT.with(|s| *s.borrow_mut() = bad.iter().rev().cloned().collect());
        let before = rec.steps.borrow().len();
        let r = opt.step(values, i + 3);
        SCRIPT.with(|s| s.borrow_mut().clear());
        if fails {
            g.class("step failure");
            let what = match &r {
                Ok(_) => "Ok",
                Err(OptError::FailedToStep) => "",
                Err(OptError::MaxIterations(_)) => "MaxIterations",
                Err(OptError::InvalidSystem) => "InvalidSystem",
            };
            ensure!(what.is_empty(), "{name}: no damping up to the maximum decreases the linear error, yet the step returned {what}");
            ensure!(rec.steps.borrow().len() == before, "{name}: an observer was called for a failed step");
            return Ok(true);
        }
        values = match r {
            Ok(v) => v,
            Err(_) => return Err(format!("{name}: step {i} failed although damping {lam:e} decreases the linear error from {old} to {new}")),
        };
        let got = w.fetch(&values)?;
        ensure!(values.len() == w.vars.len(), "{name}: {} values after the step", values.len());
        let want = retract_all(&vars, &d);
        let rel = (1e-13 * kappa + 1e-10) * 10.0;
        let n = maxabs(d.iter());
        // (the series of the retraction at small angles are good to 1e-7 of the increment)
        let tol = (rel * (1.0 + n)).min((rel + 1e-7) * n + 1e-13) * extent(&want);
        for (j, (x, y)) in got.iter().zip(&want).enumerate() {
            let e = diff(&x.mat(), &y.mat());
            ensure!(e < tol, "{name}: step {i} takes variable {j} ({}) to {} but the damped step (damping {lam:e}) leads to {} (off by {e:e}, tolerance {tol:e})", x.name(), x.show(), y.show());
        }
        // variables that no factor uses are left alone
        for j in 0..w.vars.len() {
            if !w.factors.iter().any(|f| f.vars.contains(&j)) {
                ensure!(diff(&got[j].mat(), &vars[j].mat()) < 1e-13 * extent(&want), "{name}: variable {j} has no factor but moved");
                g.class("unconstrained variable");
            }
        }
        let seen = rec.steps.borrow();
        ensure!(seen.len() == before + 1 && seen.last().unwrap().0 == (i + 3) as f64, "{name}: {} observer calls in step {}", seen.len() - before, i + 3);
        ensure!(apart(&w.fetch(&seen.last().unwrap().1)?, &got) == 0.0, "{name}: observer saw other values than the step returned");
        drop(seen);
        lambda = lam / fac;
        if lambda < lmin {
            lambda = lmin;
            g.class("damping at its minimum");
        }
        judged += 1;
    }
    g.class(["no step judged", "1 step", "2 steps", "3 steps", "4 to 30 steps"][judged.min(4)]);
    Ok(judged > 0)
}
fn step(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let robust = g.bool();
    let diagonal = g.bool();
    let anchored = diagonal || g.bool();
    let tr = *g.pick(&[1.0, 1.0, 1.0, 30.0]);
    // sharp and loose factors; residuals of any size
    let s = if g.chance(1, 4) { 10f64.powi(g.range(0, 12) as i32 - 6) } else { 1.0 };
    let t = if g.chance(1, 4) { 10f64.powi(-(g.range(1, 9) as i32)) } else { 1.0 };
    let w = World::gen(g, Opts { max_vars: 5, max_extra: 5, ang: 0.8 * t, tr: tr * t, sigma: (0.3 * s, 2.0 * s), anchored, robust, custom: t == 1.0, vectors: false });
    match g.below(6) {
        0 => run::<CholeskySolver>(g, "Cholesky", &w, diagonal, false),
        1 => run::<QRSolver>(g, "QR", &w, diagonal, false),
        2 => run::<LUSolver>(g, "LU", &w, diagonal, false),
        _ => run::<Scripted>(g, "scripted", &w, diagonal, true),
    }
}
/// at an exact minimum no damping decreases the linear error
fn minimum(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let w = World::gen(g, Opts { max_vars: 4, max_extra: 3, ang: 0.0, tr: 0.0, sigma: (0.3, 2.0), anchored: true, robust: false, custom: false, vectors: true });
    // vector priors and betweens with representable data: residuals exactly zero
    let mut vals = w.values(g);
    let (_, b) = system(&w, &vals);
    if b.iter().any(|x| *x != 0.0) {
        return Ok(false);
    }
    let mut opt: LevenMarquardt = LevenMarquardt::new(w.graph());
    let rec = Record::default();
    opt.observers.add(rec.clone());
    opt.init(&vals);
    for _ in 0..2 {
        let keep = vals.clone();
        match opt.step(vals, 1) {
            Err(OptError::FailedToStep) => {}
            _ => return Err("a step at the exact minimum did not report a step failure".into()),
        }
        ensure!(rec.steps.borrow().is_empty(), "an observer was called for a failed step");
        vals = keep;
    }
    // the whole optimisation has nothing to do there
    let mut opt: LevenMarquardt = LevenMarquardt::new(w.graph());
    match opt.optimize(vals) {
        Ok(v) => ensure!(apart(&w.fetch(&v)?, &w.vars) == 0.0, "optimising from the exact minimum changed the values"),
        Err(_) => return Err("optimising from the exact minimum reports an error".into()),
    }
    Ok(true)
}
/// a step that changes nothing does not decrease the error: priors with dyadic data, where every sum and the residual's norm are exact
fn ties(g: &mut Gen) -> Outcome {
    use factrs::{containers::*, residuals::PriorResidual, variables::VectorVar2};
    let n = g.range(1, 5);
    let fac = *g.pick(&[10.0, 2.0, 4.0]);
    let mut graph = Graph::new();
    let mut values = Values::new();
    let mut r = vec![];
    for i in 0..n {
        let mut d = || g.range(0, 64) as f64 / 8.0 - 4.0;
        let x = [d(), d()];
        let k = d();
        // one variable is off, by a multiple of (1, 0), (0, 1) or (3, 4)
        let off = if i > 0 { [0.0, 0.0] } else { *g.pick(&[[k, 0.0], [0.0, k], [3.0 * k, 4.0 * k]]) };
        let z = [x[0] + off[0], x[1] + off[1]];
        graph.add_factor(FactorBuilder::new1_unchecked(PriorResidual::new(VectorVar2::new(z[0], z[1])), Key(i as u64)).build());
        values.insert_unchecked(Key(i as u64), VectorVar2::new(x[0], x[1]));
        r.push((x, z));
    }
    if r.iter().all(|(x, z)| x == z) {
        return Ok(false);
    }
    let bad: Vec<Bad> = (0..g.range(0, 4)).map(|_| *g.pick(&[Bad::Zero, Bad::Zero, Bad::Opposite, Bad::Nan])).collect();
    note!(g, "priors (value, mean) {r:?}, spoiled answers {bad:?}, factor {fac}");
    let mut opt: LevenMarquardt<Scripted> = LevenMarquardt::new(graph);
    opt.params_leven.lambda_factor = fac;
    opt.params_leven.diagonal_damping = g.bool();
    opt.init(&values);
    let lambda = bad.iter().fold(1e-5, |l, _| l * fac);
    let fails = g.chance(1, 3) && !bad.is_empty();
    opt.params_leven.lambda_max = if fails { lambda * 0.9 } else { lambda * 1.5 };
    SCRIPT.with(|s| *s.borrow_mut() = bad.iter().rev().cloned().collect());
    let out = opt.step(values, 1);
    SCRIPT.with(|s| s.borrow_mut().clear());
    match out {
        Ok(v) => {
            ensure!(!fails, "{} answers in a row did not decrease the linear error and the damping limit was reached, yet the step succeeded", bad.len());
            for (i, (x, z)) in r.iter().enumerate() {
                let got: &VectorVar2 = v.get_unchecked(Key(i as u64)).ok_or("variable lost")?;
                for k in 0..2 {
                    let want = x[k] + (z[k] - x[k]) / (1.0 + lambda);
                    ensure!((got[k] - want).abs() < 1e-9, "variable {i} is {} after the step, damping {lambda:e} leads to {want}", got[k]);
                }
            }
        }
        Err(OptError::FailedToStep) => ensure!(fails, "the step failed although damping {lambda:e} decreases the linear error"),
        Err(_) => return Err("the step reports something other than a failure to step".into()),
    }
    Ok(!bad.is_empty())
}
fn defaults(_: &mut Gen) -> Outcome {
    let o: LevenMarquardt = LevenMarquardt::new(factrs::containers::Graph::new());
    let p = &o.params_leven;
    ensure!(p.lambda_min == 0.0 && p.lambda_max == 1e5 && p.lambda_factor == 10.0 && p.diagonal_damping, "default damping parameters {} {} {} {}", p.lambda_min, p.lambda_max, p.lambda_factor, p.diagonal_damping);
    Ok(true)
}

/// the first step of a large sparse problem satisfies its damped normal equations
fn large(g: &mut Gen) -> Outcome {
    let w = harness::big::Big::gen(g, 2_000, 300);
    w.note(g);
    let values = w.values(g.bool());
    let cols = w.columns(&factrs::containers::ValuesOrder::from_values(&values))?;
    let diagonal = g.bool();
    fn run<S: LinearSolver>(w: &harness::big::Big, values: Values, diagonal: bool) -> Result<Values, String> {
        let mut opt: LevenMarquardt<S> = LevenMarquardt::new(w.graph());
        opt.params_leven.diagonal_damping = diagonal;
        opt.init(&values);
        opt.step(values, 1).map_err(|_| "the step failed".to_string())
    }
    if w.error(&w.x) < 1e-3 {
        return Ok(false);
    }
    let (name, v) = match g.below(3) {
        0 => ("Cholesky", run::<CholeskySolver>(&w, values, diagonal)?),
        1 => ("QR", run::<QRSolver>(&w, values, diagonal)?),
        _ => ("LU", run::<LUSolver>(&w, values, diagonal)?),
    };
    let d = w.moved(&v, &cols)?;
    let r = w.normal_residual(&w.x, &cols, &d, 1e-5, diagonal);
    ensure!(r < 1e-9, "{name}: the first step of a problem of {} variables and {} factors leaves its damped normal equations unsolved by {r:e}", w.dims.len(), w.f.len());
    Ok(true)
}

fn main() {
    harness::engine::main(Property {
        id: "C14",
        rule: "generated graphs (anchored, or under-constrained with identity damping), damping limits and factors, up to four successive steps with the three real solvers and with a scripted solver that first gives 0..9 useless answers (opposite, overshooting, NaN; zero where every sum is exact) so that damping is raised up to and past its limit; expected step: damped normal equations of the factors' own linearisations solved densely, damping followed by a model. Non-trivial: a step (or step failure) was judged.",
        assumptions: &["damping starts at 1e-5 and the configured limits bracket it; steps that decrease the linear error by less than 1e-7 of itself, have entries below 1e-70 or have condition above 1e9 are not judged"],
        subs: vec![sub("step", 40_000, step), sub("minimum", 5_000, minimum), sub("ties", 20_000, ties), sub("defaults", 1, defaults), sub("large", 100, large)],
    });
}
