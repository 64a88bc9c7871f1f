//! C15: the optimisation loop, on scripted optimisers and on the real ones.
use factrs::{
    containers::Values,
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptObserver, OptObserverVec, OptParams, OptResult, Optimizer},
};
use harness::{engine::*, ensure, note, optim::*, world::*};
use std::{cell::RefCell, rc::Rc};

/// values of the scripted optimiser: how many steps were applied, and a tag
#[derive(Clone, Debug, PartialEq)]
struct St {
    n: usize,
    tag: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Invalid,
    Failed,
    Max,
}
struct Mock {
    params: OptParams,
    /// error of the state after n steps
    errors: Vec<f64>,
    fault: Option<(usize, Fault)>,
    steps: Vec<(St, usize)>,
    inits: Vec<St>,
    observers: OptObserverVec<St>,
}
impl Optimizer for Mock {
    type Input = St;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn init(&mut self, v: &St) {
        self.inits.push(v.clone());
    }
    fn error(&self, v: &St) -> f64 {
        self.errors[v.n.min(self.errors.len() - 1)]
    }
    fn step(&mut self, v: St, idx: usize) -> OptResult<St> {
        self.steps.push((v.clone(), idx));
        if let Some((k, f)) = self.fault {
            if v.n == k {
                return Err(match f {
                    Fault::Invalid => OptError::InvalidSystem,
                    Fault::Failed => OptError::FailedToStep,
                    Fault::Max => OptError::MaxIterations(St { n: 1_000_000 + v.n, tag: v.tag }),
                });
            }
        }
        let v = St { n: v.n + 1, tag: v.tag };
        self.observers.notify(&v, idx);
        Ok(v)
    }
}
struct Obs(usize, Rc<RefCell<Vec<(usize, St, f64)>>>);
impl OptObserver for Obs {
    type Input = St;
    fn on_step(&self, v: &St, t: f64) {
        self.1.borrow_mut().push((self.0, v.clone(), t));
    }
}
#[derive(Debug, PartialEq)]
enum End {
    Ok(usize),
    Max(usize),
    Fault(Fault, usize),
}
/// the specified loop
fn model(e: &dyn Fn(usize) -> f64, p: &OptParams, fault: Option<(usize, Fault)>) -> End {
    if e(0) <= p.error_tol {
        return End::Ok(0);
    }
    for n in 0..p.max_iterations {
        if let Some((k, f)) = fault {
            if k == n {
                return End::Fault(f, n);
            }
        }
        let (a, b) = (e(n), e(n + 1));
        if b <= p.error_tol || a - b <= p.error_tol_absolute || (a - b) / a <= p.error_tol_relative {
            return End::Ok(n + 1);
        }
    }
    End::Max(p.max_iterations)
}
/// dyadic numbers, so that decreases and ratios at a tolerance are exact
fn error_history(g: &mut Gen) -> Vec<f64> {
    if g.chance(1, 200) {
        // a long way down in equal steps, or for ever up
        g.class("hundreds or thousands of steps");
        let n = g.range(200, 6000);
        let top = 2f64.powi(g.range(14, 30) as i32);
        let s = if g.chance(1, 6) { -1.0 } else { 2f64.powi(-(g.range(0, 8) as i32)) };
        return (0..=n).map(|i| top - s * i as f64).collect();
    }
    let long = g.chance(1, 12);
    let n = if long { g.range(20, 130) } else { g.range(1, 14) };
    let mut e = 2f64.powi(g.range(0, 40) as i32 - 10);
    let mut out = vec![e];
    // errors that are not numbers (or too large to be) for some of the steps
    let broken = g.chance(1, 8);
    if broken {
        g.class("NaN or infinite errors");
    }
    for _ in 0..n {
        e = match if long { *g.pick(&[2, 2, 2, 3, 3, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8]) } else { g.below(10) } {
            0 => e,
            1 => e * 2.0,
            2 => e * 0.75,
            3 => e * (1.0 - 2f64.powi(-(g.range(1, 30) as i32))),
            4 => e * 2f64.powi(-(g.range(1, 20) as i32)),
            5 => 0.0,
            6 => e * (1.0 + 2f64.powi(-(g.range(1, 30) as i32))),
            _ => e * 0.5,
        };
        out.push(e);
        if e == 0.0 {
            break;
        }
    }
    if broken {
        for _ in 0..g.range(1, 3) {
            let k = g.below(out.len() as u64) as usize;
            let x = *g.pick(&[f64::NAN, f64::NAN, f64::INFINITY]);
            let to = if g.bool() { out.len() } else { (k + 1 + g.below(3) as usize).min(out.len()) };
            out[k..to].iter_mut().for_each(|v| *v = x);
        }
    }
    out
}
fn gen_params(g: &mut Gen, errors: &[f64]) -> OptParams {
    // tolerances at, just above or below a quantity of the history, or ordinary ones
    let k = g.below(errors.len() as u64) as usize;
    let near = |g: &mut Gen, x: f64| match g.below(4) {
        0 => x,
        1 => x * (1.0 + 1e-9),
        2 => x * (1.0 - 1e-9),
        _ => x * 0.5,
    };
    let err = match g.below(3) {
        0 => 0.0,
        1 => near(g, errors[k]),
        _ => near(g, errors[errors.len() - 1]),
    };
    let j = if errors.len() > 1 { g.below(errors.len() as u64 - 1) as usize } else { 0 };
    let (dec, rel) = if errors.len() > 1 { (errors[j] - errors[j + 1], (errors[j] - errors[j + 1]) / errors[j]) } else { (1.0, 1.0) };
    let abs = match g.below(3) {
        0 => 0.0,
        1 if !dec.is_nan() => near(g, dec.abs()),
        _ => 1e-6,
    };
    let rel = match g.below(3) {
        0 => 0.0,
        1 if rel.is_finite() => near(g, rel.abs()),
        _ => 1e-6,
    };
    // a negative tolerance lets a run go on through a rising error
    let (abs, rel) = match g.below(6) {
        0 => (-2f64.powi(g.range(0, 60) as i32 - 10), -2f64.powi(g.range(0, 12) as i32 - 8)),
        1 => (f64::NEG_INFINITY, f64::NEG_INFINITY),
        _ => (abs, rel),
    };
    let err = if err.is_nan() || g.chance(1, 12) { -1.0 } else { err };
    OptParams { max_iterations: if errors.len() > 190 { *g.pick(&[255, 256, 300, 1000, 1001, 5000]) } else { *g.pick(&[0, 1, 2, 3, 5, 11, 40, 100, 100, 150]) }, error_tol: err, error_tol_absolute: abs, error_tol_relative: rel }
}
fn scripted(g: &mut Gen) -> Outcome {
    let errors = error_history(g);
    let params = gen_params(g, &errors);
    let fault = if g.chance(1, 4) { Some((if g.chance(1, 4) { g.range(0, errors.len() + 2) } else { g.range(0, 6) }, *g.pick(&[Fault::Invalid, Fault::Failed, Fault::Max]))) } else { None };
    note!(g, "errors {errors:?}, {params:?}, fault {fault:?}");
    let log = Rc::new(RefCell::new(vec![]));
    let mut m = Mock { params: params.clone(), errors: errors.clone(), fault, steps: vec![], inits: vec![], observers: OptObserverVec::default() };
    let nobs = if g.chance(1, 20) { g.range(4, 12) } else { g.range(0, 3) };
    for i in 0..nobs {
        m.observers.add(Obs(i, log.clone()));
    }
    let e = |n: usize| errors[n.min(errors.len() - 1)];
    let want = model(&e, &params, fault);
    // a history in which rounding decides (the rules written in another way differ) says nothing
    for n in 0..params.max_iterations.min(errors.len() + 1) {
        let (a, b, t, r) = (e(n), e(n + 1), params.error_tol_absolute, params.error_tol_relative);
        let abs = a - b <= t;
        let rel = (a - b) / a <= r;
        if !(a > 0.0 || a.is_nan()) && !abs && b > params.error_tol && rel != (a - b <= r * a) {
            return Ok(false);
        }
        if abs != (a <= b + t) || abs != (b >= a - t) || a > 0.0 && (rel != (a - b <= r * a) || rel != (1.0 - b / a <= r) || rel != (b >= a * (1.0 - r)) || rel != (b / a >= 1.0 - r)) {
            g.class("decided by rounding");
            return Ok(false);
        }
    }
    let tag = g.u64();
    let runs = if g.chance(1, 10) { g.range(3, 6) } else { g.range(1, 2) };
    for _ in 0..runs {
        log.borrow_mut().clear();
        m.steps.clear();
        m.inits.clear();
        let got = m.optimize(St { n: 0, tag });
        let (end, tag2) = match &got {
            Ok(s) => (End::Ok(s.n), s.tag),
            Err(OptError::MaxIterations(s)) if s.n >= 1_000_000 => (End::Fault(Fault::Max, s.n - 1_000_000), s.tag),
            Err(OptError::MaxIterations(s)) => (End::Max(s.n), s.tag),
            Err(OptError::InvalidSystem) => (End::Fault(Fault::Invalid, m.steps.len().saturating_sub(1)), tag),
            Err(OptError::FailedToStep) => (End::Fault(Fault::Failed, m.steps.len().saturating_sub(1)), tag),
        };
        ensure!(end == want, "the run ended as {end:?}, specified {want:?}");
        ensure!(tag2 == tag, "the returned values are not the ones of the run");
        let taken = match want {
            End::Ok(n) | End::Max(n) => n,
            End::Fault(_, n) => n + 1,
        };
        ensure!(m.steps.len() == taken, "{} steps were taken, specified {taken}", m.steps.len());
        for (i, (s, idx)) in m.steps.iter().enumerate() {
            ensure!(s.n == i && s.tag == tag && *idx == i + 1, "step {} was called with {s:?} as number {idx}", i + 1);
        }
        ensure!(m.inits.len() == 1 && m.inits[0] == St { n: 0, tag }, "init calls: {:?}", m.inits);
        let completed = if matches!(want, End::Fault(..)) { taken - 1 } else { taken };
        let l = log.borrow();
        ensure!(l.len() == completed * nobs, "{} observer calls for {completed} steps and {nobs} observers", l.len());
        for (i, (who, s, t)) in l.iter().enumerate() {
            ensure!(*who == i % nobs && s.n == i / nobs + 1 && s.tag == tag && *t == (i / nobs + 1) as f64, "observer call {i} was ({who}, {s:?}, {t})");
        }
    }
    g.class(match want {
        End::Ok(0) => "satisfied at the start",
        End::Ok(_) => "converged",
        End::Max(_) => "iteration limit",
        End::Fault(..) => "failing step",
    });
    Ok(true)
}

trait Access: Optimizer<Input = Values> + GraphOptimizer {
    fn set(&mut self, p: OptParams);
    fn watch(&mut self, r: Record);
}
impl<S: LinearSolver> Access for GaussNewton<S> {
    fn set(&mut self, p: OptParams) {
        self.params = p;
    }
    fn watch(&mut self, r: Record) {
        self.observers.add(r);
    }
}
impl<S: LinearSolver> Access for LevenMarquardt<S> {
    fn set(&mut self, p: OptParams) {
        self.params_base = p;
    }
    fn watch(&mut self, r: Record) {
        self.observers.add(r);
    }
}
fn real_run<O: Access>(g: &mut Gen, name: &str, w: &World) -> Outcome {
    let mut opt = O::new(w.graph());
    let p = OptParams {
        max_iterations: *g.pick(&[0, 1, 2, 4, 8, 30, 100]),
        error_tol: if g.bool() { 0.0 } else { g.logu(1e-6, 10.0) },
        error_tol_absolute: if g.chance(1, 3) { 0.0 } else { g.logu(1e-9, 10.0) },
        error_tol_relative: if g.chance(1, 3) { 0.0 } else { g.logu(1e-9, 0.9) },
    };
    opt.set(p.clone());
    let rec = Record::default();
    opt.watch(rec.clone());
    let start = w.values(g);
    let e0 = w.graph().error(&start);
    ensure!((opt.error(&start) - e0).abs() <= 1e-12 * e0.abs(), "{name}: the optimiser's error differs from its graph's");
    ensure!(opt.graph().len() == w.graph().len() && (opt.graph().error(&start) - e0).abs() <= 1e-12 * e0.abs(), "{name}: the optimiser's graph is not the one it was built on");
    note!(g, "{name}: {p:?}, error {e0}");
    let r = opt.optimize(start);
    let steps = rec.steps.borrow();
    let gr = w.graph();
    let mut errs = vec![e0];
    for (i, (t, v)) in steps.iter().enumerate() {
        ensure!(*t == (i + 1) as f64, "{name}: observer call {i} has number {t}");
        errs.push(gr.error(v));
    }
    if errs.iter().any(|e| !e.is_finite() || *e > 1e12) {
        return Ok(false);
    }
    note!(g, "errors {errs:?}");
    // every step but the last did not satisfy a stopping rule, and the run ended for the right reason
    let stop = |n: usize| {
        let (a, b) = (errs[n - 1], errs[n]);
        b <= p.error_tol || a - b <= p.error_tol_absolute || (a - b) / a <= p.error_tol_relative
    };
    let close = |n: usize| {
        let (a, b) = (errs[n - 1], errs[n]);
        let near = |x: f64, y: f64| (x - y).abs() <= 1e-11 * (a.abs() + b.abs() + 1e-30);
        near(b, p.error_tol) || near(a - b, p.error_tol_absolute) || near(a - b, p.error_tol_relative * a)
    };
    let n = steps.len();
    if e0 <= p.error_tol {
        ensure!(n == 0 && r.is_ok(), "{name}: {n} steps were taken from values that already satisfy the error tolerance");
        return Ok(false);
    }
    for k in 1..n {
        ensure!(!stop(k) || close(k), "{name}: step {} was taken although step {k} satisfied a stopping rule", k + 1);
    }
    match r {
        Ok(v) => {
            ensure!(n > 0, "{name}: success without a step although the error {e0} is above the tolerance");
            ensure!(stop(n) || close(n), "{name}: success after {n} steps although no stopping rule holds");
            ensure!(apart(&w.fetch(&v)?, &w.fetch(&steps[n - 1].1)?) == 0.0, "{name}: the returned values are not the last step's");
            g.class("converged");
        }
        Err(OptError::MaxIterations(v)) => {
            ensure!(n == p.max_iterations, "{name}: max-iterations error after {n} steps, limit {}", p.max_iterations);
            ensure!(n == 0 || !stop(n) || close(n), "{name}: max-iterations error although step {n} satisfied a stopping rule");
            let last = if n > 0 { w.fetch(&steps[n - 1].1)? } else { w.vars.clone() };
            ensure!(apart(&w.fetch(&v)?, &last) == 0.0, "{name}: the max-iterations error does not carry the latest values");
            g.class("iteration limit");
        }
        Err(OptError::FailedToStep) => {
            ensure!(name == "LM" && n < p.max_iterations, "{name}: FailedToStep after {n} steps");
            ensure!(n == 0 || !stop(n) || close(n), "{name}: another step was tried although step {n} satisfied a stopping rule");
            g.class("step failure");
        }
        Err(OptError::InvalidSystem) => return Err(format!("{name}: InvalidSystem")),
    }
    Ok(n > 0)
}
fn real(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let w = World::gen(g, Opts { max_vars: 4, max_extra: 4, ang: 0.5, tr: 0.7, sigma: (0.3, 2.0), anchored: true, robust: false, custom: false, vectors: false });
    match g.below(4) {
        0 => real_run::<GaussNewton<CholeskySolver>>(g, "GN", &w),
        1 => real_run::<GaussNewton<QRSolver>>(g, "GN", &w),
        2 => real_run::<LevenMarquardt<CholeskySolver>>(g, "LM", &w),
        _ => real_run::<LevenMarquardt<LUSolver>>(g, "LM", &w),
    }
}
fn defaults(_: &mut Gen) -> Outcome {
    let p = OptParams::default();
    ensure!(p.max_iterations == 100 && p.error_tol == 0.0 && p.error_tol_absolute == 1e-6 && p.error_tol_relative == 1e-6, "default parameters {p:?}");
    let gn: GaussNewton = GaussNewton::new(factrs::containers::Graph::new());
    let lm: LevenMarquardt = LevenMarquardt::new(factrs::containers::Graph::new());
    for q in [gn.params(), lm.params()] {
        ensure!(format!("{q:?}") == format!("{p:?}"), "a new optimiser has parameters {q:?}");
    }
    Ok(true)
}

fn main() {
    harness::engine::main(Property {
        id: "C15",
        rule: "scripted: an optimiser with a generated error history (dyadic: flat, rising, halving, tiny decreases, zero; sometimes NaN or infinite for a while), tolerances at, just above and just below quantities of that history, or negative, iteration limits 0..150 (rarely up to 5000 with as long a history), failing steps of each kind, 0..3 observers, the same object run twice, against a model of the loop; real: Gauss-Newton and Levenberg-Marquardt on generated graphs with random tolerances, judged by the errors of the observed values. Non-trivial: scripted always; real with at least one step.",
        assumptions: &["real runs: quantities within 1e-11 of a tolerance may be decided either way"],
        subs: vec![sub("scripted", 200_000, scripted), sub("real", 30_000, real), sub("defaults", 1, defaults)],
    });
}
