//! Generated estimation problems with a known truth, and every optimiser to run them with.
use crate::{engine::*, ensure, graphs::*, note, optim::*, res::*, world::*};
use factrs::{
    containers::Values,
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptParams, Optimizer},
};

pub struct Edge {
    pub a: usize,
    pub b: Option<usize>,
    pub d: Vec<f64>,
    pub noise: Noise,
    pub rob: Rob,
}
/// a problem before it is written down: truth, edges, start
pub struct Plan {
    pub truth: Vec<AnyVar>,
    pub comp: Vec<usize>,
    pub edges: Vec<Edge>,
    pub start: Vec<AnyVar>,
}
pub fn convex_kernel(g: &mut Gen) -> Rob {
    let c = g.uniform(0.8, 4.0);
    match g.below(5) {
        0 | 1 => Rob::Default,
        2 => Rob::L2,
        3 => Rob::Huber(c),
        _ => Rob::Fair(c),
    }
}
pub fn plan(g: &mut Gen, noisy: bool, max: usize) -> Plan {
    let robust = g.chance(1, 3);
    let mut p = Plan { truth: vec![], comp: vec![], edges: vec![], start: vec![] };
    let comps = if g.chance(1, 4) { g.range(2, 3) } else { 1 };
    for c in 0..comps {
        let proto = match g.below(5) {
            0 => gen_any(g),
            1 => AnyVar::So2(crate::funcs::gen_point(g)),
            2 => AnyVar::So3(crate::funcs::gen_point(g)),
            3 => AnyVar::Se2(crate::funcs::gen_point(g)),
            _ => AnyVar::Se3(crate::funcs::gen_point(g)),
        };
        let n = if g.chance(1, 150) { g.range(max, max * 4) } else if g.chance(1, 10) { g.range(1, max) } else { g.range(1, 6) };
        // vector problems are linear: any start will do; the world is sometimes large
        let flat = proto.rot_dim() == 0 && proto.name() != "Scaled" && !robust;
        let far = if flat { 0.25 * 10f64.powi(g.range(0, 5) as i32) } else { 0.25 };
        let wide = if proto.name() == "Scaled" || noisy && proto.rot_dim() > 0 { 4.0 } else { *g.pick(&[4.0, 4.0, 4.0, 200.0]) };
        let base = p.truth.len();
        for _ in 0..n {
            let x = proto.another(g, 3.0, wide);
            let s = {
                let t = x.tangent(g, 0.12 * 4.0 / wide, far);
                x.retract(&t)
            };
            p.truth.push(x);
            p.start.push(s);
            p.comp.push(c);
        }
        let mut pairs: Vec<(usize, Option<usize>)> = vec![(base + g.below(n as u64) as usize, None)];
        for i in 1..n {
            let j = if g.bool() { i - 1 } else { g.below(i as u64) as usize };
            pairs.push(if g.bool() { (base + i, Some(base + j)) } else { (base + j, Some(base + i)) });
        }
        for _ in 0..g.range(0, n) {
            let (i, j) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
            pairs.push(if i == j { (base + i, None) } else { (base + i, Some(base + j)) });
        }
        for (a, b) in pairs {
            let dim = proto.dim();
            let noise = Noise::gen(g, dim, 0.2, 2.0);
            let rob = if robust { if noisy { convex_kernel(g) } else { positive_kernel(g) } } else { Rob::Default };
            let d = if noisy { proto.tangent(g, 0.06, 0.12) } else { vec![0.0; dim] };
            p.edges.push(Edge { a, b, d, noise, rob });
        }
    }
    p
}
/// write the plan down: edges in the given order, keys drawn anew, everything moved by `motion` (one per component)
pub fn write(g: &mut Gen, p: &Plan, order: &[usize], motion: Option<&[AnyVar]>) -> World {
    let mv = |i: usize, x: &AnyVar| motion.map_or(x.clone(), |m| m[p.comp[i]].compose_ref(x));
    let truth: Vec<AnyVar> = p.truth.iter().enumerate().map(|(i, x)| mv(i, x)).collect();
    let start: Vec<AnyVar> = p.start.iter().enumerate().map(|(i, x)| mv(i, x)).collect();
    let factors = order
        .iter()
        .map(|k| {
            let e = &p.edges[*k];
            match e.b {
                None => prior_on(e.a, &truth[e.a], &e.d, e.noise.clone(), e.rob),
                Some(b) => between_on(e.a, b, &truth[e.a], &truth[b], &e.d, e.noise.clone(), e.rob).unwrap(),
            }
        })
        .collect();
    World { keys: gen_keys(g, start.len()), vars: start, factors }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Gn(u8),
    Lm(u8, bool),
}
pub fn kinds(g: &mut Gen) -> Kind {
    let s = g.below(3) as u8;
    if g.bool() {
        Kind::Lm(s, g.bool())
    } else {
        Kind::Gn(s)
    }
}
/// an optimiser object of any kind that can be run several times
pub enum Any {
    G0(GaussNewton<CholeskySolver>),
    G1(GaussNewton<QRSolver>),
    G2(GaussNewton<LUSolver>),
    L0(LevenMarquardt<CholeskySolver>),
    L1(LevenMarquardt<QRSolver>),
    L2(LevenMarquardt<LUSolver>),
}
pub fn gn<S: LinearSolver>(w: &World, p: &OptParams, r: &Record) -> GaussNewton<S> {
    let mut o = GaussNewton::new(w.graph());
    o.params = p.clone();
    o.observers.add(r.clone());
    o
}
pub fn lm<S: LinearSolver>(w: &World, p: &OptParams, d: bool, r: &Record) -> LevenMarquardt<S> {
    let mut o = LevenMarquardt::new(w.graph());
    o.params_base = p.clone();
    o.params_leven.diagonal_damping = d;
    o.observers.add(r.clone());
    o
}
impl Any {
    pub fn new(k: Kind, w: &World, p: &OptParams, r: &Record) -> Any {
        match k {
            Kind::Gn(0) => Any::G0(gn(w, p, r)),
            Kind::Gn(1) => Any::G1(gn(w, p, r)),
            Kind::Gn(_) => Any::G2(gn(w, p, r)),
            Kind::Lm(0, d) => Any::L0(lm(w, p, d, r)),
            Kind::Lm(1, d) => Any::L1(lm(w, p, d, r)),
            Kind::Lm(_, d) => Any::L2(lm(w, p, d, r)),
        }
    }
    pub fn run(&mut self, v: Values) -> Result<Values, OptError<Values>> {
        match self {
            Any::G0(o) => o.optimize(v),
            Any::G1(o) => o.optimize(v),
            Any::G2(o) => o.optimize(v),
            Any::L0(o) => o.optimize(v),
            Any::L1(o) => o.optimize(v),
            Any::L2(o) => o.optimize(v),
        }
    }
    pub fn set(&mut self, p: OptParams) {
        match self {
            Any::G0(o) => o.params = p,
            Any::G1(o) => o.params = p,
            Any::G2(o) => o.params = p,
            Any::L0(o) => o.params_base = p,
            Any::L1(o) => o.params_base = p,
            Any::L2(o) => o.params_base = p,
        }
    }
}
pub fn tight(noisy: bool) -> OptParams {
    OptParams { max_iterations: 100, error_tol: 0.0, error_tol_absolute: if noisy { 1e-9 } else { 1e-13 }, error_tol_relative: if noisy { 1e-11 } else { 1e-12 } }
}
/// final variables of a run; Levenberg-Marquardt may end with a step failure at a minimum, then the last accepted values count
pub fn finish(k: Kind, r: Result<Values, OptError<Values>>, rec: &Record, w: &World) -> Result<Vec<AnyVar>, String> {
    match r {
        Ok(v) => {
            ensure!(v.len() == w.vars.len(), "{k:?}: {} values returned for {} variables", v.len(), w.vars.len());
            w.fetch(&v)
        }
        Err(OptError::FailedToStep) if matches!(k, Kind::Lm(..)) => match rec.steps.borrow().last() {
            Some((_, v)) => w.fetch(v),
            None => Ok(w.vars.clone()),
        },
        Err(OptError::MaxIterations(_)) => Err(format!("{k:?} did not converge in 100 iterations from within the basin")),
        Err(_) => Err(format!("{k:?} ended with an error other than the iteration limit")),
    }
}
pub fn solve(g: &mut Gen, k: Kind, w: &World, noisy: bool) -> Result<Vec<AnyVar>, String> {
    let rec = Record::default();
    let mut o = Any::new(k, w, &tight(noisy), &rec);
    let v = w.values(g);
    let r = o.run(v);
    finish(k, r, &rec, w)
}
pub fn shuffled(g: &mut Gen, n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).collect();
    g.shuffle(&mut o);
    o
}
pub fn describe(g: &mut Gen, w: &World) {
    if g.verbose {
        for (k, v) in w.keys.iter().zip(&w.vars) {
            note!(g, "start {:?}: {}", k, v.show());
        }
        for f in &w.factors {
            note!(g, "factor {} on {:?}, {:?}, {:?}", f.label, f.vars, f.noise, f.rob);
        }
    }
}

