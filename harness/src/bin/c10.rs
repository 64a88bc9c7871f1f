//! C10: factor error and linearisation.
use factrs::{
    containers::{Factor, Graph, Key, Values, ValuesOrder},
    linalg::DiffResult,
};
use harness::{engine::*, ensure, funcs::fd6, geom::*, graphs::*, note, res::*, world::*};

/// one factor of any kind on its own variables
fn gen_one(g: &mut Gen) -> (FSpec, Vec<AnyVar>) {
    let mut vars = vec![gen_any(g)];
    let rob = Rob::gen_any(g);
    let f = match g.below(10) {
        0 | 1 => {
            let n = Noise::gen_any(g, vars[0].dim(), 0.05, 5.0);
            let d = if g.ordinary { vars[0].tangent_away(g, 3.05, 3.0) } else { vars[0].tangent(g, 2.5, 3.0) };
            prior_on(0, &vars[0], &d, n, rob)
        }
        2 | 3 => {
            let b = vars[0].another(g, 3.05, 3.0);
            vars.push(b);
            // now and then both ends are the same variable
            let j = if g.chance(1, 12) { 0 } else { 1 };
            let n = Noise::gen_any(g, vars[0].dim(), 0.05, 5.0);
            let d = if g.ordinary { vars[0].tangent_away(g, 3.05, 3.0) } else { vars[0].tangent(g, 2.5, 3.0) };
            between_on(0, j, &vars[0], &vars[j], &d, n, rob).unwrap()
        }
        k => {
            let k = k - 4;
            let n = Noise::gen_any(g, out_of(k), 0.05, 5.0);
            custom_on(g, &mut vars, k, n, rob)
        }
    };
    (f, vars)
}
fn size(f: &FSpec, vars: &[AnyVar]) -> f64 {
    let mut s = 1.0 + maxabs(f.residual(vars).iter());
    for v in f.args(vars) {
        s += maxabs(v.mat().iter());
    }
    s
}
fn put(g: &mut Gen, f: &FSpec, vars: &[AnyVar], keys: &[Key]) -> Values {
    g.hash_order();
    let mut v = Values::new();
    let mut idx: Vec<usize> = (0..vars.len()).collect();
    g.shuffle(&mut idx);
    for i in idx {
        vars[i].insert(&mut v, keys[i]);
    }
    let _ = f;
    v
}

fn factor(g: &mut Gen) -> Outcome {
    g.ordinary = g.chance(3, 4);
    let (f, vars) = gen_one(g);
    let keys = gen_keys(g, vars.len());
    judge(g, &f, &vars, &keys)
}
/// several factors one after the other, on the same keys with variables of other types
fn reuse(g: &mut Gen) -> Outcome {
    g.ordinary = g.chance(3, 4);
    let keys = gen_keys(g, 8);
    let n = g.range(2, 5);
    let mut any = false;
    for i in 0..n {
        let (f, vars) = gen_one(g);
        any |= judge(g, &f, &vars, &keys[..vars.len()]).map_err(|e| format!("factor {i} on these keys: {e}"))?;
    }
    Ok(any)
}
/// linear residuals of two or three vectors with the same number of coordinates, split in different ways
#[derive(Clone, Debug)]
struct Lin(Vec<f64>);
macro_rules! split {
    ($name:ident, $tr:ident, $fn:ident, [$($v:ident $V:ident $t:ident $n:literal),*]) => {
        #[derive(Clone, Debug)]
        struct $name(Lin);
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, stringify!($name)) }
        }
        #[factrs::mark]
        impl factrs::residuals::$tr for $name {
            type Differ = factrs::linalg::ForwardProp<factrs::linalg::Const<6>>;
            $( type $V = factrs::variables::$t; )*
            type DimIn = factrs::linalg::Const<6>;
            type DimOut = factrs::linalg::Const<1>;
            fn $fn<T: factrs::linalg::Numeric>(&self, $($v: factrs::variables::$t<T>),*) -> factrs::linalg::VectorX<T> {
                let mut o = T::from(0.0);
                let mut k = 0;
                $( for i in 0..$n { o += $v[i] * T::from((self.0).0[k]); k += 1; } )*
                let _ = k;
                factrs::linalg::VectorX::from_element(1, o)
            }
        }
    };
}
split!(S15, Residual2, residual2, [a V1 VectorVar1 1, b V2 VectorVar5 5]);
split!(S51, Residual2, residual2, [a V1 VectorVar5 5, b V2 VectorVar1 1]);
split!(S24, Residual2, residual2, [a V1 VectorVar2 2, b V2 VectorVar4 4]);
split!(S33, Residual2, residual2, [a V1 VectorVar3 3, b V2 VectorVar3 3]);
split!(S123, Residual3, residual3, [a V1 VectorVar1 1, b V2 VectorVar2 2, c V3 VectorVar3 3]);
split!(S321, Residual3, residual3, [a V1 VectorVar3 3, b V2 VectorVar2 2, c V3 VectorVar1 1]);
split!(S222, Residual3, residual3, [a V1 VectorVar2 2, b V2 VectorVar2 2, c V3 VectorVar2 2]);
fn splits(g: &mut Gen) -> Outcome {
    use factrs::containers::FactorBuilder;
    let keys = gen_keys(g, 3);
    let n = g.range(2, 5);
    for step in 0..n {
        let co: Vec<f64> = (0..6).map(|_| g.sym(3.0)).collect();
        let x: Vec<f64> = (0..6).map(|_| g.sym(3.0)).collect();
        let l = Lin(co.clone());
        let k = |i: usize| raw(keys[i]);
        let (f, dims): (Factor, Vec<usize>) = match g.below(7) {
            0 => (FactorBuilder::new2_unchecked(S15(l), k(0), k(1)).build(), vec![1, 5]),
            1 => (FactorBuilder::new2_unchecked(S51(l), k(0), k(1)).build(), vec![5, 1]),
            2 => (FactorBuilder::new2_unchecked(S24(l), k(0), k(1)).build(), vec![2, 4]),
            3 => (FactorBuilder::new2_unchecked(S33(l), k(0), k(1)).build(), vec![3, 3]),
            4 => (FactorBuilder::new3_unchecked(S123(l), k(0), k(1), k(2)).build(), vec![1, 2, 3]),
            5 => (FactorBuilder::new3_unchecked(S321(l), k(0), k(1), k(2)).build(), vec![3, 2, 1]),
            _ => (FactorBuilder::new3_unchecked(S222(l), k(0), k(1), k(2)).build(), vec![2, 2, 2]),
        };
        let mut v = Values::new();
        let mut c = 0;
        for (i, d) in dims.iter().enumerate() {
            use factrs::variables::*;
            let y = &x[c..c + d];
            match d {
                1 => drop(v.insert_unchecked(k(i), VectorVar1::new(y[0]))),
                2 => drop(v.insert_unchecked(k(i), VectorVar2::new(y[0], y[1]))),
                3 => drop(v.insert_unchecked(k(i), VectorVar3::new(y[0], y[1], y[2]))),
                4 => drop(v.insert_unchecked(k(i), VectorVar4::new(y[0], y[1], y[2], y[3]))),
                _ => drop(v.insert_unchecked(k(i), VectorVar5::new(y[0], y[1], y[2], y[3], y[4]))),
            }
            c += d;
        }
        note!(g, "factor {step}: variables of {dims:?} at {x:?}, coefficients {co:?}");
        let r: f64 = co.iter().zip(&x).map(|(a, b)| a * b).sum();
        ensure!((f.error(&v) - 0.5 * r * r).abs() < 1e-11 * (1.0 + r * r) * 60.0, "factor {step} on {dims:?}: error {}, residual {r}", f.error(&v));
        let lin = f.linearize(&v);
        ensure!((lin.b[0] + r).abs() < 1e-11, "factor {step} on {dims:?}: right-hand side {}, residual {r}", lin.b[0]);
        let mut c = 0;
        for (i, d) in dims.iter().enumerate() {
            let b = lin.a.get_block(i).into_owned();
            ensure!(b.shape() == (1, *d) && vdiff(b.as_slice(), &co[c..c + d]) < 1e-12, "factor {step} on variables of {dims:?}, after others on the same keys: block {i} is {b}, expected {:?}", &co[c..c + d]);
            c += d;
        }
    }
    Ok(true)
}
fn large(g: &mut Gen) -> Outcome {
    let (v, e) = if g.chance(1, 12) { (3, 400_000) } else { *g.pick(&[(400, 400), (400, 4000), (5, 5000), (60_000, 10), (50, 75_000)]) };
    harness::big::factors_case(g, v, e)
}
fn judge(g: &mut Gen, f: &FSpec, vars: &[AnyVar], keys: &[Key]) -> Outcome {
    let fk: Vec<Key> = f.vars.iter().map(|i| keys[*i]).collect();
    let fac: Factor = (f.make)(&fk);
    let values = put(g, f, vars, keys);
    if g.verbose {
        for (k, v) in fk.iter().zip(f.args(vars)) {
            note!(g, "{k:?}: {}", v.show());
        }
        note!(g, "{} with {:?}, {:?}; residual {:?}", f.label, f.noise, f.rob, f.residual(vars).as_slice());
    }
    ensure!(fac.keys() == fk.as_slice(), "{}: keys {:?}, given {:?}", f.label, fac.keys(), fk);
    ensure!(fac.dim_out() == f.out, "{}: output dimension {}", f.label, fac.dim_out());
    let s = size(f, vars);
    let wmax = maxabs(f.w.iter()).max(1.0);
    // error
    let want = f.error(vars);
    let got = fac.error(&values);
    let d2 = f.whitened_norm2(vars);
    let tol = 1e-9 * (want + (1.0 + d2.sqrt()) * wmax * s * 10.0) + 1e-12 * d2;
    ensure!((got - want).abs() < tol, "{}: error {got}, loss of the Mahalanobis norm {want} (tolerance {tol:e})", f.label);
    // linearisation
    if f.at_kink(vars) {
        g.class("at a switch of the kernel");
        return Ok(false);
    }
    let lin = fac.linearize(&values);
    let (js, b) = f.linear(vars);
    let tol = if g.ordinary { 3e-8 } else { 2e-5 } * wmax * s * s;
    ensure!(lin.keys == fk, "{}: linear factor has keys {:?}, factor {:?}", f.label, lin.keys, fk);
    ensure!(lin.dim_out() == f.out && lin.b.len() == f.out, "{}: right-hand side has {} rows", f.label, lin.b.len());
    ensure!(vdiff(lin.b.as_slice(), b.as_slice()) < tol, "{}: right-hand side {:?}, expected {:?}", f.label, lin.b.as_slice(), b.as_slice());
    let mut col = 0;
    for (i, j) in js.iter().enumerate() {
        let blk = lin.a.get_block(i).into_owned();
        ensure!(blk.shape() == j.shape(), "{}: block {i} has shape {:?}", f.label, blk.shape());
        ensure!(diff(&blk, j) < tol, "{}: block {i} is {} but sqrt(w) W J is {} (difference {:e}, tolerance {:e})", f.label, blk, j, diff(&blk, j), tol);
        ensure!(lin.a.idx()[i] == col, "{}: block {i} starts at column {}", f.label, lin.a.idx()[i]);
        let x = V::from_fn(j.ncols(), |_, _| g.sym(1.0));
        ensure!(vdiff(lin.a.mul(i, x.as_view()).as_slice(), (&blk * &x).as_slice()) < 1e-12 * wmax * s * s * 10.0, "{}: product with block {i}", f.label);
        col += j.ncols();
    }
    ensure!(lin.a.mat().ncols() == col, "{}: {} columns in total", f.label, lin.a.mat().ncols());
    // gradient of the error, through the factor's own error
    // the loss of Fair has a |r|^3 term: its fourth derivative is unbounded at zero
    let l1_cap = matches!(f.rob, Rob::L1) && d2 < 2e-3 || matches!(f.rob, Rob::Fair(_)) && d2.sqrt() < 0.02 * s;
    let near_kink = f.rob.kink().map_or(false, |k| (d2.sqrt() - k).abs() < 0.05 * k + 0.02 * wmax * s);
    if g.ordinary && !l1_cap && !near_kink {
        let grad = -(lin.a.mat().transpose() * &lin.b);
        let starts: Vec<usize> = f.args(vars).iter().scan(0, |s, x| { let o = *s; *s += x.dim(); Some(o) }).collect();
        for (a, x) in f.args(vars).into_iter().enumerate() {
            let i = f.vars[a];
            for k in 0..x.dim() {
                let at = |h: f64| {
                    let mut e = vec![0.0; x.dim()];
                    e[k] = h;
                    let mut v2 = values.clone();
                    x.retract(&e).insert(&mut v2, keys[i]);
                    V::from_element(1, fac.error(&v2))
                };
                let h = 1e-3 / wmax;
                let num = fd6(at, h)[0];
                let tol = 1e-6 * (1.0 + d2.sqrt()) * wmax * s * s + 1e-12 * (want + d2) / h;
                // a key may occur at several places of the factor
                let have: f64 = (0..f.vars.len()).filter(|b| f.vars[*b] == i).map(|b| grad[starts[b] + k]).sum();
                ensure!((num - have).abs() < tol, "{}: derivative of the error by coordinate {k} of key {a} is {num}, linearisation gives {have} (tolerance {tol:e})", f.label);
            }
        }
        g.class("gradient compared");
    }
    g.class(["arity 1", "arity 2", "arity 3", "arity 4", "arity 5", "arity 6"][fk.len() - 1]);
    Ok(d2 > 1e-12)
}

/// the error depends on the values of the factor's own keys only and is the same however often it is asked for
fn graph(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let w = World::gen(g, Opts { max_vars: 6, max_extra: 8, ang: 1.5, tr: 2.0, sigma: (0.1, 3.0), anchored: false, robust: true, custom: true, vectors: false });
    let values = w.values(g);
    let gr = w.graph();
    ensure!(gr.len() == w.factors.len() && !gr.is_empty(), "graph of {} factors has length {}", w.factors.len(), gr.len());
    let want = w.error(&w.vars);
    let got = gr.error(&values);
    let mut sum = 0.0;
    let mut stack: Vec<(Vec<Key>, M, V)> = vec![];
    let mut scale = 1.0f64;
    for f in &w.factors {
        let fac = (f.make)(&w.fkeys(f));
        sum += fac.error(&values);
        let l = fac.linearize(&values);
        scale = scale.max(size(f, &w.vars) * maxabs(f.w.iter()).max(1.0));
        stack.push((l.keys.clone(), l.a.mat().into_owned(), l.b.clone()));
    }
    ensure!((got - sum).abs() <= 1e-12 * sum.abs() + 1e-14, "graph error {got}, sum of the factors' errors {sum}");
    ensure!((got - want).abs() <= 1e-8 * (want + scale), "graph error {got}, reference {want}");
    // linearised graph: every factor once, in order
    let lg = gr.linearize(&values);
    let order = ValuesOrder::from_values(&values);
    let cols: Vec<(Key, usize, usize)> = order.iter().map(|(k, i)| (*k, i.idx, i.dim)).collect();
    let go = gr.sparsity_pattern(order);
    let DiffResult { value, diff: jac } = lg.residual_jacobian(&go);
    let rows: usize = w.factors.iter().map(|f| f.out).sum();
    ensure!(value.nrows() == rows && value.ncols() == 1, "stacked right-hand side is {}x{}", value.nrows(), value.ncols());
    let jd = jac.to_dense();
    let mut row = 0;
    for (i, (keys, a, b)) in stack.iter().enumerate() {
        for r in 0..b.len() {
            ensure!((value[(row + r, 0)] - b[r]).abs() <= 1e-12 * scale, "right-hand side of factor {i} (row {}) is {} but {} on its own", row + r, value[(row + r, 0)], b[r]);
        }
        let mut c0 = 0;
        for k in keys {
            let (_, c, d) = cols.iter().find(|x| x.0 == *k).unwrap();
            for r in 0..b.len() {
                for cc in 0..*d {
                    ensure!((jd[(row + r, c + cc)] - a[(r, c0 + cc)]).abs() <= 1e-12 * scale, "row {} column {} of the linearised graph is {}, the factor alone has {}", row + r, c + cc, jd[(row + r, c + cc)], a[(r, c0 + cc)]);
                }
            }
            c0 += d;
        }
        row += b.len();
    }
    // moving a variable changes exactly the errors of the factors that use it
    let i = g.below(w.vars.len() as u64) as usize;
    let d = w.vars[i].tangent(g, 0.3, 0.3);
    let mut vars2 = w.vars.clone();
    vars2[i] = w.vars[i].retract(&d);
    let v2 = w.values_of(g, &vars2);
    let mut expect = 0.0;
    for f in &w.factors {
        let fac = (f.make)(&w.fkeys(f));
        let (e1, e2) = (fac.error(&values), fac.error(&v2));
        if !f.vars.contains(&i) {
            ensure!(e1 == e2, "{}: error changes from {e1} to {e2} although none of its variables changed", f.label);
        }
        expect += e2;
    }
    let e2 = gr.error(&v2);
    ensure!((e2 - expect).abs() <= 1e-12 * expect.abs() + 1e-14, "graph error {e2} at other values, sum {expect}");
    ensure!(gr.error(&values) == got, "evaluating the graph elsewhere changed its error");
    // an empty graph
    ensure!(Graph::new().error(&values) == 0.0 && Graph::with_capacity(7).is_empty(), "empty graph");
    Ok(w.factors.len() > 1)
}

/// vector factors of any magnitude: J is the identity up to sign, so weights far out and close in can be compared relatively
fn scales(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let x = gen_kind(g, 6);
    let m = 10f64.powf(g.uniform(-8.0, 8.0));
    let d: Vec<f64> = (0..x.dim()).map(|_| if g.chance(1, 6) { 0.0 } else { m * g.sym(1.0) }).collect();
    // the variables themselves are no larger than what separates them, so nothing cancels
    let base: Vec<f64> = (0..x.dim()).map(|_| m * g.sym(1.0)).collect();
    let x = x.another(g, 0.0, 0.0).retract(&base);
    let rob = Rob::gen_any(g);
    let noise = Noise::gen_any(g, x.dim(), 0.05, 5.0);
    let (f, vars) = if g.bool() {
        (prior_on(0, &x, &d, noise, rob), vec![x])
    } else {
        let y = x.retract(&(0..x.dim()).map(|_| m * g.sym(1.0)).collect::<Vec<_>>());
        (between_on(0, 1, &x, &y, &d, noise, rob).unwrap(), vec![x, y])
    };
    let keys = gen_keys(g, vars.len());
    let fac: Factor = (f.make)(&keys);
    let values = put(g, &f, &vars, &keys);
    let r = f.residual(&vars);
    let d2 = f.whitened_norm2(&vars);
    note!(g, "{} with {:?}, {:?}; residual {:?}, squared whitened norm {d2:e}", f.label, f.noise, f.rob, r.as_slice());
    let rmax = maxabs(r.iter());
    if rmax < 1e-3 * m {
        return Ok(false);
    }
    let size = vars.iter().map(|v| maxabs(v.mat().iter())).fold(m, f64::max);
    // relative error that rounding of the residual can cause, amplified by a badly scaled whitening matrix
    let wr = &f.w * &r;
    let wmax = maxabs(f.w.iter());
    let rel = 1e-10 + 1e-13 * (size + wmax * rmax / maxabs(wr.iter()).max(1e-300));
    let rel = if size > 1e3 * m || size > 10.0 { 1e-10 + 1e-13 * size.max(1.0) / rmax.min(1.0) } else { rel };
    let rel = rel.max(1e-13 * size / rmax * 10.0) * (1.0 + wmax * rmax / d2.sqrt());
    if rel > 1e-4 {
        return Ok(false);
    }
    let want = f.rob.loss(d2);
    let got = fac.error(&values);
    ensure!((got - want).abs() <= 10.0 * rel * want + if matches!(f.rob, Rob::Default | Rob::L1 | Rob::L2) { 0.0 } else { 1e-11 }, "{}: error {got:e}, loss of the Mahalanobis norm {want:e}", f.label);
    if f.at_kink(&vars) {
        return Ok(false);
    }
    let lin = fac.linearize(&values);
    let w = f.rob.weight(d2).sqrt();
    // Tukey and Welsch lose relative precision where their weight vanishes
    let tw = if matches!(f.rob, Rob::Tukey(_) | Rob::Welsch(_)) { w.max(1e-6) } else { w } * 10.0 * rel;
    for i in 0..f.out {
        let wb = -w * wr[i];
        ensure!((lin.b[i] - wb).abs() <= tw * wmax * rmax, "{}: right-hand side {i} is {:e}, expected {wb:e} (squared norm {d2:e})", f.label, lin.b[i]);
    }
    for v in 0..vars.len() {
        let sign = if f.vars.len() == 2 && v == 0 { 1.0 } else { -1.0 };
        let want = &f.w * (sign * w);
        let blk = lin.a.get_block(v).into_owned();
        ensure!(diff(&blk, &want) <= tw * wmax, "{}: block {v} is {} but sqrt(w) W J is {} (squared norm {d2:e})", f.label, blk, want);
    }
    g.class(if d2 < 1e-6 { "close in" } else if d2 > 1e6 { "far out" } else { "middling" });
    Ok(true)
}

fn main() {
    harness::engine::main(Property {
        id: "C10",
        rule: "factor: priors/betweens of 12 types and custom residuals of arity 1..6 with every noise constructor (sigma 0.05..5) and 8 kernels, built with typed or unchecked keys, noise and kernel in either order; graph: up to 6+ variables, up to 9 factors; reuse: 2..5 such factors one after the other on the same keys; splits: linear residuals of 6 coordinates split over 2 or 3 vectors in seven ways, one after the other on the same keys; large: vector graphs of up to 60000 variables or 400000 factors with dyadic numbers, compared exactly with closed-form rows. Oracles: loss of r^T Omega r, sqrt(w) W J and -sqrt(w) W r with J by sixth-order differences of the harness, the gradient of the factor's own error by differences. Non-trivial: whitened residual not zero / more than one factor.",
        assumptions: &["within 1e-6 of a kernel's switch point weights are not compared; the gradient is compared away from switch points and above the stated L1 cap"],
        subs: vec![sub("factor", 30_000, factor), sub("graph", 20_000, graph), sub("scales", 60_000, scales), sub("reuse", 4_000, reuse), sub("splits", 20_000, splits), sub("large", 200, large)],
    });
}
