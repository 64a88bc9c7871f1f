//! C24: the left-hand and decoupled configurations. Built once per configuration; every oracle of the library follows
//! the features of the build (`exp_ref`, `retract_mat`, `relative_mat`, `log_ref`).
use factrs::{
    containers::Values,
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    optimizers::{GaussNewton, GraphOptimizer, Optimizer},
    residuals::Residual,
    variables::{VariableSafe, VariableUmbrella},
};
use harness::{engine::*, ensure, for_builtin, for_var, funcs::*, geom::*, graphs::*, imu::*, note, optim::*, plans::*, res::*, vars::*, world::*};
use std::f64::consts::PI;

fn rot<T: Var>(d: &[f64]) -> f64 {
    d[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn maps_<T: Var>(g: &mut Gen) -> Outcome {
    let x = T::gen(g);
    let y = T::gen(g);
    let d = T::gen_tangent(g, false);
    note!(g, "x = {}, y = {}, d = {:?}", x.show(), y.show(), d);
    let dv = vx(&d);
    let th = rot::<T>(&d);
    let scale = x.mag() * y.mag() * (1.0 + maxabs(&d));
    let e = T::exp(dv.as_view());
    let er = T::exp_ref(&d);
    ensure!(diff(&e.mat(), &er) < 2e-8 * scale, "{}: exp({:?}) = {} but {} is specified", T::NAME, d, e.show(), er);
    if cfg!(feature = "fake_exp") && T::ROT > 0 && T::N > T::ROT {
        // untouched, not merely close
        let n = er.nrows() - 1;
        for i in 0..n {
            ensure!(e.mat()[(i, n)] == d[T::ROT + i], "{}: exp({:?}) has translation {:?}", T::NAME, d, e.show());
        }
        let l = x.log();
        for i in 0..n {
            ensure!(l[T::ROT + i] == x.mat()[(i, n)], "{}: log({}) = {:?}", T::NAME, x.show(), l.as_slice());
        }
    }
    // retraction and its inverse
    let z = x.oplus(dv.as_view());
    let zr = T::retract_mat(&x.mat(), &d);
    ensure!(diff(&z.mat(), &zr) < 2e-8 * scale, "{}: x moved by d is {} but should be {}", T::NAME, z.show(), zr);
    if th < PI - 1e-4 {
        let tol = 3e-8 * scale * scale * (1.0 + 1e-5 / (PI - th));
        let b = z.ominus(&x);
        ensure!(vdiff(b.as_slice(), &d) < tol, "{}: difference of x moved by d from x is {:?}, d is {:?}", T::NAME, b.as_slice(), d);
    }
    let b = y.ominus(&x);
    let m = x.oplus(b.as_view());
    ensure!(diff(&m.mat(), &y.mat()) < 2e-8 * scale * scale, "{}: x moved by the difference of y from x is {} not y", T::NAME, m.show());
    ensure!(rot::<T>(b.as_slice()) <= PI + 1e-9, "{}: difference {:?} beyond pi", T::NAME, b.as_slice());
    let rel = T::from_mat_ref(&T::relative_mat(&y.mat(), &x.mat()));
    let l = rel.log_ref();
    let lt = rot::<T>(l.as_slice());
    if lt < PI - 1e-4 {
        ensure!(vdiff(b.as_slice(), l.as_slice()) < 3e-8 * scale * scale * (1.0 + 1e-5 / (PI - lt)), "{}: difference {:?}, specified {:?}", T::NAME, b.as_slice(), l.as_slice());
    }
    // in place
    let mut bx: Box<dyn VariableSafe> = Box::new(x.clone());
    bx.oplus_mut(dv.as_view());
    ensure!(diff(&bx.downcast_ref::<T>().expect("type kept").mat(), &zr) < 2e-8 * scale, "{}: in-place update", T::NAME);
    // the explicit variants and minus do not depend on the configuration
    let ei = x.mat().try_inverse().unwrap();
    ensure!(diff(&x.oplus_right(dv.as_view()).mat(), &(x.mat() * &er)) < 2e-8 * scale, "{}: right update", T::NAME);
    ensure!(diff(&x.oplus_left(dv.as_view()).mat(), &(&er * x.mat())) < 2e-8 * scale, "{}: left update", T::NAME);
    ensure!(diff(&y.minus(&x).mat(), &(&ei * y.mat())) < 1e-11 * scale, "{}: minus", T::NAME);
    ensure!(diff(&T::exp(x.log().as_view()).mat(), &x.mat()) < 2e-8 * scale, "{}: exp(log(x)) = {}", T::NAME, T::exp(x.log().as_view()).show());
    Ok(maxabs(&d) > 0.0 && diff(&x.mat(), &M::identity(ei.nrows(), ei.ncols())) > 1e-12)
}
fn maps(g: &mut Gen) -> Outcome {
    for_var!(g, maps_)
}

/// both differentiators against differences along the configured perturbation
fn derivatives(g: &mut Gen) -> Outcome {
    let tight = g.bool();
    g.ordinary = tight;
    let c = any_case(g, &Which::Forward);
    ensure!(vdiff(c.got_value.as_slice(), c.value.as_slice()) <= 1e-12 * c.scale * c.scale, "{}: value {:?}, function gives {:?}", c.label, c.got_value.as_slice(), c.value.as_slice());
    let tol = if tight { 1e-8 * c.scale * c.scale } else { 1e-5 * c.scale * (1.0 + maxabs(c.jac.iter()).min(c.scale)) };
    let d = diff(&c.got_jac, &c.jac);
    ensure!(d < tol, "{}: Jacobian is {} but the derivative is {} (difference {d:e}, tolerance {tol:e})", c.label, c.got_jac, c.jac);
    Ok(maxabs(c.jac.iter()) > 1e-6)
}
fn numerical(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let c = any_case(g, &Which::Num6);
    let d = diff(&c.got_jac, &c.jac);
    let tol = 1e-5 * c.scale * c.scale;
    ensure!(d < tol, "{}: numerical Jacobian is {} but the derivative is {} (difference {d:e}, tolerance {tol:e})", c.label, c.got_jac, c.jac);
    Ok(maxabs(c.jac.iter()) > 1e-6)
}
fn residuals(g: &mut Gen) -> Outcome {
    residual_case(g)
}

/// prior and between residuals: value and Jacobian in the configured convention
fn builtin_<T: Builtin + VariableUmbrella>(g: &mut Gen) -> Outcome {
    let a = T::gen_o(g, 3.0, 4.0);
    let z = T::gen_o(g, 3.0, 4.0);
    let e = T::gen_o(g, 2.2, 3.0);
    let b = T::from_mat_ref(&(a.mat() * z.mat() * e.mat()));
    note!(g, "{} a = {}, z = {}, b = {}", T::NAME, a.show(), z.show(), b.show());
    g.hash_order();
    let keys = gen_keys(g, 2);
    let mut v = Values::new();
    v.insert_unchecked(raw(keys[0]), a.clone());
    v.insert_unchecked(raw(keys[1]), b.clone());
    let mut non = false;
    type Ref<T> = fn(&T, &[T]) -> V;
    let refs: [(&str, Box<dyn Residual>, usize, Ref<T>); 2] = [
        ("prior", T::prior(z.clone()), 1, |z, x| T::prior_ref(z, &x[0])),
        ("between", T::between(z.clone()), 2, |z, x| T::between_ref(z, &x[0], &x[1])),
    ];
    for (name, res, n, rf) in refs {
        let xs = [a.clone(), b.clone()];
        let want = rf(&z, &xs);
        if rot::<T>(want.as_slice()) > 2.9 {
            continue;
        }
        let r = res.residual(&v, &keys[..n]);
        let s = a.mag() * b.mag() * z.mag();
        ensure!(vdiff(r.as_slice(), want.as_slice()) < 1e-7 * s, "{} {name}: residual {:?}, specified {:?}", T::NAME, r.as_slice(), want.as_slice());
        let mut jac = M::zeros(T::N, T::N * n);
        for i in 0..n * T::N {
            let c = fd6(
                |h| {
                    let mut d = vec![0.0; T::N];
                    d[i % T::N] = h;
                    let mut ys = xs.clone();
                    ys[i / T::N] = ys[i / T::N].retract_ref(&d);
                    rf(&z, &ys)
                },
                2e-3,
            );
            jac.set_column(i, &c);
        }
        let got = res.residual_jacobian(&v, &keys[..n]).diff;
        ensure!(diff(&got, &jac) < 1e-6 * s * s, "{} {name}: Jacobian {} but the derivative is {}", T::NAME, got, jac);
        non |= maxabs(want.iter()) > 1e-9;
    }
    Ok(non)
}
fn builtin(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    for_builtin!(g, builtin_)
}

/// the linearised IMU factor is the derivative of its own residual
fn imu(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    g.hash_order();
    let mut imu = Imu::gen(g, 12);
    if imu.meas.is_empty() {
        imu.meas.push((harness::imu::V3::new(0.1, 0.2, -0.3), harness::imu::V3::new(1.0, 2.0, 9.0), 0.02));
    }
    let keys = gen_keys(g, 6);
    let s1 = State::gen(g, 3.0, 0.3);
    let d = imu.delta();
    // second state near the prediction, so that the rotation mismatch stays away from pi
    let mut s2 = imu.predict(&d, &s1);
    for w in 0..3 {
        for k in 0..if w == 1 { 3 } else { 6 } {
            s2 = s2.bump(w, k, g.sym(0.4));
        }
    }
    note!(g, "{:?} {:?} {:?}", imu, s1, s2);
    let f = imu.factor(&keys);
    let at = |s1: &State, s2: &State| {
        let mut v = Values::new();
        insert(&mut v, &keys, s1, s2);
        linear(&f, &v)
    };
    let (a, b) = at(&s1, &s2)?;
    let mut want = M::zeros(15, 30);
    for c in 0..30 {
        let (side, k) = (c / 15, c % 15);
        let (w, k) = if k < 6 { (0, k) } else if k < 9 { (1, k - 6) } else { (2, k - 9) };
        let run = |h: f64| -> V {
            let (mut p, mut q) = (s1.clone(), s2.clone());
            if side == 0 {
                p = p.bump(w, k, h)
            } else {
                q = q.bump(w, k, h)
            }
            at(&p, &q).map(|x| -x.1).unwrap_or_else(|_| V::from_element(15, f64::NAN))
        };
        want.set_column(c, &fd6(run, 2e-3));
    }
    for i in 0..15 {
        let s = maxabs(want.row(i).iter()) + b[i].abs();
        let e = (a.row(i) - want.row(i)).amax();
        ensure!(e < 1e-6 * s + 1e-12, "row {i} of the linearised IMU factor is {:?} but the derivative of its residual is {:?}", a.row(i).iter().collect::<Vec<_>>(), want.row(i).iter().collect::<Vec<_>>());
    }
    Ok(true)
}

/// one Gauss-Newton step against the reference model in the configured convention
fn gn_step<S: LinearSolver>(g: &mut Gen, w: &World) -> Outcome {
    if w.factors.iter().any(|f| f.at_kink(&w.vars) || !f.smooth(&w.vars)) {
        return Ok(false);
    }
    let (a, b) = w.dense(&w.vars);
    if !a.iter().chain(b.iter()).all(|x| x.is_finite() && (*x == 0.0 || x.abs() > 1e-70)) {
        return Ok(false);
    }
    let k = normal_cond(&a);
    if !(k < 1e5) {
        return Ok(false);
    }
    let Some(d) = spd_solve(&(a.transpose() * &a), &(a.transpose() * &b)) else { return Ok(false) };
    let n = maxabs(d.iter());
    if n > 1e3 {
        return Ok(false);
    }
    let want = retract_all(&w.vars, &d);
    let tol = (1e-8 * k + 1e-7) * (1.0 + n) * extent(&want);
    let mut opt: GaussNewton<S> = GaussNewton::new(w.graph());
    let values = w.values(g);
    let e = w.error(&w.vars);
    let got = opt.error(&values);
    ensure!((got - e).abs() <= 1e-9 * (1.0 + e.abs()), "error of the graph {got}, specified {e}");
    opt.init(&values);
    let Ok(values) = opt.step(values, 0) else { return Err("a Gauss-Newton step of a well-posed problem failed".into()) };
    let got = w.fetch(&values)?;
    ensure!(apart(&got, &want) < tol, "the step ends {:e} from the least-squares step (tolerance {tol:e})", apart(&got, &want));
    Ok(n > 1e-6)
}
fn step(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let robust = g.bool();
    let w = World::gen(g, Opts { max_vars: 5, max_extra: 5, ang: 0.8, tr: 1.0, sigma: (0.3, 2.0), anchored: true, robust, custom: true, vectors: false });
    match g.below(3) {
        0 => gn_step::<CholeskySolver>(g, &w),
        1 => gn_step::<QRSolver>(g, &w),
        _ => gn_step::<LUSolver>(g, &w),
    }
}

/// consistent measurements are recovered
fn optimise(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let p = plan(g, false, 20);
    let id: Vec<usize> = (0..p.edges.len()).collect();
    let w = write(g, &p, &id, None);
    describe(g, &w);
    let k = kinds(g);
    note!(g, "optimiser {k:?}");
    let got = solve(g, k, &w, false)?;
    let (e, tol) = (apart(&got, &p.truth), 1e-5 * extent(&p.truth));
    ensure!(e < tol, "{k:?}: consistent measurements, start close to the truth, but the result is {e:e} from it (tolerance {tol:e})");
    g.class(if matches!(k, Kind::Gn(_)) { "Gauss-Newton" } else { "Levenberg-Marquardt" });
    Ok(apart(&p.start, &p.truth) > 1e-3)
}

fn main() {
    harness::engine::main(Property {
        id: "C24",
        rule: "run once per configuration (left, fake_exp, both). maps: exp, log, retraction, difference, in-place update and the explicit variants of every variable type over all angle classes against matrices; derivatives/numerical/residuals: generated functions of 1..6 variables against sixth-order differences along the configured perturbation; builtin: prior/between values and Jacobians; imu: the linearised IMU factor against differences of its own residual; step: Gauss-Newton steps against dense least squares in the configured coordinates; optimise: consistent problems are solved to the truth by every optimiser. Non-trivial: nonzero tangent, Jacobian, residual, step, or start error.",
        assumptions: &["unit quaternions", "logarithms are differentiated at rotation angles below 2.9"],
        subs: vec![sub("maps", 300_000, maps), sub("derivatives", 40_000, derivatives), sub("numerical", 10_000, numerical), sub("residuals", 10_000, residuals), sub("builtin", 30_000, builtin), sub("imu", 2_000, imu), sub("step", 6_000, step), sub("optimise", 10_000, optimise)],
    });
}
