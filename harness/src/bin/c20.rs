//! C20: IMU preintegration against the documented recursion.
use factrs::containers::Values;
use harness::{engine::*, ensure, geom::*, imu::*, note, res::{gen_keys, raw}};

fn second(g: &mut Gen, imu: &Imu, d: &Delta, s1: &State, small: bool) -> State {
    // somewhere around the prediction
    let mut s2 = imu.predict(d, s1);
    let (ang, tr) = if small { (g.logu(1e-8, 1e-2), g.logu(1e-6, 1e-1)) } else { (g.uniform(0.1, 2.5), g.logu(0.1, 10.0)) };
    let ax = gen_axis(g);
    s2.r *= rexp(&(V3::new(ax[0], ax[1], ax[2]) * ang));
    for k in 0..3 {
        s2.p[k] += g.sym(tr);
        s2.v[k] += g.sym(tr);
        s2.bg[k] += g.sym(tr * 0.1);
        s2.ba[k] += g.sym(tr * 0.1);
    }
    s2
}
fn show(g: &mut Gen, imu: &Imu, s1: &State, s2: &State) {
    note!(g, "gravity {:?} bias {:?} {:?}", imu.gravity.as_slice(), imu.bg.as_slice(), imu.ba.as_slice());
    note!(g, "noise {:?}", imu.params);
    for (w, a, dt) in imu.meas.iter().take(8) {
        note!(g, "gyro {:?} accel {:?} dt {dt}", w.as_slice(), a.as_slice());
    }
    note!(g, "({} measurements)", imu.meas.len());
    note!(g, "state 1 {s1:?}");
    note!(g, "state 2 {s2:?}");
}
fn setup(g: &mut Gen, small: bool) -> (Imu, Delta, State, State) {
    let imu = Imu::gen(g, 25);
    let d = imu.delta();
    let tr = g.logu(0.1, 100.0);
    let mut s1 = State::gen(g, tr, 0.3);
    if g.chance(1, 3) {
        // at the bias used for the integration
        s1.bg = imu.bg;
        s1.ba = imu.ba;
    } else if g.chance(1, 3) {
        // close to it
        let (a, b) = (g.logu(1e-6, 1e-1), g.logu(1e-6, 1e-1));
        for k in 0..3 {
            s1.bg[k] = imu.bg[k] + g.sym(a);
            s1.ba[k] = imu.ba[k] + g.sym(b);
        }
    }
    let s2 = second(g, &imu, &d, &s1, small);
    show(g, &imu, &s1, &s2);
    (imu, d, s1, s2)
}

fn recursion(g: &mut Gen) -> Outcome {
    g.hash_order();
    let small = g.chance(1, 3);
    let (imu, d, s1, s2) = setup(g, small);
    g.class(if small { "small residual" } else { "ordinary residual" });
    let keys = gen_keys(g, 6);
    let f = imu.factor(&keys);
    ensure!(f.keys() == &keys[..], "the factor's keys are {:?}", f.keys());
    ensure!(f.dim_out() == 15, "dim_out {}", f.dim_out());
    let mut v = Values::new();
    insert(&mut v, &keys, &s1, &s2);
    let (a, b) = linear(&f, &v)?;
    let r = imu.residual(&d, &s1, &s2);
    let j2 = imu.jac2(&r, &s1, &s2);
    let Some((w, r_got, j1_got)) = unwhiten(&a, &b, &j2) else { return Err("the weighted Jacobian of the second state is singular".into()) };
    let ext = 1.0 + maxabs(s1.p.iter()).max(maxabs(s1.v.iter())) + maxabs(s2.p.iter()) + maxabs(d.v.iter()) + maxabs(d.p.iter());
    let wc = w.clone().svd(false, false).singular_values;
    let cond = wc.max() / wc.min();
    ensure!(cond.is_finite() && cond < 1e7, "weighting matrix has condition {cond:e}");
    let slack = 1e-7 + 1e-13 * cond;
    let e = vdiff(r_got.as_slice(), r.as_slice());
    ensure!(e <= slack * ext * 0.1, "residual {:?} instead of {:?}", r_got.as_slice(), r.as_slice());
    // weighting: Sigma = (W^T W)^-1
    let wi = w.clone().try_inverse().unwrap();
    let sig = &wi * wi.transpose();
    let sc = |m: &M| M::from_fn(15, 15, |i, j| m[(i, j)] / (d.sigma[(i, i)] * d.sigma[(j, j)]).sqrt());
    let e = diff(&sc(&sig), &sc(&d.sigma));
    ensure!(e <= 1e-5 + 1e-12 * cond * cond.min(1e4), "the covariance behind the weighting differs (by {e:e} of its diagonal): diagonal {:?} instead of {:?}", sig.diagonal().as_slice(), d.sigma.diagonal().as_slice());
    // Jacobians with respect to the first state's variables
    let j1 = imu.jac1(&d, &s1, &s2);
    let e = diff(&j1_got, &j1);
    ensure!(e <= (1e-6 + 1e-12 * cond) * ext * 10.0, "Jacobian of the first state differs by {e:e} at {:?}", (0..225).map(|k| (k % 15, k / 15, j1_got[k], j1[k])).max_by(|a, b| (a.2 - a.3).abs().partial_cmp(&(b.2 - b.3).abs()).unwrap()));
    Ok(!imu.meas.is_empty())
}

fn error(g: &mut Gen) -> Outcome {
    g.hash_order();
    let small = g.bool();
    let (imu, d, s1, s2) = setup(g, small);
    let keys = gen_keys(g, 6);
    // stop for a snapshot part-way: building from a copy must not disturb the integration
    let cut = g.range(0, imu.meas.len());
    let mut p = imu.integrator();
    imu.feed(&mut p, 0, cut);
    let half = p.clone().build_unchecked(raw(keys[0]), raw(keys[1]), raw(keys[2]), raw(keys[3]), raw(keys[4]), raw(keys[5]));
    imu.feed(&mut p, cut, imu.meas.len());
    let f = p.build(raw(keys[0]), raw(keys[1]), raw(keys[2]), raw(keys[3]), raw(keys[4]), raw(keys[5]));
    let mut v = Values::new();
    insert(&mut v, &keys, &s1, &s2);
    let mut short = imu.clone();
    short.meas.truncate(cut);
    for (what, f, i) in [("the full history", &f, &imu), ("the first part", &half, &short)] {
        let d = i.delta();
        let r = i.residual(&d, &s1, &s2);
        if (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt() > 3.1 {
            continue;
        }
        let ch = d.sigma.clone().cholesky().unwrap();
        let want = 0.5 * r.dot(&ch.solve(&r));
        let got = f.error(&v);
        let ext = 1.0 + maxabs(s1.p.iter()).max(maxabs(s1.v.iter())) + maxabs(s2.p.iter()) + maxabs(d.v.iter()) + maxabs(d.p.iter());
        let sd = d.sigma.clone().symmetric_eigen().eigenvalues.min().sqrt();
        let dr = 1e-8 * ext * (1.0 + r.norm() / ext);
        let tol = 1e-5 * want + (dr / sd) * (2.0 * want).sqrt() + (dr / sd).powi(2);
        note!(g, "{what}: {got} expected {want} tolerance {tol:e}");
        ensure!((got - want).abs() <= tol, "error after {what}: {got} instead of {want} (tolerance {tol:e})");
    }
    let _ = d;
    Ok(!imu.meas.is_empty())
}

fn main() {
    harness::engine::main(Property {
        id: "C20",
        rule: "at least one measurement was integrated",
        assumptions: &["the accumulated rotation stays below about 5 rad (the documented recursion divides by its exponential's Jacobian, singular at 2 pi)", "the initial covariance of 1e-14 per coordinate is part of the reference"],
        subs: vec![sub("recursion", 6000, recursion), sub("error", 20000, error)],
    });
}
