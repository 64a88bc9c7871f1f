//! C02: exp is the matrix exponential, log its principal inverse.
use factrs::variables::{Variable, SO2, SO3};
use harness::{engine::*, ensure, for_var, geom::*, note, vars::*};
use std::f64::consts::PI;

fn rot_norm<T: Var>(xi: &[f64]) -> f64 {
    xi[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt()
}

fn exp_<T: Var>(g: &mut Gen) -> Outcome {
    let xi = T::gen_tangent(g, true);
    note!(g, "{} tangent {:?}", T::NAME, xi);
    let x = T::exp(vx(&xi).as_view());
    let truth = expm(&T::hat_ref(&xi));
    let scale = 1.0 + maxabs(&xi[T::ROT..]);
    ensure!(diff(&x.mat(), &truth) < 1e-8 * scale, "{}: exp({:?}) = {} but expm(hat) = {}", T::NAME, xi, x.show(), truth);
    // exp(-xi) is the inverse
    let neg: Vec<f64> = xi.iter().map(|v| -v).collect();
    let y = T::exp(vx(&neg).as_view());
    ensure!(diff(&y.mat(), &x.inverse().mat()) < 2e-8 * scale, "{}: exp(-xi) is not exp(xi)^-1", T::NAME);
    if T::ROT == 0 {
        ensure!(diff(&x.mat(), &T::make_mat(&[], &xi)) == 0.0, "{}: exp does not keep coordinates", T::NAME);
    }
    Ok(maxabs(&xi) > 0.0)
}
/// relative accuracy: small tangents are neither dropped nor distorted, and away from small angles and pi the maps are exact
fn relative_<T: Var>(g: &mut Gen) -> Outcome {
    let mut xi = T::gen_tangent(g, false);
    let th0 = rot_norm::<T>(&xi);
    let tiny = g.bool();
    if T::ROT > 0 {
        let target = if tiny {
            g.logu(1e-14, 1e-2)
        } else {
            match g.below(4) {
                0 => PI / 2.0 + g.sign() * g.logu(1e-13, 1e-2),
                1 => PI - g.logu(1e-10, 0.2),
                _ => g.uniform(0.05, 3.0),
            }
        };
        if th0 > 0.0 {
            xi[..T::ROT].iter_mut().for_each(|x| *x *= target / th0);
        }
        if g.chance(1, 8) {
            xi[..T::ROT].iter_mut().for_each(|x| *x = 0.0);
        }
    }
    let size = g.logu(1e-14, 1e3);
    xi[T::ROT..].iter_mut().for_each(|x| *x = g.sym(1.0) * size);
    let th = rot_norm::<T>(&xi);
    let trn = xi[T::ROT..].iter().map(|x| x * x).sum::<f64>().sqrt();
    note!(g, "{} tangent {:?}", T::NAME, xi);
    let x = T::exp(vx(&xi).as_view());
    let back = x.log();
    let rel = if th > 0.04 { 1e-11 } else { 3e-6 };
    let (er, et) = (vdiff(&back.as_slice()[..T::ROT], &xi[..T::ROT]), vdiff(&back.as_slice()[T::ROT..], &xi[T::ROT..]));
    ensure!(er <= rel * th + 1e-18, "{}: log(exp({:?})) = {:?}: rotation off by {er:e}", T::NAME, xi, back.as_slice());
    ensure!(et <= rel * trn, "{}: log(exp({:?})) = {:?}: translation off by {et:e}", T::NAME, xi, back.as_slice());
    if T::ROT > 0 {
        // the translation column is linear in the translation: take the reference at unit size
        let unit: Vec<f64> = xi.iter().enumerate().map(|(i, v)| if i < T::ROT || trn == 0.0 { *v } else { v / trn }).collect();
        let mut truth = expm(&T::hat_ref(&unit));
        let n = truth.nrows();
        let r = if n == 2 || n == 3 && T::ROT == 3 { n } else { n - 1 };
        if r < n && trn > 0.0 {
            truth.view_mut((0, r), (r, 1)).scale_mut(trn);
        }
        let d = x.mat() - &truth;
        let rot = maxabs(d.view((0, 0), (r, r)).into_owned().iter());
        ensure!(rot <= rel * th + 1e-14, "{}: exp({:?}) = {} but expm(hat) = {}", T::NAME, xi, x.show(), truth);
        if r < n {
            let tr = maxabs(d.view((0, r), (r, 1)).into_owned().iter());
            ensure!(tr <= (rel + 1e-13) * trn, "{}: exp({:?}) has translation off by {tr:e}", T::NAME, xi);
        }
    }
    g.class(if T::ROT == 0 { "no rotation" } else if tiny { "tiny angle" } else { "ordinary angle" });
    Ok(maxabs(&xi) > 0.0)
}
fn relative(g: &mut Gen) -> Outcome {
    for_var!(g, relative_)
}
fn exp(g: &mut Gen) -> Outcome {
    for_var!(g, exp_)
}

fn log_exp_<T: Var>(g: &mut Gen) -> Outcome {
    let xi = T::gen_tangent(g, false);
    let th = rot_norm::<T>(&xi);
    if th > PI - 1e-6 {
        return Ok(false);
    }
    note!(g, "{} tangent {:?}", T::NAME, xi);
    let x = T::exp(vx(&xi).as_view());
    let back = x.log();
    // conditioning: near pi the logarithm amplifies the rounding of the element
    let scale = 1.0 + maxabs(&xi[T::ROT..]);
    let tol = 1e-8 * scale * (1.0 + 1e-6 / (PI - th));
    ensure!(vdiff(back.as_slice(), &xi) < tol, "{}: log(exp({:?})) = {:?}", T::NAME, xi, back.as_slice());
    Ok(maxabs(&xi) > 0.0)
}
fn log_exp(g: &mut Gen) -> Outcome {
    for_var!(g, log_exp_)
}

fn exp_log_<T: Var>(g: &mut Gen) -> Outcome {
    let mut x = T::gen(g);
    // also elements that are results of other operations
    match g.below(4) {
        0 => {}
        1 => x = x.compose(&T::gen(g)),
        2 => x = x.inverse(),
        _ => x = T::gen(g).minus(&x),
    }
    note!(g, "element {}", x.show());
    let l = x.log();
    ensure!(l.len() == T::N, "{}: log has {} coordinates", T::NAME, l.len());
    let y = T::exp(l.as_view());
    ensure!(diff(&y.mat(), &x.mat()) < 1e-8 * x.mag(), "{}: exp(log x) = {} for x = {}", T::NAME, y.show(), x.show());
    ensure!(rot_norm::<T>(l.as_slice()) <= PI + 1e-9, "{}: |log| = {} beyond pi", T::NAME, rot_norm::<T>(l.as_slice()));
    // the reference logarithm agrees away from the cut
    let lr = x.log_ref();
    let th = rot_norm::<T>(lr.as_slice());
    if th < PI - 1e-4 {
        ensure!(vdiff(l.as_slice(), lr.as_slice()) < 2e-8 * x.mag(), "{}: log {} = {:?}, reference {:?}", T::NAME, x.show(), l.as_slice(), lr.as_slice());
    }
    Ok(diff(&x.mat(), &M::identity(x.mat().nrows(), x.mat().nrows())) > 1e-12)
}
fn exp_log(g: &mut Gen) -> Outcome {
    for_var!(g, exp_log_)
}

/// many turns: closed forms
fn turns_<T: Var>(g: &mut Gen) -> Outcome {
    let th = g.logu(6.0, 1e6);
    let th = if g.chance(1, 3) { (th / (2.0 * PI)).round() * 2.0 * PI + g.sym(1e-2) } else { th };
    let mut xi = T::gen_tangent(g, true);
    if T::ROT == 0 {
        return Ok(false);
    }
    let n0 = rot_norm::<T>(&xi);
    if n0 < 1e-9 {
        return Ok(false);
    }
    xi[..T::ROT].iter_mut().for_each(|v| *v *= th / n0);
    let th = rot_norm::<T>(&xi);
    note!(g, "{} tangent {:?}, {} rad", T::NAME, xi, th);
    let x = T::exp(vx(&xi).as_view()).mat();
    let scale = 1.0 + maxabs(&xi[T::ROT..]);
    let tol = (1e-11 + 1e-14 * th) * scale;
    let (s, c) = th.sin_cos();
    // rotation about the unit axis k: I + sin K + (1 - cos) K^2; its integral: I + (1 - cos)/th K + (th - sin)/th K^2
    let (k, d): (M, usize) = match T::ROT {
        1 => (M::from_row_slice(2, 2, &[0.0, -1.0, 1.0, 0.0]) * xi[0].signum(), 2),
        _ => (hat3(&xi[..3].iter().map(|v| v / th).collect::<Vec<_>>()), 3),
    };
    let k2 = &k * &k;
    let rot = M::identity(d, d) + &k * s + &k2 * (1.0 - c);
    ensure!(diff(&x.view((0, 0), (d, d)).into_owned(), &rot) <= tol, "{}: exp({:?}) has rotation {} instead of {}", T::NAME, xi, x, rot);
    if T::N > T::ROT {
        let v = M::identity(d, d) + &k * ((1.0 - c) / th) + &k2 * ((th - s) / th);
        let t = v * V::from_row_slice(&xi[T::ROT..]);
        let got = V::from_iterator(d, (0..d).map(|i| x[(i, d)]));
        ensure!(vdiff(got.as_slice(), t.as_slice()) <= tol, "{}: exp({:?}) has translation {:?} instead of {:?}", T::NAME, xi, got.as_slice(), t.as_slice());
    }
    let big = T::exp(vx(&xi).as_view());
    ensure!(diff(&T::exp(big.log().as_view()).mat(), &x) <= 1e-8 * scale, "{}: exp(log x) != x after {th} rad", T::NAME);
    Ok(true)
}
fn turns(g: &mut Gen) -> Outcome {
    for_var!(g, turns_)
}

/// rotations only: same rotation given by q and -q has the same logarithm; angles add along one axis
fn rotations(g: &mut Gen) -> Outcome {
    let w = gen_rotvec(g, true);
    let q = quat(&w);
    note!(g, "quaternion {:?}", q);
    let a = SO3::from_xyzw(q[0], q[1], q[2], q[3]);
    let b = SO3::from_xyzw(-q[0], -q[1], -q[2], -q[3]);
    let (la, lb) = (a.log(), b.log());
    let th = (la[0] * la[0] + la[1] * la[1] + la[2] * la[2]).sqrt();
    if th < PI - 1e-6 {
        ensure!(vdiff(la.as_slice(), lb.as_slice()) < 1e-12, "SO3: log of q is {:?} but of -q (the same rotation) {:?}", la.as_slice(), lb.as_slice());
    }
    let s = g.uniform(-3.0, 3.0);
    let t = g.uniform(-3.0, 3.0);
    let ws: Vec<f64> = w.iter().map(|x| x * s).collect();
    let wt: Vec<f64> = w.iter().map(|x| x * t).collect();
    let wst: Vec<f64> = w.iter().map(|x| x * (s + t)).collect();
    let l = SO3::exp(vx(&ws).as_view()).compose(&SO3::exp(vx(&wt).as_view()));
    let r = SO3::exp(vx(&wst).as_view());
    ensure!(diff(&l.mat(), &r.mat()) < 1e-8, "SO3: exp(s w) exp(t w) != exp((s+t) w) for w = {:?}, s = {s}, t = {t}", w);
    let l = SO2::exp(vx(&ws[..1]).as_view()).compose(&SO2::exp(vx(&wt[..1]).as_view()));
    ensure!(diff(&l.mat(), &SO2::exp(vx(&wst[..1]).as_view()).mat()) < 1e-10, "SO2: one-parameter group");
    Ok(maxabs(&w) > 0.0)
}

fn main() {
    harness::engine::main(Property {
        id: "C02",
        rule: "tangents with angle 0, 1e-12..1e-2, within 20% of plausible formula switches, up to pi, beyond pi and 2 pi, and (turns, against closed forms) up to 1e6 rad, random and coordinate axes, translations 0..1e6; elements built by constructors with either quaternion sign and by group operations. Oracle: scaling-and-squaring matrix exponential of the hat matrix and quaternion logarithm of the harness. Non-trivial: tangent/element is not zero/identity.",
        assumptions: &["unit quaternions", "agreement to 1e-8 relative to the translation size (the repository's documented-in-code small-angle series are accurate to about 1.3e-9)", "log(exp(d)) = d is checked up to pi - 1e-6, with the tolerance scaled by the conditioning there"],
        subs: vec![
            sub("exp", 500_000, exp),
            sub("log_exp", 500_000, log_exp),
            sub("exp_log", 500_000, exp_log),
            sub("relative", 300_000, relative),
            sub("turns", 100_000, turns),
            sub("rotations", 300_000, rotations),
        ],
    });
}
