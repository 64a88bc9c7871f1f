//! C07: prior and between residuals.
use factrs::{
    containers::{Key, Values},
    linalg::DiffResult,
    residuals::Residual,
    variables::{ImuBias, Variable, VariableUmbrella, VectorVar, SE2, SO2, SO3},
};
use harness::{engine::*, ensure, for_builtin, geom::*, graphs::*, note, res::*, vars::*};
use std::f64::consts::PI;

fn rot<T: Var>(r: &[f64]) -> f64 {
    r[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// values with the given entries and unrelated ones around
fn store<T: Builtin + VariableUmbrella>(g: &mut Gen, keys: &[Key], xs: &[T]) -> Values {
    g.hash_order();
    let mut v = Values::new();
    let n = xs.len();
    if g.bool() {
        v.insert_unchecked(raw(keys[n]), T::gen(g));
    }
    let mut idx: Vec<usize> = (0..n).collect();
    g.shuffle(&mut idx);
    for i in idx {
        v.insert_unchecked(raw(keys[i]), xs[i].clone());
    }
    if g.bool() {
        v.insert_unchecked(raw(keys[n + 1]), VectorVar::<3>::new(1.0, 2.0, 3.0));
    }
    if g.bool() {
        v.insert_unchecked(raw(keys[n + 2]), T::gen(g));
    }
    v
}
/// residual (and its Jacobian) against log(rel), scale = size of what was multiplied
fn compare<T: Builtin>(what: &str, res: &dyn Residual, values: &Values, keys: &[Key], rel: &M, jac: Option<M>, scale: f64) -> Outcome {
    let r = res.residual(values, keys);
    ensure!(res.dim_out() == T::N && r.len() == T::N, "{} {}: residual has dimension {} / {}", T::NAME, what, res.dim_out(), r.len());
    ensure!(res.dim_in() == T::N * keys.len(), "{} {}: input dimension {}", T::NAME, what, res.dim_in());
    ensure!(rot::<T>(r.as_slice()) <= PI + 1e-9, "{} {}: rotation part {} beyond pi", T::NAME, what, rot::<T>(r.as_slice()));
    let e = expm(&T::hat_ref(r.as_slice()));
    ensure!(diff(&e, rel) < 3e-8 * scale, "{} {}: residual {:?} is not the difference element {} (its exponential is {})", T::NAME, what, r.as_slice(), rel, e);
    let l = T::from_mat_ref(rel).log_ref();
    let th = rot::<T>(l.as_slice());
    if th < PI - 1e-4 {
        ensure!(vdiff(r.as_slice(), l.as_slice()) < 3e-8 * scale * (1.0 + 1e-5 / (PI - th)), "{} {}: residual {:?}, expected {:?}", T::NAME, what, r.as_slice(), l.as_slice());
    }
    let DiffResult { value, diff: j } = res.residual_jacobian(values, keys);
    ensure!(vdiff(value.as_slice(), r.as_slice()) <= 1e-12 * scale, "{} {}: value {:?} with the Jacobian, {:?} without", T::NAME, what, value.as_slice(), r.as_slice());
    ensure!(j.shape() == (T::N, T::N * keys.len()), "{} {}: Jacobian shape {:?}", T::NAME, what, j.shape());
    if let Some(want) = jac {
        // coordinates far from the rotation centre amplify truncated small-angle series
        ensure!(diff(&j, &want) < 1e-5 * scale * scale, "{} {}: Jacobian {} but the derivative is {}", T::NAME, what, j, want);
        if th > 0.05 || T::ROT == 0 {
            ensure!(diff(&j, &want) < 1e-9 * scale * scale, "{} {}: Jacobian {} but the derivative is {}", T::NAME, what, j, want);
        }
    }
    Ok(th > 1e-12 || maxabs(l.iter()) > 1e-12)
}

fn clamp<T: Var>(x: T) -> T {
    // keep Jacobian checks meaningful: translations below 1e3
    let mut m = x.mat();
    let n = m.nrows();
    if T::ROT > 0 || T::N > 0 {
        for i in 0..n - 1 {
            if m[(i, n - 1)].abs() > 1e3 {
                m[(i, n - 1)] = 1e3 * m[(i, n - 1)].signum();
            }
        }
    }
    T::from_mat_ref(&m)
}

fn elem<T: Var>(g: &mut Gen) -> T {
    let x = clamp(T::gen(g));
    T::flip(g, x)
}

fn prior_<T: Builtin + VariableUmbrella>(g: &mut Gen) -> Outcome {
    let mut v = clamp(T::gen(g));
    let rel = T::gen(g);
    // choose z relative to v so that every kind of difference occurs, or independently
    let z = if g.chance(1, 4) { clamp(T::gen(g)) } else { T::flip(g, T::from_mat_ref(&(v.mat() * clamp(rel).mat()))) };
    if g.bool() {
        v = T::flip(g, v);
    }
    note!(g, "{} prior z = {}, v = {}", T::NAME, z.show(), v.show());
    let keys = gen_keys(g, 4);
    let values = store::<T>(g, &keys, &[v.clone()]);
    let rel = v.mat().try_inverse().unwrap() * z.mat();
    let r = T::prior_ref(&z, &v);
    let jac = if rot::<T>(r.as_slice()) < 3.0 { Some(T::prior_jac(&r)) } else { None };
    compare::<T>("prior", T::prior(z.clone()).as_ref(), &values, &keys[..1], &rel, jac, v.mag() * z.mag())
}
fn prior(g: &mut Gen) -> Outcome {
    for_builtin!(g, prior_)
}

fn between_<T: Builtin + VariableUmbrella>(g: &mut Gen) -> Outcome {
    let a = elem::<T>(g);
    let z = elem::<T>(g);
    let e = clamp(T::gen(g));
    let b = if g.chance(1, 4) { clamp(T::gen(g)) } else { T::flip(g, T::from_mat_ref(&(a.mat() * z.mat() * e.mat()))) };
    let mut keys = gen_keys(g, 5);
    // a factor from a variable to itself
    let own = g.chance(1, 16);
    let b = if own { a.clone() } else { b };
    note!(g, "{} between z = {}, a = {}, b = {}{}", T::NAME, z.show(), a.show(), b.show(), if own { " (the same variable)" } else { "" });
    if own {
        g.class("same key twice");
        keys[1] = keys[0];
    }
    let values = store::<T>(g, &keys, &[a.clone(), b.clone()]);
    let rel = b.mat().try_inverse().unwrap() * a.mat() * z.mat();
    let r = T::between_ref(&z, &a, &b);
    let jac = if rot::<T>(r.as_slice()) < 3.0 {
        let (j1, j2) = T::between_jac(&z, &r);
        let mut j = M::zeros(T::N, 2 * T::N);
        j.view_mut((0, 0), (T::N, T::N)).copy_from(&j1);
        j.view_mut((0, T::N), (T::N, T::N)).copy_from(&j2);
        Some(j)
    } else {
        None
    };
    compare::<T>("between", T::between(z.clone()).as_ref(), &values, &keys[..2], &rel, jac, a.mag() * z.mag() * b.mag())
}
fn between(g: &mut Gen) -> Outcome {
    for_builtin!(g, between_)
}

/// both vanish exactly when the measurement is satisfied
fn zero_<T: Builtin + VariableUmbrella>(g: &mut Gen) -> Outcome {
    let a = elem::<T>(g);
    let z = elem::<T>(g);
    let b = a.compose(&z);
    let keys = gen_keys(g, 5);
    note!(g, "{} a = {}, z = {}", T::NAME, a.show(), z.show());
    let values = store::<T>(g, &keys, &[a.clone(), b.clone()]);
    let scale = a.mag() * z.mag();
    let r = T::between(z.clone()).residual(&values, &keys[..2]);
    ensure!(maxabs(r.iter()) < 1e-9 * scale * scale, "{}: between residual {:?} at a satisfied measurement", T::NAME, r.as_slice());
    let r = T::prior(T::flip(g, a.clone())).residual(&values, &keys[..1]);
    ensure!(maxabs(r.iter()) < 1e-9 * scale * scale, "{}: prior residual {:?} at its own measurement", T::NAME, r.as_slice());
    // and not when it is violated by a visible amount
    let mut d = vec![0.0; T::N];
    let i = g.below(T::N as u64) as usize;
    let h = g.logu(1e-4, 1.0) * g.sign();
    d[i] = h;
    let mut v2 = values.clone();
    v2.insert_unchecked(raw(keys[1]), b.retract_ref(&d));
    let r = T::between(z).residual(&v2, &keys[..2]);
    ensure!((maxabs(r.iter()) - h.abs()).abs() < 1e-7 * scale * scale, "{}: residual {:?} after moving coordinate {i} by {h}", T::NAME, r.as_slice());
    Ok(true)
}
fn zero(g: &mut Gen) -> Outcome {
    for_builtin!(g, zero_)
}

/// a variable that is absent, or stored under another type, is never made up
fn absent_<T: Builtin + VariableUmbrella>(g: &mut Gen) -> Outcome {
    let keys = gen_keys(g, 5);
    let n = g.range(1, 2);
    let xs: Vec<T> = (0..n).map(|_| elem::<T>(g)).collect();
    let z = elem::<T>(g);
    let mut values = store::<T>(g, &keys, &xs);
    let k = g.below(n as u64) as usize;
    values.remove::<_, T>(raw(keys[k])).ok_or("removal")?;
    let other = g.bool();
    if other {
        // another type of the same dimension where there is one
        match (T::NAME, T::N) {
            ("V1", _) => values.insert_unchecked(raw(keys[k]), SO2::from_theta(0.3)),
            (_, 1) => values.insert_unchecked(raw(keys[k]), VectorVar::<1>::new(0.3)),
            ("V3", _) => values.insert_unchecked(raw(keys[k]), SE2::new(0.3, 1.0, 2.0)),
            (_, 3) => values.insert_unchecked(raw(keys[k]), VectorVar::<3>::new(0.3, 1.0, 2.0)),
            ("ImuBias", _) => values.insert_unchecked(raw(keys[k]), VectorVar::<6>::new(0.3, 1.0, 2.0, 3.0, 4.0, 5.0)),
            (_, 6) => values.insert_unchecked(raw(keys[k]), ImuBias::identity()),
            _ => values.insert_unchecked(raw(keys[k]), SO3::identity()),
        };
    }
    let (res, f) = if n == 1 { (T::prior(z.clone()), T::prior_factor(z, keys[0], &Noise::Default, &Rob::Default)) } else { (T::between(z.clone()), T::between_factor(z, keys[0], keys[1], &Noise::Default, &Rob::Default)) };
    let ks = &keys[..n];
    ensure!(no_panic(|| res.residual(&values, ks)).is_err(), "{}: residual evaluated though variable {k} is {}", T::NAME, if other { "of another type" } else { "absent" });
    ensure!(no_panic(|| res.residual_jacobian(&values, ks)).is_err(), "{}: Jacobian evaluated though variable {k} is {}", T::NAME, if other { "of another type" } else { "absent" });
    ensure!(no_panic(|| f.error(&values)).is_err(), "{}: error evaluated though variable {k} is {}", T::NAME, if other { "of another type" } else { "absent" });
    ensure!(no_panic(|| f.linearize(&values)).is_err(), "{}: factor linearised though variable {k} is {}", T::NAME, if other { "of another type" } else { "absent" });
    Ok(true)
}
fn absent(g: &mut Gen) -> Outcome {
    for_builtin!(g, absent_)
}

fn main() {
    harness::engine::main(Property {
        id: "C07",
        rule: "11 variable types; variables, measurements and relative elements over all angle classes (0, tiny, at formula switches, near pi), both quaternion signs, translations up to 1e3; random keys, hash orders and unrelated entries in the store. Oracle: matrix products and logarithm of the harness, closed-form Jacobians -Jl^-1(r), Jr^-1(r) Ad(z^-1) by matrix functions of ad. absent: a variable missing or of another type (same dimension where one exists) must not yield numbers. Non-trivial: the residual is not zero (zero, absent: always).",
        assumptions: &["Jacobians compared for differences of rotation angle below 3", "relative tolerance 1e-9 of the Jacobian at angles above 0.05, 1e-5 below (truncated small-angle series), relative to the square of the elements' size"],
        subs: vec![sub("prior", 120_000, prior), sub("between", 120_000, between), sub("zero", 60_000, zero), sub("absent", 4_000, absent)],
    });
}
