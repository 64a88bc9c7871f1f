//! C03: retract / local difference.
use factrs::variables::{Variable, VariableSafe};
use harness::{engine::*, ensure, for_var, geom::*, note, vars::*};
use std::f64::consts::PI;

fn wrapdiff<T: Var>(a: &[f64], b: &[f64]) -> f64 {
    vdiff(a, b)
}

fn laws_<T: Var>(g: &mut Gen) -> Outcome {
    let (x, y) = (T::gen(g), T::gen(g));
    note!(g, "x = {}", x.show());
    note!(g, "y = {}", y.show());
    let scale = x.mag() * y.mag();
    // x + (y - x) = y
    let d = y.ominus(&x);
    let z = x.oplus(d.as_view());
    ensure!(diff(&z.mat(), &y.mat()) < 2e-8 * scale, "{}: x + (y - x) = {} but y = {}", T::NAME, z.show(), y.show());
    // explicit variants
    let dr = y.ominus_right(&x);
    let dl = y.ominus_left(&x);
    ensure!(diff(&x.oplus_right(dr.as_view()).mat(), &y.mat()) < 2e-8 * scale, "{}: right variants are not inverse", T::NAME);
    ensure!(diff(&x.oplus_left(dl.as_view()).mat(), &y.mat()) < 2e-8 * scale, "{}: left variants are not inverse", T::NAME);
    // defining formulas
    let mi = x.mat().try_inverse().unwrap();
    let rel_r = T::from_mat_ref(&(&mi * y.mat()));
    let rel_l = T::from_mat_ref(&(y.mat() * &mi));
    for (name, d, rel) in [("default", &d, &rel_r), ("right", &dr, &rel_r), ("left", &dl, &rel_l)] {
        let l = rel.log_ref();
        let th = l.as_slice()[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt();
        let tol = 3e-8 * scale * (1.0 + 1e-5 / (PI - th).abs().max(1e-12));
        if th < PI - 1e-4 {
            ensure!(wrapdiff::<T>(d.as_slice(), l.as_slice()) < tol, "{}: {} difference is {:?}, log of the relative element {:?}", T::NAME, name, d.as_slice(), l.as_slice());
        }
        ensure!(diff(&expm(&T::hat_ref(d.as_slice())), &rel.mat()) < 3e-8 * scale, "{}: exp of the {} difference is not the relative element", T::NAME, name);
    }
    let m = y.minus(&x);
    ensure!(diff(&m.mat(), &(&mi * y.mat())) < 1e-11 * scale, "{}: minus is not x^-1 y", T::NAME);
    ensure!(diff(&x.compose(&m).mat(), &y.mat()) < 1e-11 * scale, "{}: x * (y minus x) != y", T::NAME);
    let z = x.ominus(&x);
    ensure!(maxabs(z.iter()) < 1e-9 * x.mag() * x.mag(), "{}: x - x = {:?}", T::NAME, z.as_slice());
    Ok(diff(&x.mat(), &y.mat()) > 1e-12)
}
fn laws(g: &mut Gen) -> Outcome {
    for_var!(g, laws_)
}

fn retract_<T: Var>(g: &mut Gen) -> Outcome {
    let x = T::gen(g);
    let d = T::gen_tangent(g, false);
    let th = d[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt();
    note!(g, "x = {}, d = {:?}", x.show(), d);
    let dv = vx(&d);
    let scale = x.mag() * (1.0 + maxabs(&d));
    let truth = x.mat() * expm(&T::hat_ref(&d));
    let y = x.oplus(dv.as_view());
    ensure!(diff(&y.mat(), &truth) < 2e-8 * scale, "{}: x + d = {} but X expm(d) = {}", T::NAME, y.show(), truth);
    ensure!(diff(&x.oplus_right(dv.as_view()).mat(), &truth) < 2e-8 * scale, "{}: right retraction", T::NAME);
    ensure!(diff(&x.oplus_left(dv.as_view()).mat(), &(expm(&T::hat_ref(&d)) * x.mat())) < 2e-8 * scale, "{}: left retraction", T::NAME);
    if th < PI - 1e-4 {
        let tol = 3e-8 * scale * (1.0 + 1e-5 / (PI - th)) * x.mag();
        let b = y.ominus(&x);
        ensure!(wrapdiff::<T>(b.as_slice(), &d) < tol, "{}: (x + d) - x = {:?} but d = {:?}", T::NAME, b.as_slice(), d);
        let b = x.oplus_left(dv.as_view()).ominus_left(&x);
        ensure!(wrapdiff::<T>(b.as_slice(), &d) < tol * scale, "{}: left (x + d) - x = {:?} but d = {:?}", T::NAME, b.as_slice(), d);
    }
    // in-place form through the type-erased interface
    let mut bx: Box<dyn VariableSafe> = Box::new(x.clone());
    ensure!(bx.dim() == T::N, "{}: type-erased dimension {}", T::NAME, bx.dim());
    let copy = bx.clone();
    bx.oplus_mut(dv.as_view());
    let got = bx.downcast_ref::<T>().expect("type kept");
    ensure!(diff(&got.mat(), &truth) < 2e-8 * scale, "{}: in-place update gives {}", T::NAME, got.show());
    ensure!(diff(&copy.downcast_ref::<T>().unwrap().mat(), &x.mat()) == 0.0, "{}: updating changed the clone", T::NAME);
    // zero moves nothing
    let zero = vx(&vec![0.0; T::N]);
    ensure!(diff(&x.oplus(zero.as_view()).mat(), &x.mat()) < 1e-14 * x.mag(), "{}: x + 0 != x", T::NAME);
    // successive retractions compose
    let e = T::gen_tangent(g, false);
    let z = y.oplus(vx(&e).as_view());
    ensure!(diff(&z.mat(), &(truth * expm(&T::hat_ref(&e)))) < 4e-8 * scale * (1.0 + maxabs(&e)), "{}: (x + d) + e", T::NAME);
    Ok(maxabs(&d) > 0.0)
}
fn retract(g: &mut Gen) -> Outcome {
    for_var!(g, retract_)
}

/// small increments on ordinary elements come back with their own relative accuracy
fn relative_<T: Var>(g: &mut Gen) -> Outcome {
    let sz = g.logu(0.1, 100.0);
    let x = T::gen_o(g, 3.0, sz);
    let big = g.logu(1e-11, 1e-1);
    let mut d = T::tangent_o(g, 1.0, 1.0);
    if g.chance(1, 4) {
        // along one coordinate
        let k = g.below(T::N as u64) as usize;
        d.iter_mut().enumerate().for_each(|(i, v)| if i != k { *v = 0.0 });
    }
    d.iter_mut().for_each(|v| *v *= big);
    let n = d.iter().map(|v| v * v).sum::<f64>().sqrt();
    note!(g, "x = {}, d = {:?}", x.show(), d);
    let dv = vx(&d);
    let tol = 1e-5 * n + 1e-14 * x.mag() * x.mag();
    let y = x.oplus(dv.as_view());
    for (name, b) in [
        ("", y.ominus(&x)),
        ("right ", x.oplus_right(dv.as_view()).ominus_right(&x)),
        ("left ", x.oplus_left(dv.as_view()).ominus_left(&x)),
    ] {
        let e = vdiff(b.as_slice(), &d);
        ensure!(e <= tol, "{}: {name}(x + d) - x = {:?} but d = {:?} (off by {e:e})", T::NAME, b.as_slice(), d);
    }
    let b = x.ominus(&y);
    let neg: Vec<f64> = d.iter().map(|v| -v).collect();
    ensure!(vdiff(b.as_slice(), &neg) <= tol, "{}: x - (x + d) = {:?} but d = {:?}", T::NAME, b.as_slice(), d);
    Ok(n > 100.0 * 1e-14 * x.mag() * x.mag())
}
fn relative(g: &mut Gen) -> Outcome {
    for_var!(g, relative_)
}

fn main() {
    harness::engine::main(Property {
        id: "C03",
        rule: "pairs of elements and tangents of every variable type from the generators of C01/C02; oracle: matrix exponential/logarithm of the harness applied to the defining formulas, plus round trips. Small increments (1e-11..1e-1) on ordinary elements are compared relative to their own size. Non-trivial: the two elements differ, resp. the tangent is not zero (relative: is above the rounding of the element).",
        assumptions: &["unit quaternions", "agreement to 2e-8 relative to the magnitudes; round trips of rotations up to pi - 1e-4"],
        subs: vec![sub("laws", 400_000, laws), sub("retract", 400_000, retract), sub("relative", 200_000, relative)],
    });
}
