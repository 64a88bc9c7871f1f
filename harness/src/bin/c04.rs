//! C04: hat, vee, hat_swap, adjoint, right Jacobian.
use factrs::linalg::Vector3;
use factrs::variables::{Variable, SO3};
use harness::{engine::*, ensure, for_lie, geom::*, note, vars::*};

fn algebra_<T: Lie>(g: &mut Gen) -> Outcome {
    let a = T::gen_tangent(g, true);
    let b = T::gen_tangent(g, true);
    note!(g, "{} tangents {:?} {:?}", T::NAME, a, b);
    let h = T::hat_(&a);
    ensure!(diff(&h, &T::hat_ref(&a)) == 0.0, "{}: hat({:?}) = {}", T::NAME, a, h);
    let v = T::vee_(&h);
    ensure!(v.as_slice() == &a[..], "{}: vee(hat({:?})) = {:?}", T::NAME, a, v.as_slice());
    // vee on any algebra element, not only outputs of hat
    let hr = T::hat_ref(&b);
    ensure!(T::vee_(&hr).as_slice() == &b[..], "{}: vee of the hat matrix of {:?} = {:?}", T::NAME, b, T::vee_(&hr).as_slice());
    // linear; closed under the bracket, which is ad
    let s = g.sym(3.0);
    let sum: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + s * y).collect();
    let scale = (1.0 + maxabs(&a)) * (1.0 + maxabs(&b));
    ensure!(diff(&T::hat_(&sum), &(T::hat_(&a) + T::hat_(&b) * s)) < 1e-12 * scale * 4.0, "{}: hat is not linear", T::NAME);
    let br = T::hat_(&a) * T::hat_(&b) - T::hat_(&b) * T::hat_(&a);
    let ad = T::ad_ref(&a) * V::from_column_slice(&b);
    ensure!(vdiff(T::vee_(&br).as_slice(), ad.as_slice()) < 1e-11 * scale, "{}: bracket", T::NAME);
    // swap
    let p = gen_vec(g, T::VD);
    let mut ph = p.clone();
    if T::N > T::ROT {
        ph.push(1.0);
    }
    let l = T::hat_ref(&a) * V::from_column_slice(&ph);
    let sw = T::hat_swap_(&p);
    ensure!(sw.shape() == (T::VD, T::N), "{}: swap shape", T::NAME);
    let r = sw * V::from_column_slice(&a);
    ensure!(vdiff(&l.as_slice()[..T::VD], r.as_slice()) < 1e-12 * (1.0 + maxabs(&p)) * (1.0 + maxabs(&a)), "{}: hat(xi) p = {:?} but hat_swap(p) xi = {:?}", T::NAME, l.as_slice(), r.as_slice());
    Ok(maxabs(&a) > 0.0 && maxabs(&b) > 0.0)
}
fn algebra(g: &mut Gen) -> Outcome {
    for_lie!(g, algebra_)
}

fn adjoint_<T: Lie>(g: &mut Gen) -> Outcome {
    let (x, y) = (T::gen(g), T::gen(g));
    note!(g, "x = {}", x.show());
    note!(g, "y = {}", y.show());
    let tx = x.mag() * x.mag();
    let a = x.adj();
    ensure!(diff(&a, &x.adjoint_ref()) < 1e-11 * tx, "{}: adjoint of {} is {} but should be {}", T::NAME, x.show(), a, x.adjoint_ref());
    let xy = x.compose(&y).adj();
    ensure!(diff(&xy, &(&a * y.adj())) < 1e-10 * tx * y.mag() * y.mag(), "{}: Ad(xy) != Ad(x) Ad(y)", T::NAME);
    ensure!(diff(&(&a * x.inverse().adj()), &M::identity(T::N, T::N)) < 1e-10 * tx * tx, "{}: Ad(x) Ad(x^-1) != 1", T::NAME);
    // X exp(d) X^-1 = exp(Ad d)
    let d = T::tangent_o(g, 3.0, 3.0);
    let l = x.compose(&T::exp(vx(&d).as_view())).compose(&x.inverse());
    let ad = &a * V::from_column_slice(&d);
    let r = T::exp(vx(ad.as_slice()).as_view());
    ensure!(diff(&l.mat(), &r.mat()) < 1e-7 * tx, "{}: x exp(d) x^-1 != exp(Ad(x) d)", T::NAME);
    Ok(diff(&x.mat(), &M::identity(x.mat().nrows(), x.mat().nrows())) > 1e-12)
}
fn adjoint(g: &mut Gen) -> Outcome {
    for_lie!(g, adjoint_)
}

fn right_jacobian(g: &mut Gen) -> Outcome {
    let w = gen_rotvec(g, true);
    note!(g, "rotation vector {:?}", w);
    let j = SO3::dexp(Vector3::new(w[0], w[1], w[2]).as_view());
    let j = M::from_iterator(3, 3, j.iter().cloned());
    let truth = phi1(&(-hat3(&w)));
    ensure!(diff(&j, &truth) < 3e-7, "right Jacobian at {:?} is {} but should be {}", w, j, truth);
    // exp(w + e) = exp(w) exp(J e) to first order
    let e: Vec<f64> = (0..3).map(|_| g.sym(1e-4)).collect();
    let we: Vec<f64> = w.iter().zip(&e).map(|(a, b)| a + b).collect();
    let je = &j * V::from_column_slice(&e);
    let l = rot3(&we);
    let r = rot3(&w) * rot3(je.as_slice());
    ensure!(maxabs((l - r).iter()) < 1e-7, "exp(w + e) != exp(w) exp(J e) at {:?}, e = {:?}", w, e);
    // J(-w) is the transpose; J(w) w = w
    let jm = SO3::dexp(Vector3::new(-w[0], -w[1], -w[2]).as_view());
    ensure!(diff(&M::from_iterator(3, 3, jm.iter().cloned()), &j.transpose()) < 1e-9, "J(-w) != J(w)^T");
    let jw = &j * V::from_column_slice(&w);
    ensure!(vdiff(jw.as_slice(), &w) < 1e-9 * (1.0 + maxabs(&w)), "J(w) w != w at {:?}", w);
    Ok(maxabs(&w) > 0.0)
}

fn main() {
    harness::engine::main(Property {
        id: "C04",
        rule: "tangents, elements and points of the four matrix Lie groups from the generators of C01/C02. Oracles: reference hat matrices, adjoint built column by column from X hat(e_i) X^-1, right Jacobian from the matrix exponential of a block matrix, and the defining identities. Non-trivial: element/tangent is not identity/zero.",
        assumptions: &["unit quaternions", "the right Jacobian's small-angle series is accepted to 3e-7 absolute (its truncation at the code's switch is about 4e-8)"],
        subs: vec![sub("algebra", 400_000, algebra), sub("adjoint", 200_000, adjoint), sub("right_jacobian", 300_000, right_jacobian)],
    });
}
