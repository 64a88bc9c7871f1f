//! C01: variables are groups and agree with their matrix representation.
use factrs::variables::{ImuBias, Variable, SE2, SE3, SO2, SO3};
use harness::{engine::*, ensure, for_lie, for_var, geom::*, note, vars::*};

fn laws<T: Var>(g: &mut Gen) -> Outcome {
    let (a, b, c) = (T::gen(g), T::gen(g), T::gen(g));
    note!(g, "a = {}", a.show());
    note!(g, "b = {}", b.show());
    note!(g, "c = {}", c.show());
    let tol = 1e-12 * a.mag() * b.mag() * c.mag();
    let e = T::identity();
    let (ma, mb, mc) = (a.mat(), b.mat(), c.mat());
    let id = M::identity(ma.nrows(), ma.ncols());
    ensure!(diff(&e.mat(), &id) == 0.0, "{}: identity is not the identity: {}", T::NAME, e.show());
    ensure!(diff(&a.compose(&b).mat(), &(&ma * &mb)) < tol, "{}: matrix of a*b is not the product: {} vs {}", T::NAME, a.compose(&b).show(), &ma * &mb);
    let l = a.compose(&b).compose(&c);
    let r = a.compose(&b.compose(&c));
    ensure!(diff(&l.mat(), &r.mat()) < tol, "{}: (ab)c = {} but a(bc) = {}", T::NAME, l.show(), r.show());
    ensure!(diff(&l.mat(), &(&ma * &mb * &mc)) < tol, "{}: abc is not the matrix product", T::NAME);
    ensure!(diff(&a.compose(&e).mat(), &ma) < 1e-14 * a.mag(), "{}: a*1 != a", T::NAME);
    ensure!(diff(&e.compose(&a).mat(), &ma) < 1e-14 * a.mag(), "{}: 1*a != a", T::NAME);
    let i = a.inverse();
    let tol2 = 1e-12 * a.mag() * a.mag();
    ensure!(diff(&a.compose(&i).mat(), &id) < tol2, "{}: a * a^-1 = {}", T::NAME, a.compose(&i).show());
    ensure!(diff(&i.compose(&a).mat(), &id) < tol2, "{}: a^-1 * a = {}", T::NAME, i.compose(&a).show());
    ensure!(diff(&i.mat(), &ma.clone().try_inverse().unwrap()) < tol2, "{}: matrix of the inverse is not the inverse matrix", T::NAME);
    ensure!(Variable::dim(&a) == T::N && <T as Variable>::DIM == T::N, "{}: dimension {}", T::NAME, Variable::dim(&a));
    // the arguments are left alone
    ensure!(diff(&a.mat(), &ma) == 0.0 && diff(&b.mat(), &mb) == 0.0, "{}: operands changed", T::NAME);
    Ok(diff(&ma, &id) > 1e-12 && diff(&mb, &id) > 1e-12)
}
fn group_laws(g: &mut Gen) -> Outcome {
    for_var!(g, laws)
}

/// long chains of mixed operations against the matrix model
fn chain<T: Var>(g: &mut Gen) -> Outcome {
    let n = g.range(2, 30);
    let mut x = T::gen(g);
    let mut m = x.mat();
    note!(g, "start {}", x.show());
    let mut scale = x.mag();
    for _ in 0..n {
        let y = T::gen(g);
        scale = (scale + y.mag()) * 1.0;
        match g.below(5) {
            0 => {
                x = x.compose(&y);
                m = m * y.mat();
                note!(g, "x * {}", y.show());
            }
            1 => {
                x = y.compose(&x);
                m = y.mat() * m;
                note!(g, "{} * x", y.show());
            }
            2 => {
                x = x.inverse();
                m = m.try_inverse().unwrap();
                note!(g, "x^-1");
            }
            3 => {
                x = x.minus(&y);
                m = y.mat().try_inverse().unwrap() * m;
                note!(g, "x minus {}", y.show());
            }
            _ => {
                x = y.minus(&x);
                m = m.try_inverse().unwrap() * y.mat();
                note!(g, "{} minus x", y.show());
            }
        }
    }
    let d = diff(&x.mat(), &m);
    ensure!(d < 1e-10 * scale, "{}: after {} operations the element is {} but the matrix model {}", T::NAME, n, x.show(), m);
    Ok(true)
}
fn chains(g: &mut Gen) -> Outcome {
    for_var!(g, chain)
}

fn matrices_<T: Lie>(g: &mut Gen) -> Outcome {
    let t = T::gen_tangent(g, true);
    let (rot, tr) = (&t[..T::ROT], &t[T::ROT..]);
    let a = T::make(rot, tr);
    let a = T::flip(g, a);
    let truth = T::make_mat(rot, tr);
    note!(g, "{} from rotation {:?} translation {:?}", T::NAME, rot, tr);
    let tol = 1e-12 * a.mag();
    ensure!(diff(&a.to_m(), &truth) < tol, "{}: to_matrix gives {} for {}", T::NAME, a.to_m(), truth);
    let k = if T::ROT == 1 { 2 } else { 3 };
    let r = a.to_m().view((0, 0), (k, k)).into_owned();
    ensure!(diff(&(&r * r.transpose()), &M::identity(k, k)) < 1e-12, "{}: rotation matrix not orthonormal", T::NAME);
    ensure!((r.determinant() - 1.0).abs() < 1e-12, "{}: determinant {}", T::NAME, r.determinant());
    // from_matrix gives back the element of the matrix
    let b = T::from_m(&truth);
    ensure!(diff(&b.to_m(), &truth) < 1e-11 * a.mag(), "{}: to_matrix(from_matrix(R)) = {} for R = {}", T::NAME, b.to_m(), truth);
    ensure!(diff(&b.mat(), &truth) < 1e-11 * a.mag(), "{}: from_matrix(R) = {} for R = {}", T::NAME, b.mat(), truth);
    let w = T::from_m(&a.to_m());
    ensure!(diff(&w.mat(), &truth) < 1e-11 * a.mag(), "{}: from_matrix(to_matrix(a)) differs from a", T::NAME);
    // action on points
    let p = gen_vec(g, T::VD);
    let mut ph = p.clone();
    if T::N > T::ROT {
        ph.push(1.0);
    }
    let q = a.apply_(&p);
    let qr = &truth * V::from_column_slice(&ph);
    let ptol = 1e-12 * (1.0 + maxabs(&p) + a.mag());
    ensure!(vdiff(q.as_slice(), &qr.as_slice()[..T::VD]) < ptol, "{}: apply({:?}) = {:?}, matrix gives {:?}", T::NAME, p, q.as_slice(), qr.as_slice());
    // product: operator forms, action is a homomorphism
    let c = T::gen(g);
    let (m1, m2) = a.mul_op(&c);
    let prod = &truth * c.mat();
    let tol3 = 1e-11 * a.mag() * c.mag();
    ensure!(diff(&m1.to_m(), &prod) < tol3 && diff(&m2.to_m(), &prod) < tol3, "{}: operator * differs from the matrix product", T::NAME);
    let l = m1.apply_(&p);
    let r2 = a.apply_(c.apply_(&p).as_slice());
    ensure!(vdiff(l.as_slice(), r2.as_slice()) < tol3 * (1.0 + maxabs(&p)), "{}: (ac)p != a(cp)", T::NAME);
    let back = a.inverse().apply_(q.as_slice());
    ensure!(vdiff(back.as_slice(), &p) < 1e-11 * (1.0 + maxabs(&p) + a.mag()), "{}: a^-1(a p) != p", T::NAME);
    let trace: f64 = (0..k).map(|i| truth[(i, i)]).sum();
    g.class(if trace > 0.0 { "trace>0" } else { "trace<=0" });
    Ok(diff(&truth, &M::identity(truth.nrows(), truth.ncols())) > 1e-12)
}
fn matrices(g: &mut Gen) -> Outcome {
    for_lie!(g, matrices_)
}

/// rotations by (nearly) half turns about every axis: all branches of from_matrix
fn half_turns(g: &mut Gen) -> Outcome {
    let ax = gen_axis(g);
    let d = match g.below(3) {
        0 => 0.0,
        1 => g.logu(1e-12, 1e-3),
        _ => g.uniform(0.0, 1.2),
    };
    let t = std::f64::consts::PI - d;
    let w = [ax[0] * t, ax[1] * t, ax[2] * t];
    note!(g, "rotation vector {:?}", w);
    let m = M::from_iterator(3, 3, rot3(&w).iter().cloned());
    let x = SO3::from_m(&m);
    ensure!(diff(&x.mat(), &m) < 1e-11, "SO3: from_matrix of {} gives {}", m, x.mat());
    let tr = gen_vec(g, 3);
    let mut h = M::identity(4, 4);
    h.view_mut((0, 0), (3, 3)).copy_from(&m);
    for i in 0..3 {
        h[(i, 3)] = tr[i];
    }
    let y = SE3::from_m(&h);
    ensure!(diff(&y.mat(), &h) < 1e-11 * (1.0 + maxabs(&tr)), "SE3: from_matrix of {} gives {}", h, y.mat());
    let big = (0..3).max_by(|i, j| m[(*i, *i)].partial_cmp(&m[(*j, *j)]).unwrap()).unwrap();
    g.class(["largest diagonal 0", "largest diagonal 1", "largest diagonal 2"][big]);
    Ok(true)
}

/// accessors and constructors
fn accessors(g: &mut Gen) -> Outcome {
    let th = g.sign() * gen_angle_any(g);
    let t = gen_vec(g, 3);
    note!(g, "theta {th} translation {t:?}");
    let tn = th.sin().atan2(th.cos());
    let r = SO2::from_theta(th);
    let wrap = |a: f64, b: f64| ((a - b).sin().atan2((a - b).cos())).abs();
    ensure!(wrap(r.to_theta(), th) < 1e-12, "SO2: to_theta(from_theta({th})) = {}", r.to_theta());
    ensure!(r.to_theta().abs() <= std::f64::consts::PI + 1e-15, "SO2: angle out of range");
    let p = SE2::new(th, t[0], t[1]);
    ensure!(p.x() == t[0] && p.y() == t[1] && p.xy()[0] == t[0] && p.xy()[1] == t[1], "SE2: translation accessors");
    ensure!(wrap(p.theta(), tn) < 1e-12 && wrap(p.rot().to_theta(), tn) < 1e-12, "SE2: angle accessors: {} for {}", p.theta(), th);
    let w = gen_rotvec(g, true);
    let q = quat(&w);
    let s = SO3::from_xyzw(q[0], q[1], q[2], q[3]);
    let s2 = SO3::from_vec(factrs::linalg::Vector4::new(q[0], q[1], q[2], q[3]));
    ensure!([s.x(), s.y(), s.z(), s.w()] == q && [s2.x(), s2.y(), s2.z(), s2.w()] == q, "SO3: quaternion accessors");
    let e = SE3::from_rot_trans(s.clone(), factrs::linalg::Vector3::new(t[0], t[1], t[2]));
    ensure!(e.xyz().iter().cloned().collect::<Vec<_>>() == t && e.rot().x() == q[0] && e.rot().w() == q[3], "SE3: accessors");
    let bv = gen_vec(g, 6);
    let b = ImuBias::make(&[], &bv);
    let b2 = ImuBias::make(&[], &gen_vec(g, 6));
    ensure!(b.gyro().as_slice() == &bv[..3] && b.accel().as_slice() == &bv[3..], "ImuBias: accessors");
    let d = &b - &b2;
    let d2 = b.clone() - b2.clone();
    ensure!(diff(&(d.mat() + b2.mat()), &(b.mat() + M::identity(7, 7))) < 1e-9 * b.mag() * b2.mag() && diff(&d.mat(), &d2.mat()) == 0.0, "ImuBias: subtraction");
    ensure!(diff(&ImuBias::zeros().mat(), &M::identity(7, 7)) == 0.0, "ImuBias: zeros");
    Ok(true)
}

fn main() {
    main_();
}
fn main_() {
    harness::engine::main(Property {
        id: "C01",
        rule: "elements built through public constructors from generated rotation vectors (angles 0, tiny, at formula switches, near pi, beyond 2 pi; both quaternion signs) and translations (1e-6..1e6); compared with dense matrix algebra computed by the harness. Non-trivial: the elements differ from the identity by more than 1e-12; chains have at least two operations.",
        assumptions: &["rotations are given as unit quaternions / proper rotation matrices", "floating-point agreement up to 1e-12 relative (1e-11 for recovering a rotation from a rounded matrix)"],
        subs: vec![
            sub("group_laws", 600_000, group_laws),
            sub("chains", 120_000, chains),
            sub("matrices", 600_000, matrices),
            sub("half_turns", 400_000, half_turns),
            sub("accessors", 200_000, accessors),
        ],
    });
}
