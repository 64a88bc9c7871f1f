//! C26: the single-precision and the multi-threaded builds. Compiled once per configuration; every oracle is computed in
//! double precision from the (rounded) inputs, and the tolerances follow the build's scalar type.
use factrs::{
    containers::{Factor, FactorBuilder, Graph, Key, Values},
    dtype,
    linalg::{Matrix, Vector, Vector2, Vector3, VectorX},
    linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver},
    noise::{GaussianNoise, NoiseModel},
    optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptError, OptObserver, OptParams, Optimizer},
    residuals::{Accel, BetweenResidual, Gyro, PriorResidual, Residual},
    robust::{Cauchy, Fair, GemanMcClure, Huber, RobustCost, Tukey, Welsch, L1, L2},
    symbols::{A, X},
    utils::load_g20,
    variables::{ImuBias, MatrixLieGroup, Variable, VariableUmbrella, VectorVar2, VectorVar3, SE2, SE3, SO2, SO3},
};
use faer::{sparse::SparseColMat, Mat};
use harness::{engine::*, ensure, geom::*, note};
use std::{cell::RefCell, f64::consts::PI, fmt::Debug, rc::Rc};

/// a few hundred units of rounding
const EPS: f64 = if cfg!(feature = "f32") { 3e-5 } else { 1e-8 };
fn f(x: f64) -> dtype {
    x as dtype
}
fn d(x: dtype) -> f64 {
    #[allow(clippy::unnecessary_cast)]
    {
        x as f64
    }
}
/// the nearest number of the build's type
fn rd(x: f64) -> f64 {
    d(f(x))
}
fn rds(x: &[f64]) -> Vec<f64> {
    x.iter().map(|x| rd(*x)).collect()
}
fn vx(x: &[f64]) -> VectorX {
    VectorX::from_iterator(x.len(), x.iter().map(|x| f(*x)))
}
fn ds<'a>(x: impl IntoIterator<Item = &'a dtype>) -> Vec<f64> {
    x.into_iter().map(|x| d(*x)).collect()
}
fn dm(x: &factrs::linalg::MatrixX) -> M {
    M::from_iterator(x.nrows(), x.ncols(), x.iter().map(|x| d(*x)))
}
fn gm(r: &M, t: &[f64]) -> M {
    let n = r.nrows();
    let mut m = M::identity(n + 1, n + 1);
    m.view_mut((0, 0), (n, n)).copy_from(r);
    for i in 0..t.len() {
        m[(i, n)] = t[i];
    }
    m
}
fn ang(m: &M) -> f64 {
    m[(1, 0)].atan2(m[(0, 0)])
}
fn m3(m: &M) -> nalgebra::Matrix3<f64> {
    nalgebra::Matrix3::from_iterator(m.view((0, 0), (3, 3)).iter().cloned())
}
fn col(m: &M, n: usize) -> Vec<f64> {
    (0..n).map(|i| m[(i, n)]).collect()
}
fn so3(m: &M) -> SO3 {
    let q = mat_to_quat(&m3(m));
    SO3::from_xyzw(f(q[0]), f(q[1]), f(q[2]), f(q[3]))
}
/// orthonormal form of the (rounded) quaternion
fn so3_mat(x: &SO3) -> M {
    let q = [d(x.x()), d(x.y()), d(x.z()), d(x.w())];
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    let r = quat_to_mat(&q.map(|x| x / n));
    M::from_iterator(3, 3, r.iter().cloned())
}
fn shift(t: &[f64]) -> M {
    gm(&M::identity(t.len(), t.len()), t)
}

trait Var: VariableUmbrella + Debug {
    const N: usize;
    const ROT: usize;
    fn mat(&self) -> M;
    fn of(m: &M) -> Self;
    fn hat(x: &[f64]) -> M;
    fn logm(m: &M) -> Vec<f64>;
    fn prior(z: Self) -> Box<dyn Residual>;
    fn between(z: Self) -> Box<dyn Residual>;
    fn prior_f(z: Self, k: u64, l: &Loss) -> Factor;
    fn between_f(z: Self, a: u64, b: u64, l: &Loss) -> Factor;
}
macro_rules! var {
    ($t:ty, $n:literal, $rot:literal, $mat:expr, $of:expr, $hat:expr, $log:expr) => {
        impl Var for $t {
            const N: usize = $n;
            const ROT: usize = $rot;
            fn mat(&self) -> M {
                let f: fn(&$t) -> M = $mat;
                f(self)
            }
            fn of(m: &M) -> Self {
                let f: fn(&M) -> $t = $of;
                f(m)
            }
            fn hat(x: &[f64]) -> M {
                let f: fn(&[f64]) -> M = $hat;
                f(x)
            }
            fn logm(m: &M) -> Vec<f64> {
                let f: fn(&M) -> Vec<f64> = $log;
                f(m)
            }
            fn prior(z: Self) -> Box<dyn Residual> {
                Box::new(PriorResidual::new(z))
            }
            fn between(z: Self) -> Box<dyn Residual> {
                Box::new(BetweenResidual::new(z))
            }
            fn prior_f(z: Self, k: u64, l: &Loss) -> Factor {
                l.finish::<$n>(FactorBuilder::new1_unchecked(PriorResidual::new(z), X(k)))
            }
            fn between_f(z: Self, a: u64, b: u64, l: &Loss) -> Factor {
                l.finish::<$n>(FactorBuilder::new2_unchecked(BetweenResidual::new(z), X(a), X(b)))
            }
        }
    };
}
fn rot2(m: &M) -> M {
    m.view((0, 0), (2, 2)).into_owned()
}
var!(
    SO2, 1, 1,
    |x| {
        let c = x.apply(Vector2::new(f(1.0), f(0.0)).as_view());
        let (s, c) = d(c[1]).atan2(d(c[0])).sin_cos();
        M::from_row_slice(2, 2, &[c, -s, s, c])
    },
    |m| SO2::from_theta(f(ang(m))),
    |x| M::from_row_slice(2, 2, &[0.0, -x[0], x[0], 0.0]),
    |m| vec![ang(m)]
);
var!(
    SO3, 3, 3,
    so3_mat,
    so3,
    hat3,
    |m| log3(&m3(m)).as_slice().to_vec()
);
var!(
    SE2, 3, 1,
    |x| gm(&rot2(&Var::mat(x.rot())), &[d(x.x()), d(x.y())]),
    |m| SE2::new(f(ang(m)), f(m[(0, 2)]), f(m[(1, 2)])),
    |x| M::from_row_slice(3, 3, &[0.0, -x[0], x[1], x[0], 0.0, x[2], 0.0, 0.0, 0.0]),
    |m| {
        let th = ang(m);
        let v = phi1(&M::from_row_slice(2, 2, &[0.0, -th, th, 0.0])).try_inverse().unwrap() * V::from_vec(col(m, 2));
        vec![th, v[0], v[1]]
    }
);
var!(
    SE3, 6, 3,
    |x| gm(&so3_mat(x.rot()), &ds(x.xyz().iter())),
    |m| SE3::from_rot_trans(so3(m), Vector3::new(f(m[(0, 3)]), f(m[(1, 3)]), f(m[(2, 3)]))),
    |x| {
        let mut m = M::zeros(4, 4);
        m.view_mut((0, 0), (3, 3)).copy_from(&hat3(x));
        for i in 0..3 {
            m[(i, 3)] = x[3 + i];
        }
        m
    },
    |m| {
        let w = log3(&m3(m));
        let v = phi1(&hat3(w.as_slice())).try_inverse().unwrap() * V::from_vec(col(m, 3));
        vec![w[0], w[1], w[2], v[0], v[1], v[2]]
    }
);
var!(
    VectorVar2, 2, 0,
    |x| shift(&[d(x[0]), d(x[1])]),
    |m| VectorVar2::new(f(m[(0, 2)]), f(m[(1, 2)])),
    |x| shift(x) - M::identity(3, 3),
    |m| col(m, 2)
);
var!(
    VectorVar3, 3, 0,
    |x| shift(&[d(x[0]), d(x[1]), d(x[2])]),
    |m| VectorVar3::new(f(m[(0, 3)]), f(m[(1, 3)]), f(m[(2, 3)])),
    |x| shift(x) - M::identity(4, 4),
    |m| col(m, 3)
);
var!(
    ImuBias, 6, 0,
    |x| {
        let (g, a) = (x.gyro(), x.accel());
        shift(&[d(g[0]), d(g[1]), d(g[2]), d(a[0]), d(a[1]), d(a[2])])
    },
    |m| {
        let t: Vec<dtype> = col(m, 6).into_iter().map(f).collect();
        ImuBias::new(Gyro::new(t[0], t[1], t[2]), Accel::new(t[3], t[4], t[5]))
    },
    |x| shift(x) - M::identity(7, 7),
    |m| col(m, 6)
);
macro_rules! for_var {
    ($g:expr, $f:ident) => {
        match $g.below(9) {
            0 => $f::<SO2>($g),
            1 => $f::<SO3>($g),
            2 | 3 => $f::<SE2>($g),
            4 | 5 => $f::<SE3>($g),
            6 => $f::<VectorVar2>($g),
            7 => $f::<VectorVar3>($g),
            _ => $f::<ImuBias>($g),
        }
    };
}

/// tangent with a rotation of the given size, translation up to `tr`
fn tangent<T: Var>(g: &mut Gen, th: f64, tr: f64) -> Vec<f64> {
    let mut v: Vec<f64> = match T::ROT {
        0 => vec![],
        1 => vec![g.sign() * th],
        _ => gen_axis(g).iter().map(|x| x * th).collect(),
    };
    v.extend((0..T::N - T::ROT).map(|_| g.sym(tr)));
    rds(&v)
}
fn any_angle(g: &mut Gen) -> f64 {
    match g.below(8) {
        0 => 0.0,
        1 => g.logu(1e-9, 1e-3),
        2 => g.logu(1e-4, 0.3),
        3 => PI - g.logu(1e-4, 0.2),
        _ => g.uniform(0.1, 3.0),
    }
}
fn element<T: Var>(g: &mut Gen, tr: f64) -> T {
    let th = any_angle(g);
    let t = tangent::<T>(g, th, tr);
    T::of(&expm(&T::hat(&t)))
}
fn mag(m: &M) -> f64 {
    1.0 + maxabs(m.iter())
}
fn rot<T: Var>(x: &[f64]) -> f64 {
    x[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// the logarithm is ill-conditioned close to half a turn
fn near_pi(th: f64) -> f64 {
    1.0 + 1.0 / (PI - th).max(1e-9)
}

fn maps_<T: Var>(g: &mut Gen) -> Outcome {
    let tr = *g.pick(&[1.0, 5.0, 100.0]);
    let (x, y): (T, T) = (element(g, tr), element(g, tr));
    let th = any_angle(g);
    let t = tangent::<T>(g, th, tr);
    note!(g, "x = {:?}, y = {:?}, t = {:?}", x, y, t);
    let (mx, my) = (x.mat(), y.mat());
    let s = mag(&mx) * mag(&my) * (1.0 + maxabs(&t));
    let eq = |what: &str, got: &M, want: &M, s: f64| {
        let e = diff(got, want);
        if e <= 4.0 * EPS * s {
            Ok(())
        } else {
            Err(format!("{what} is {got} but should be {want} (difference {e:e}, scale {s})"))
        }
    };
    let tv = vx(&t);
    let e = expm(&T::hat(&t));
    eq("compose", &x.compose(&y).mat(), &(&mx * &my), s)?;
    eq("inverse", &x.inverse().mat(), &mx.clone().try_inverse().unwrap(), s)?;
    eq("exp", &T::exp(tv.as_view()).mat(), &e, s)?;
    eq("oplus", &x.oplus(tv.as_view()).mat(), &(&mx * &e), s)?;
    let rel = my.clone().try_inverse().unwrap() * &mx;
    eq("minus", &x.minus(&y).mat(), &rel, s)?;
    let o = x.ominus(&y);
    let w = T::logm(&rel);
    let od = ds(o.iter());
    let (tx, tw) = (rot::<T>(&T::logm(&mx)), rot::<T>(&w));
    // back and forth needs no exemption close to half a turn
    eq("y moved by the difference of x from y", &y.oplus(o.as_view()).mat(), &mx, s * s)?;
    eq("exp of log", &T::exp(x.log().as_view()).mat(), &mx, s)?;
    if tw < PI - 0.01 {
        let e = vdiff(&od, &w);
        ensure!(e <= 4.0 * EPS * s * s * near_pi(tw), "difference is {:?}, should be {:?} ({e:e})", od, w);
    }
    if tx < PI - 0.01 {
        let (l, w) = (ds(x.log().iter()), T::logm(&mx));
        let e = vdiff(&l, &w);
        ensure!(e <= 4.0 * EPS * s * near_pi(tx), "log is {:?}, should be {:?} ({e:e})", l, w);
    }
    Ok(maxabs(&t) > 0.0 && s > 1.5)
}
fn maps(g: &mut Gen) -> Outcome {
    for_var!(g, maps_)
}

/// noise and kernel of a factor
#[derive(Clone, Debug)]
struct Loss {
    noise: u8,
    sig: Vec<f64>,
    cov: M,
    rob: u8,
    c: f64,
}
impl Loss {
    fn gen(g: &mut Gen, n: usize, rob: bool) -> Loss {
        let sig = rds(&(0..n).map(|_| g.logu(0.3, 3.0)).collect::<Vec<_>>());
        let cov = gen_spd(g, n, 0.1, 9.0).map(rd);
        Loss { noise: g.below(6) as u8, sig, cov, rob: if rob { g.below(9) as u8 } else { 0 }, c: rd(g.uniform(0.5, 5.0)) }
    }
    fn info(&self, n: usize) -> M {
        match self.noise {
            0 => M::identity(n, n),
            1 => M::identity(n, n) / (self.sig[0] * self.sig[0]),
            2 => M::from_diagonal(&V::from_iterator(n, self.sig.iter().map(|s| 1.0 / (s * s)))),
            3 => M::from_diagonal(&V::from_iterator(n, self.sig.iter().map(|s| 1.0 / s))),
            4 => self.cov.clone().try_inverse().unwrap(),
            _ => self.cov.clone(),
        }
    }
    fn finish<const N: usize>(&self, b: FactorBuilder<N>) -> Factor {
        let sv = Vector::<N>::from_iterator(self.sig.iter().map(|x| f(*x)));
        let mv = Matrix::<N, N>::from_iterator(self.cov.iter().map(|x| f(*x)));
        let b = match self.noise {
            0 => b,
            1 => b.noise(GaussianNoise::from_scalar_sigma(f(self.sig[0]))),
            2 => b.noise(GaussianNoise::from_vec_sigma(sv.as_view())),
            3 => b.noise(GaussianNoise::from_vec_cov(sv.as_view())),
            4 => b.noise(GaussianNoise::from_matrix_cov(mv.as_view())),
            _ => b.noise(GaussianNoise::from_matrix_inf(mv.as_view())),
        };
        let c = f(self.c);
        match self.rob {
            0 => b,
            1 => b.robust(L2),
            2 => b.robust(L1),
            3 => b.robust(Huber::new(c)),
            4 => b.robust(Fair::new(c)),
            5 => b.robust(Cauchy::new(c)),
            6 => b.robust(GemanMcClure::new(c)),
            7 => b.robust(Welsch::new(c)),
            _ => b.robust(Tukey::new(c)),
        }
        .build()
    }
    fn loss(&self, d2: f64) -> (f64, f64) {
        let (x, c) = (d2.sqrt(), self.c);
        let c2 = c * c;
        match self.rob {
            0 | 1 => (d2 / 2.0, 1.0),
            2 => (x, 1.0 / x),
            3 if x <= c => (d2 / 2.0, 1.0),
            3 => (c * (x - c / 2.0), c / x),
            4 => (c2 * (x / c - (x / c).ln_1p()), c / (c + x)),
            5 => (c2 / 2.0 * (d2 / c2).ln_1p(), c2 / (c2 + d2)),
            6 => (c2 * d2 / 2.0 / (c2 + d2), (c2 / (c2 + d2)).powi(2)),
            7 => (-c2 / 2.0 * (-d2 / c2).exp_m1(), (-d2 / c2).exp()),
            _ if x <= c => (c2 / 6.0 * (1.0 - (1.0 - d2 / c2).powi(3)), (1.0 - d2 / c2).powi(2)),
            _ => (c2 / 6.0, 0.0),
        }
    }
    fn kink(&self, x: f64) -> bool {
        let k = match self.rob {
            2 => 1e-3f64.sqrt(),
            3 | 8 => self.c,
            _ => return false,
        };
        (x - k).abs() < 1e-3 * (1.0 + k)
    }
}

/// an ordinary rotation: none, or comfortably between the small-angle formulas and half a turn
fn angle(g: &mut Gen, hi: f64) -> f64 {
    g.uniform(0.1, hi)
}
fn jac_of<T: Var>(n: usize, r: &dyn Fn(&[M]) -> Vec<f64>, at: &[M]) -> M {
    let mut j = M::zeros(T::N, T::N * n);
    let c = [(1.0, 45.0), (2.0, -9.0), (3.0, 1.0)];
    let h = 2e-3;
    for i in 0..T::N * n {
        let mut acc = V::zeros(T::N);
        for (k, w) in c {
            for s in [1.0, -1.0] {
                let mut t = vec![0.0; T::N];
                t[i % T::N] = s * k * h;
                let mut ms = at.to_vec();
                ms[i / T::N] = &ms[i / T::N] * expm(&T::hat(&t));
                acc += V::from_vec(r(&ms)) * (s * w);
            }
        }
        j.set_column(i, &(acc / (60.0 * h)));
    }
    j
}
/// residual, Jacobian, error and linearised rows of a factor
fn factors_<T: Var>(g: &mut Gen) -> Outcome {
    let n = if g.bool() { 1 } else { 2 };
    let th = angle(g, 3.0);
    let ta = tangent::<T>(g, th, 4.0);
    let th = angle(g, 3.0);
    let tz = tangent::<T>(g, th, 4.0);
    let th = angle(g, 2.6);
    let te = tangent::<T>(g, th, 3.0);
    let a = T::of(&expm(&T::hat(&ta)));
    let z = T::of(&expm(&T::hat(&tz)));
    let e = expm(&T::hat(&te));
    let (b, ms): (T, Vec<M>) = if n == 1 {
        let v = T::of(&(z.mat() * &e));
        (v.clone(), vec![v.mat()])
    } else {
        let v = T::of(&(a.mat() * z.mat() * &e));
        (v.clone(), vec![a.mat(), v.mat()])
    };
    let l = Loss::gen(g, T::N, true);
    note!(g, "{n}: a = {:?}, z = {:?}, b = {:?}, {:?}", a, z, b, l);
    let mut v = Values::new();
    let keys: Vec<Key> = (0..n as u64).map(|i| Key::from(X(i))).collect();
    if n == 1 {
        v.insert_unchecked(X(0), b.clone());
    } else {
        v.insert_unchecked(X(1), b.clone());
        v.insert_unchecked(X(0), a.clone());
    }
    let zm = z.mat();
    let rf = |m: &[M]| -> Vec<f64> {
        let rel = if n == 1 { m[0].clone().try_inverse().unwrap() * &zm } else { m[1].clone().try_inverse().unwrap() * &m[0] * &zm };
        T::logm(&rel)
    };
    let want = rf(&ms);
    let jac = jac_of::<T>(n, &rf, &ms);
    let res = if n == 1 { T::prior(z.clone()) } else { T::between(z.clone()) };
    let s = mag(&a.mat()) * mag(&b.mat()) * mag(&zm);
    let got = ds(res.residual(&v, &keys).iter());
    ensure!(vdiff(&got, &want) < EPS * s, "residual {:?}, specified {:?}", got, want);
    let dj = res.residual_jacobian(&v, &keys);
    let got = ds(dj.value.iter());
    ensure!(vdiff(&got, &want) < EPS * s, "value beside the Jacobian {:?}, specified {:?}", got, want);
    let tol = (3.0 * EPS + 1e-8) * s * s;
    ensure!(diff(&dm(&dj.diff), &jac) < tol, "Jacobian {} but the derivative is {} (tolerance {tol:e})", dj.diff, jac);
    // the factor
    let fac = if n == 1 { T::prior_f(z, 0, &l) } else { T::between_f(z, 0, 1, &l) };
    let info = l.info(T::N);
    let r = V::from_vec(want);
    let d2 = (r.transpose() * &info * &r)[0];
    let (loss, w) = l.loss(d2);
    let err = d(fac.error(&v));
    // whitened residual is accurate to EPS s / smallest sigma
    let wi = maxabs(info.iter()).sqrt() * T::N as f64;
    let dr = EPS * s * wi;
    let etol = dr * (1.0 + d2.sqrt() + dr) * if l.rob == 2 { 1.0 / d2.sqrt().max(1e-3) } else { 1.0 } + 10.0 * EPS * loss;
    ensure!((err - loss).abs() <= etol, "error {err}, specified {loss} (tolerance {etol:e})");
    if !l.kink(d2.sqrt()) && d2 > 1e-2 {
        let lin = fac.linearize(&v);
        let jw = M::from_iterator(T::N, T::N * n, lin.a.mat().iter().map(|x| d(*x)));
        let bw = V::from_vec(ds(lin.b.iter()));
        // independent of the square root chosen: normal matrix and gradient
        let (h, gr) = (jw.transpose() * &jw, jw.transpose() * &bw);
        let (h0, g0) = (jac.transpose() * &info * &jac * w, -(jac.transpose() * &info * &r) * w);
        let wj = (1.0 + maxabs(jac.iter())) * wi;
        let t2 = (10.0 * EPS + 1e-8) * s * s * wj * wj;
        ensure!(diff(&h, &h0) < t2, "linearised normal matrix {h}, specified {h0} (tolerance {t2:e})");
        ensure!(vdiff(gr.as_slice(), g0.as_slice()) < t2 * (1.0 + r.amax()), "linearised gradient {gr}, specified {g0}");
    }
    Ok(r.amax() > 1e-3)
}
fn factors(g: &mut Gen) -> Outcome {
    for_var!(g, factors_)
}

#[derive(Clone, Default)]
struct Last(Rc<RefCell<Option<Values>>>);
impl OptObserver for Last {
    type Input = Values;
    fn on_step(&self, v: &Values, _: f64) {
        *self.0.borrow_mut() = Some(v.clone());
    }
}
fn gn<S: LinearSolver>(gr: Graph, v: Values, p: OptParams) -> Result<Values, String> {
    let mut o: GaussNewton<S> = GaussNewton::new(gr);
    o.params = p;
    match o.optimize(v) {
        Ok(v) => Ok(v),
        Err(OptError::MaxIterations(_)) => Err("iteration limit".into()),
        Err(_) => Err("a Gauss-Newton step failed".into()),
    }
}
fn lm<S: LinearSolver>(gr: Graph, v: Values, p: OptParams, diag: bool) -> Result<Values, String> {
    let mut o: LevenMarquardt<S> = LevenMarquardt::new(gr);
    o.params_base = p;
    o.params_leven.diagonal_damping = diag;
    let last = Last::default();
    o.observers.add(last.clone());
    match o.optimize(v.clone()) {
        Ok(v) => Ok(v),
        Err(OptError::MaxIterations(_)) => Err("iteration limit".into()),
        // nothing left to gain at the rounding floor
        Err(OptError::FailedToStep) => Ok(last.0.borrow().clone().unwrap_or(v)),
        Err(_) => Err("the optimiser failed".into()),
    }
}
/// consistent measurements are recovered
fn optimise_<T: Var>(g: &mut Gen) -> Outcome {
    let large = g.chance(1, 60);
    let n = if large { g.range(30, 60) } else { g.range(1, 7) };
    let truth: Vec<T> = (0..n).map(|_| element(g, 3.0)).collect();
    let start: Vec<T> = truth
        .iter()
        .map(|x| {
            let th = g.uniform(0.0, 0.12);
            let t = tangent::<T>(g, th, 0.25);
            T::of(&(x.mat() * expm(&T::hat(&t))))
        })
        .collect();
    let mut gr = Graph::new();
    let mut pairs = vec![(g.below(n as u64) as usize, None)];
    for i in 1..n {
        // a large graph is a shallow tree, so that rounding does not add up
        let j = if large { (i - 1) / 3 } else { g.below(i as u64) as usize };
        pairs.push(if g.bool() { (i, Some(j)) } else { (j, Some(i)) });
    }
    for _ in 0..g.range(0, n) {
        let (i, j) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
        pairs.push((i, if i == j { None } else { Some(j) }));
    }
    g.shuffle(&mut pairs);
    let (mut want, mut etol) = (0.0, 0.0);
    for (a, b) in &pairs {
        let mut l = Loss::gen(g, T::N, false);
        l.sig.iter_mut().for_each(|s| *s = rd(s.clamp(0.5, 2.0)));
        l.cov = gen_spd(g, T::N, 0.3, 3.0).map(rd);
        let (f, rel, z) = match b {
            None => (T::prior_f(truth[*a].clone(), *a as u64, &l), start[*a].mat().try_inverse().unwrap() * truth[*a].mat(), truth[*a].mat()),
            Some(b) => {
                let z = T::of(&(truth[*a].mat().try_inverse().unwrap() * truth[*b].mat()));
                (T::between_f(z.clone(), *a as u64, *b as u64, &l), start[*b].mat().try_inverse().unwrap() * start[*a].mat() * z.mat(), z.mat())
            }
        };
        gr.add_factor(f);
        let r = V::from_vec(T::logm(&rel));
        let info = l.info(T::N);
        let d2 = (r.transpose() * &info * &r)[0];
        let dr = EPS * mag(&z) * mag(&start[*a].mat()) * mag(&start[b.unwrap_or(*a)].mat()) * maxabs(info.iter()).sqrt() * T::N as f64;
        want += d2 / 2.0;
        etol += dr * (d2.sqrt() + dr) + 10.0 * EPS * d2;
    }
    {
        let mut v = Values::new();
        start.iter().enumerate().for_each(|(i, x)| {
            v.insert_unchecked(X(i as u64), x.clone());
        });
        let e = d(gr.error(&v));
        ensure!((e - want).abs() <= etol, "error of the graph of {} factors {e}, specified {want} (tolerance {etol:e})", gr.len());
    }
    note!(g, "truth {:?}, start {:?}, {:?}", truth, start, pairs);
    let mut v = Values::new();
    let mut ord: Vec<usize> = (0..n).collect();
    g.shuffle(&mut ord);
    for i in ord {
        v.insert_unchecked(X(i as u64), start[i].clone());
    }
    let p = OptParams { max_iterations: 60, ..Default::default() };
    let k = g.below(9);
    note!(g, "optimiser {k}");
    let got = match k {
        0 => gn::<CholeskySolver>(gr, v, p),
        1 => gn::<QRSolver>(gr, v, p),
        2 => gn::<LUSolver>(gr, v, p),
        3 | 4 => lm::<CholeskySolver>(gr, v, p, k == 3),
        5 | 6 => lm::<QRSolver>(gr, v, p, k == 5),
        _ => lm::<LUSolver>(gr, v, p, k == 7),
    }
    .map_err(|e| format!("optimiser {k}: {e}"))?;
    let mut worst = 0.0f64;
    for (i, t) in truth.iter().enumerate() {
        let Some(x) = got.get_unchecked::<_, T>(X(i as u64)) else { return Err(format!("variable {i} is missing from the result")) };
        worst = worst.max(diff(&x.mat(), &t.mat()));
    }
    // stopping is by a decrease below 1e-6 of an error quadratic in the offset
    let tol = if cfg!(feature = "f32") { 2e-2 } else { 1e-2 } * if large { 3.0 } else { 1.0 };
    ensure!(worst < tol, "optimiser {k}: consistent measurements, start close to the truth, but the result is {worst:e} from it");
    if large {
        g.class("large");
    }
    Ok(truth.iter().zip(&start).any(|(a, b)| diff(&a.mat(), &b.mat()) > 3.0 * tol))
}
fn optimise(g: &mut Gen) -> Outcome {
    for_var!(g, optimise_)
}
/// one step towards priors, close to the identity, where small corrections are representable in any precision
fn small_<T: Var>(g: &mut Gen) -> Outcome {
    let n = g.range(1, 5);
    let size = g.logu(1e-6, 0.1);
    let mut gr = Graph::new();
    let mut v = Values::new();
    let mut want = vec![];
    for i in 0..n {
        let th = size * g.uniform(0.1, 1.0);
        let t = tangent::<T>(g, th, size);
        let z = T::of(&expm(&T::hat(&t)));
        let l = Loss::gen(g, T::N, false);
        gr.add_factor(T::prior_f(z.clone(), i as u64, &l));
        v.insert_unchecked(X(i as u64), T::identity());
        want.push(z);
    }
    let which = g.below(3);
    note!(g, "priors {want:?} from the identity, optimiser {which}");
    let out = match which {
        0 => {
            let mut o: GaussNewton<CholeskySolver> = GaussNewton::new(gr);
            o.init(&v);
            o.step(v, 1)
        }
        1 => {
            let mut o: GaussNewton<QRSolver> = GaussNewton::new(gr);
            o.init(&v);
            o.step(v, 1)
        }
        _ => {
            let mut o: LevenMarquardt<CholeskySolver> = LevenMarquardt::new(gr);
            o.init(&v);
            o.step(v, 1)
        }
    };
    let Ok(out) = out else { return Err("the step fails".into()) };
    // damping of 1e-5 (of a diagonal, the condition is below 1e2) keeps Levenberg-Marquardt away
    let tol = (EPS + if which == 2 { 1e-3 } else { 0.0 }) * size * 10.0 + 0.1 * size * size;
    for (i, z) in want.iter().enumerate() {
        let Some(x) = out.get_unchecked::<_, T>(X(i as u64)) else { return Err(format!("variable {i} is missing from the result")) };
        let e = diff(&x.mat(), &z.mat());
        ensure!(e <= tol, "variable {i}: one step of size {size:e} ends {e:e} from the prior's mean (tolerance {tol:e}): {x:?} instead of {z:?}");
    }
    Ok(true)
}
fn small(g: &mut Gen) -> Outcome {
    for_var!(g, small_)
}

/// the assembled system of vector priors and betweens of any scale, entry by entry
fn assemble(g: &mut Gen) -> Outcome {
    let n = if g.chance(1, 4) { g.range(10, 60) } else { g.range(1, 9) };
    let (lo, hi) = if cfg!(feature = "f32") { (1e-6, 1e6) } else { (1e-12, 1e12) };
    let mut gr = Graph::new();
    let mut v = Values::new();
    let at: Vec<[f64; 2]> = (0..n).map(|_| [rd(g.sym(5.0)), rd(g.sym(5.0))]).collect();
    for (i, x) in at.iter().enumerate() {
        v.insert_unchecked(X(i as u64), VectorVar2::new(f(x[0]), f(x[1])));
    }
    let order = factrs::containers::ValuesOrder::from_values(&v);
    let col = |i: usize| order.get(X(i as u64)).map(|x| x.idx);
    let m = n + g.range(0, n);
    let mut a = M::zeros(2 * m, 2 * n);
    let mut b = V::zeros(2 * m);
    let mut err = 0.0;
    let mut err_tol = 0.0;
    for k in 0..m {
        let s = rd(if g.chance(1, 3) { g.uniform(0.3, 3.0) } else { g.logu(lo, hi) });
        let z = [rd(g.sym(5.0)), rd(g.sym(5.0))];
        let mean = VectorVar2::new(f(z[0]), f(z[1]));
        let noise = GaussianNoise::<2>::from_scalar_sigma(f(s));
        let (i, j) = (k % n, g.below(n as u64) as usize);
        let between = k >= n && i != j;
        let r: Vec<f64> = (0..2).map(|c| if between { at[i][c] + z[c] - at[j][c] } else { z[c] - at[i][c] }).collect();
        let (ci, cj) = (col(i).ok_or("key missing from the ordering")?, col(j).ok_or("key missing from the ordering")?);
        for c in 0..2 {
            if between {
                a[(2 * k + c, ci + c)] = 1.0 / s;
                a[(2 * k + c, cj + c)] = -1.0 / s;
            } else {
                a[(2 * k + c, ci + c)] = -1.0 / s;
            }
            b[2 * k + c] = -r[c] / s;
            err += 0.5 * (r[c] / s).powi(2);
            err_tol += (r[c].abs() + 0.1).powi(2) / (s * s);
        }
        gr.add_factor(if between { FactorBuilder::new2_unchecked(BetweenResidual::new(mean), X(i as u64), X(j as u64)).noise(noise).build() } else { FactorBuilder::new1_unchecked(PriorResidual::new(mean), X(i as u64)).noise(noise).build() });
    }
    note!(g, "{n} points, {m} factors, whitening from {:e} to {:e}", a.iter().filter(|x| **x != 0.0).fold(f64::MAX, |p, x| p.min(x.abs())), maxabs(a.iter()));
    let u = if cfg!(feature = "f32") { 3e-6 } else { 1e-13 };
    let sys = gr.linearize(&v).residual_jacobian(&gr.sparsity_pattern(order.clone()));
    let den = sys.diff.to_dense();
    ensure!((den.nrows(), den.ncols(), sys.value.nrows()) == (2 * m, 2 * n, 2 * m), "system of {}x{} for {} rows", den.nrows(), den.ncols(), 2 * m);
    for i in 0..2 * m {
        for j in 0..2 * n {
            let got = d(den[(i, j)]);
            ensure!((got - a[(i, j)]).abs() <= u * a[(i, j)].abs(), "entry ({i}, {j}) of the assembled matrix is {got:e}, the factors give {:e}", a[(i, j)]);
        }
        let got = d(sys.value[(i, 0)]);
        let w = maxabs(a.row(i).iter());
        ensure!((got - b[i]).abs() <= u * w * 20.0, "row {i} of the right-hand side is {got:e}, the factors give {:e}", b[i]);
    }
    let got = d(gr.error(&v));
    ensure!((got - err).abs() <= u * 20.0 * err_tol, "the graph's error is {got:e}, its factors' sum is {err:e}");
    Ok(m > 1)
}

/// solvers against the equations they solve
fn solve_with<S: LinearSolver>(g: &mut Gen) -> Outcome {
    let big = g.chance(1, 25);
    let n = if big { g.range(60, 220) } else { g.range(1, 14) };
    let mut s = S::default();
    let cols = g.range(1, 3);
    let rounds = g.range(1, 2);
    let wide = g.bool();
    // a solver keeps the structure of the first system it is given
    let mut pattern: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        for j in 0..i {
            if i - j <= 2 || wide && g.chance(1, 6) || big && (j == 0 || i - j <= 12) {
                pattern.push((i, j));
            }
        }
    }
    let lst = g.bool();
    for _ in 0..rounds {
        // diagonally dominant, banded plus a few long couplings: well conditioned by construction
        let t: Vec<(usize, usize, f64)> = pattern.iter().map(|(i, j)| (*i, *j, rd(g.sym(1.0)))).collect();
        let mut sum = vec![0.0; n];
        for (i, j, v) in &t {
            sum[*i] += v.abs();
            sum[*j] += v.abs();
        }
        let low = t.clone();
        let mut full: Vec<(usize, usize, dtype)> = low.iter().flat_map(|(i, j, v)| [(*i, *j, f(*v)), (*j, *i, f(*v))]).collect();
        for (i, s) in sum.iter().enumerate() {
            full.push((i, i, f(s * g.uniform(1.2, 2.0) + 0.5)));
        }
        let a = SparseColMat::<usize, dtype>::try_new_from_triplets(n, n, &full).unwrap();
        let b = Mat::from_fn(n, cols, |_, _| f(g.sym(3.0)));
        let x = if !lst { s.solve_symmetric(a.as_ref(), b.as_ref()) } else { s.solve_lst_sq(a.as_ref(), b.as_ref()) };
        ensure!(x.nrows() == n && x.ncols() == cols, "solution is {}x{}", x.nrows(), x.ncols());
        let amax = full.iter().fold(0.0f64, |m, t| m.max(d(t.2).abs()));
        for c in 0..cols {
            let mut r: Vec<f64> = (0..n).map(|i| -d(b[(i, c)])).collect();
            let mut xm = 0.0f64;
            for (i, j, v) in &full {
                r[*i] += d(*v) * d(x[(*j, c)]);
                xm = xm.max(d(x[(*j, c)]).abs());
            }
            let e = maxabs(&r);
            let tol = EPS * 3.0 * (1.0 + amax * xm) * (1.0 + amax);
            ensure!(e <= tol, "equations missed by {e:e} (tolerance {tol:e}) in a well-conditioned system of size {n}, right-hand side {c}");
        }
    }
    if big {
        g.class("large system");
    }
    Ok(n > 1)
}
fn linear(g: &mut Gen) -> Outcome {
    match g.below(3) {
        0 => solve_with::<CholeskySolver>(g),
        1 => solve_with::<QRSolver>(g),
        _ => solve_with::<LUSolver>(g),
    }
}

/// a loaded file carries the numbers of the file
fn file(g: &mut Gen) -> Outcome {
    let three = g.bool();
    let n = g.range(1, 6);
    let mut text = String::new();
    let mut poses: Vec<M> = vec![];
    for i in 0..n {
        let m = if three {
            let m = element::<SE3>(g, 20.0).mat();
            let q = mat_to_quat(&m3(&m));
            text += &format!("VERTEX_SE3:QUAT {i} {} {} {} {} {} {} {}\n", m[(0, 3)], m[(1, 3)], m[(2, 3)], q[0], q[1], q[2], q[3]);
            m
        } else {
            let m = element::<SE2>(g, 20.0).mat();
            text += &format!("VERTEX_SE2 {i} {} {} {}\n", m[(0, 2)], m[(1, 2)], ang(&m));
            m
        };
        poses.push(m);
    }
    let mut want = 0.0;
    // the prior on the first vertex (standard deviation 1e-3) sees rounding only
    let u = if cfg!(feature = "f32") { 1e-6 } else { 1e-14 };
    let mut tol = (u * 1e3 * mag(&poses[0])).powi(2);
    let edges = g.range(0, 5);
    for _ in 0..edges {
        let (a, b) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
        if a == b {
            continue;
        }
        let dim = if three { 6 } else { 3 };
        let info = gen_spd(g, dim, 0.3, 10.0);
        let half = dim / 2;
        let off: Vec<f64> = if three { let th = angle(g, 1.5); tangent::<SE3>(g, th, 1.0) } else { let th = angle(g, 1.5); tangent::<SE2>(g, th, 1.0) };
        let hat = if three { <SE3 as Var>::hat(&off) } else { <SE2 as Var>::hat(&off) };
        let z = poses[a].clone().try_inverse().unwrap() * &poses[b] * expm(&hat);
        // file order: translation first
        let perm: Vec<usize> = if three { vec![3, 4, 5, 0, 1, 2] } else { vec![2, 0, 1] };
        let _ = half;
        let (line, r) = if three {
            let q = mat_to_quat(&m3(&z));
            (format!("EDGE_SE3:QUAT {a} {b} {} {} {} {} {} {} {}", z[(0, 3)], z[(1, 3)], z[(2, 3)], q[0], q[1], q[2], q[3]), <SE3 as Var>::logm(&(poses[b].clone().try_inverse().unwrap() * &poses[a] * &z)))
        } else {
            (format!("EDGE_SE2 {a} {b} {} {} {}", z[(0, 2)], z[(1, 2)], ang(&z)), <SE2 as Var>::logm(&(poses[b].clone().try_inverse().unwrap() * &poses[a] * &z)))
        };
        text += &line;
        for i in 0..dim {
            for j in i..dim {
                text += &format!(" {}", info[(i, j)]);
            }
        }
        text += "\n";
        // ours[k] is the file's coordinate perm[k]
        let rv = V::from_vec(r);
        let mut mine = M::zeros(dim, dim);
        for i in 0..dim {
            for j in 0..dim {
                mine[(i, j)] = info[(perm[i], perm[j])];
            }
        }
        let d2 = (rv.transpose() * mine * &rv)[0];
        want += d2 / 2.0;
        let s = mag(&poses[a]) * mag(&poses[b]) * mag(&z);
        tol += (1.0 + d2.sqrt()) * EPS * s * 20.0 + (EPS * s * 20.0).powi(2);
    }
    note!(g, "{text}");
    let dir = std::env::temp_dir().join(format!("factrs-c26-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join("g.g2o");
    std::fs::write(&path, &text).map_err(|e| e.to_string())?;
    let out = no_panic(|| load_g20(path.to_str().unwrap()));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    let (graph, values) = out?;
    ensure!(values.len() == n, "{} values loaded, the file has {n}", values.len());
    for (i, m) in poses.iter().enumerate() {
        let got = if three { values.get_unchecked::<_, SE3>(X(i as u64)).map(Var::mat) } else { values.get_unchecked::<_, SE2>(X(i as u64)).map(Var::mat) };
        let Some(got) = got else { return Err(format!("vertex {i} is missing")) };
        ensure!(diff(&got, m) < EPS * mag(m), "vertex {i} is {got}, the file says {m}");
    }
    let e = d(graph.error(&values));
    ensure!((e - want).abs() <= tol, "error of the loaded graph {e}, specified {want} (tolerance {tol:e})");
    Ok(want > 0.0)
}

/// noise models and kernels over scales an application may use
fn weights_n<const N: usize>(g: &mut Gen) -> Outcome {
    let lo = g.logu(1e-4, 1e2);
    let dense = g.chance(1, 3);
    let spread = if dense { 3.0 } else { *g.pick(&[1.5, 30.0, 1e3]) };
    let mut s: Vec<f64> = rds(&(0..N).map(|_| g.logu(lo, lo * spread)).collect::<Vec<_>>());
    if g.chance(1, 4) {
        s = vec![s[0]; N];
    }
    let v = rds(&(0..N).map(|_| s[0] * g.logu(1e-2, 1e2) * g.sign()).collect::<Vec<_>>());
    let vec = |h: &dyn Fn(f64) -> f64| Vector::<N>::from_iterator(s.iter().map(|x| f(h(*x))));
    let quad = |h: &dyn Fn(f64) -> f64| (0..N).map(|i| v[i] * v[i] * h(s[i])).sum::<f64>();
    let kind = if dense { 10 + g.below(2) } else { g.below(5) };
    note!(g, "N = {N}, kind {kind}, sigmas {s:?}, v = {v:?}");
    // arguments are rounded to the build's type before they are used on either side
    let (n, want, tol): (GaussianNoise<N>, f64, f64) = match kind {
        0 => (GaussianNoise::from_scalar_sigma(f(s[0])), v.iter().map(|x| (x / s[0]).powi(2)).sum(), EPS),
        1 => (GaussianNoise::from_scalar_cov(f(s[0])), v.iter().map(|x| x * x / s[0]).sum(), EPS),
        2 => (GaussianNoise::from_vec_sigma(vec(&|x| x).as_view()), quad(&|x| 1.0 / (x * x)), EPS),
        3 => (GaussianNoise::from_vec_cov(vec(&|x| x).as_view()), quad(&|x| 1.0 / x), EPS),
        4 => (GaussianNoise::from_vec_inf(vec(&|x| x).as_view()), quad(&|x| x), EPS),
        k => {
            let c = gen_spd(g, N, lo, lo * spread).map(rd);
            let mv = Matrix::<N, N>::from_iterator(c.iter().map(|x| f(*x)));
            let vv = V::from_row_slice(&v);
            let tol = EPS * 10.0 * spread;
            if k == 10 {
                let y = c.clone().try_inverse().unwrap() * &vv;
                (GaussianNoise::from_matrix_cov(mv.as_view()), vv.dot(&y), tol)
            } else {
                (GaussianNoise::from_matrix_inf(mv.as_view()), (vv.transpose() * &c * &vv)[(0, 0)], tol)
            }
        }
    };
    let w = n.whiten_vec(vx(&v));
    let got: f64 = w.iter().map(|x| d(*x) * d(*x)).sum();
    ensure!((got - want).abs() <= tol * want, "squared norm of the whitened vector is {got}, specified {want}");
    let m = factrs::linalg::MatrixX::from_columns(&[vx(&v), vx(&v)]);
    let wm = n.whiten_mat(m);
    for k in 0..2 {
        let got: f64 = wm.column(k).iter().map(|x| d(*x) * d(*x)).sum();
        ensure!((got - want).abs() <= tol * want, "squared norm of whitened column {k} is {got}, specified {want}");
    }
    // kernels at and around their scale
    let c = rd(g.logu(1e-3, 1e3));
    let d2 = rd((c * g.logu(1e-2, 1e3)).powi(2));
    let x = d2.sqrt();
    let rob = 1 + g.below(8) as u8;
    let b: Box<dyn RobustCost> = match rob {
        1 => Box::new(L2),
        2 => Box::new(L1),
        3 => Box::new(Huber::new(f(c))),
        4 => Box::new(Fair::new(f(c))),
        5 => Box::new(Cauchy::new(f(c))),
        6 => Box::new(GemanMcClure::new(f(c))),
        7 => Box::new(Welsch::new(f(c))),
        _ => Box::new(Tukey::new(f(c))),
    };
    let name = ["", "L2", "L1", "Huber", "Fair", "Cauchy", "Geman-McClure", "Welsch", "Tukey"][rob as usize];
    let (l, wt) = (d(b.loss(f(d2))), d(b.weight(f(d2))));
    note!(g, "{name}({c}) at {x}: loss {l}, weight {wt}");
    let (want, weight) = Loss { noise: 0, sig: vec![], cov: M::zeros(0, 0), rob, c }.loss(d2);
    ensure!((l - want).abs() <= EPS * (want + if rob <= 2 { 0.0 } else { c * c + c * x }), "{name}({c}): loss({d2}) = {l}, documented {want}");
    if (x / c - 1.0).abs() > 1e-3 && !(rob == 2 && d2 <= 1.01e-3) {
        let slack = if rob >= 7 { EPS } else { 1e-30 };
        ensure!((wt - weight).abs() <= EPS * weight + slack, "{name}({c}): weight({d2}) = {wt}, influence over residual {weight}");
    }
    Ok(true)
}
fn weights(g: &mut Gen) -> Outcome {
    match g.below(5) {
        0 => weights_n::<1>(g),
        1 => weights_n::<2>(g),
        2 => weights_n::<3>(g),
        3 => weights_n::<6>(g),
        _ => weights_n::<9>(g),
    }
}

/// large graphs of dyadic numbers: exact in either precision
fn large(g: &mut Gen) -> Outcome {
    let (v, e) = *g.pick(&[(400, 400), (400, 4000), (5, 5000), (20_000, 10), (50, 75_000)]);
    harness::big::factors_case(g, v, e)
}

fn main() {
    let _ = A(0);
    harness::engine::main(Property {
        id: "C26",
        rule: "run once per configuration (f32, rayon). maps: compose, inverse, exp, log, moves and differences of every variable type over all angle classes against double-precision matrices; factors: residual, Jacobian, error and linearisation of prior and between factors with every noise constructor and kernel; linear: the three solvers on generated well-conditioned systems of 1..220 unknowns, repeated solves, several right-hand sides; assemble: systems of up to 120 vector priors and betweens with sigmas over 12 (f32) or 24 decades, entry by entry; optimise: consistent problems solved to the truth by every optimiser; file: loaded g2o numbers and error; large: error and assembled system of graphs of up to 75000 factors, exactly; weights: every noise constructor with standard deviations 1e-4..1e5 and every kernel with parameters 1e-3..1e3. Tolerances are multiples of the build's rounding. Non-trivial: nonzero tangent, residual, edge, start error, or more than one unknown.",
        assumptions: &["unit quaternions", "derivatives at rotation angles between 0.1 and 2.6", "well-conditioned linear systems"],
        subs: vec![sub("maps", 60_000, maps), sub("factors", 12_000, factors), sub("linear", 6_000, linear), sub("optimise", 6_000, optimise), sub("small", 20_000, small), sub("assemble", 10_000, assemble), sub("file", 3_000, file), sub("weights", 60_000, weights), sub("large", 100, large)],
    });
}
