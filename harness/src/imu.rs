//! IMU preintegration, written down from the theory in the module's documentation with plain matrices.
use crate::{engine::*, geom::*, res::raw, vars::*};
use factrs::{
    containers::{Factor, Key, Values},
    linalg::Vector3 as FV3,
    residuals::{Accel, Gravity, Gyro, ImuCovariance, ImuPreintegrator},
    variables::{ImuBias, VectorVar3, SE3},
};
use nalgebra::{Matrix3, Vector3};

pub type V3 = Vector3<f64>;
pub type M3 = Matrix3<f64>;

pub fn hat(w: &V3) -> M3 {
    M3::new(0.0, -w[2], w[1], w[2], 0.0, -w[0], -w[1], w[0], 0.0)
}
pub fn rexp(w: &V3) -> M3 {
    rot3(w.as_slice())
}
/// right Jacobian of the rotation exponential
pub fn jr(w: &V3) -> M3 {
    let m = phi1(&(-hat3(w.as_slice())));
    M3::from_iterator(m.iter().cloned())
}
fn v3(g: &mut Gen, s: f64) -> V3 {
    V3::new(g.sym(s), g.sym(s), g.sym(s))
}
fn fv(v: &V3) -> FV3 {
    FV3::new(v[0], v[1], v[2])
}
fn m3(m: &M) -> M3 {
    M3::from_iterator(m.iter().cloned())
}

#[derive(Clone, Debug)]
pub struct State {
    pub r: M3,
    pub p: V3,
    pub v: V3,
    pub bg: V3,
    pub ba: V3,
}
impl State {
    pub fn gen(g: &mut Gen, tr: f64, bias: f64) -> State {
        let ang = g.uniform(0.0, 3.0);
        let ax = gen_axis(g);
        State { r: rexp(&(V3::new(ax[0], ax[1], ax[2]) * ang)), p: v3(g, tr), v: v3(g, tr.min(30.0)), bg: v3(g, bias), ba: v3(g, bias) }
    }
    pub fn pose(&self) -> SE3 {
        let mut m = M::identity(4, 4);
        m.view_mut((0, 0), (3, 3)).copy_from(&self.r);
        m.view_mut((0, 3), (3, 1)).copy_from(&self.p);
        SE3::from_mat_ref(&m)
    }
    pub fn bias(&self) -> ImuBias {
        ImuBias::new(Gyro(fv(&self.bg)), Accel(fv(&self.ba)))
    }
    /// configured perturbation of variable `which` (0 pose, 1 velocity, 2 bias) along coordinate k
    pub fn bump(&self, which: usize, k: usize, h: f64) -> State {
        let mut s = self.clone();
        match which {
            0 => {
                let mut xi = vec![0.0; 6];
                xi[k] = h;
                let e = SE3::exp_ref(&xi);
                let (er, ep) = (M3::from_fn(|i, j| e[(i, j)]), V3::new(e[(0, 3)], e[(1, 3)], e[(2, 3)]));
                if cfg!(feature = "left") {
                    s.r = er * self.r;
                    s.p = ep + er * self.p;
                } else {
                    s.r = self.r * er;
                    s.p = self.p + self.r * ep;
                }
            }
            1 => s.v[k] += h,
            _ => {
                if k < 3 {
                    s.bg[k] += h
                } else {
                    s.ba[k - 3] += h
                }
            }
        }
        s
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    pub accel: M3,
    pub gyro: M3,
    pub accel_bias: M3,
    pub gyro_bias: M3,
    pub integ: M3,
    pub winit: M3,
    pub ainit: M3,
    /// in the order they are written: which quantity, and whether through the scalar setter
    pub script: Vec<(u8, bool)>,
}
impl Params {
    pub fn gen(g: &mut Gen) -> Params {
        // all through scalar setters, all as matrices, or mixed; in any order
        let style = g.below(3);
        let scalar: Vec<bool> = (0..6).map(|_| match style { 0 => true, 1 => false, _ => g.bool() }).collect();
        let mut one = |sc: bool, lo: f64, hi: f64| -> M3 {
            let s = g.logu(lo, hi);
            if sc {
                M3::identity() * s
            } else {
                m3(&(gen_spd(g, 3, 0.3, 3.0) * s))
            }
        };
        let accel = one(scalar[0], 1e-3, 1e-1);
        let gyro = one(scalar[1], 1e-3, 1e-1);
        let accel_bias = one(scalar[2], 1e-5, 1e-3);
        let gyro_bias = one(scalar[3], 1e-5, 1e-3);
        let integ = one(scalar[4], 1e-6, 1e-4);
        let winit = one(scalar[5], 1e-4, 1e-1);
        let ainit = if scalar[5] { winit } else { one(false, 1e-4, 1e-1) };
        let mut script: Vec<(u8, bool)> = scalar.iter().enumerate().map(|(i, s)| (i as u8, *s)).collect();
        g.shuffle(&mut script);
        Params { accel, gyro, accel_bias, gyro_bias, integ, winit, ainit, script }
    }
    pub fn build(&self) -> ImuCovariance {
        let mut c = ImuCovariance::default();
        for s in &self.script {
            match *s {
                (0, true) => c.set_scalar_accel(self.accel[(0, 0)]),
                (1, true) => c.set_scalar_gyro(self.gyro[(0, 0)]),
                (2, true) => c.set_scalar_accel_bias(self.accel_bias[(0, 0)]),
                (3, true) => c.set_scalar_gyro_bias(self.gyro_bias[(0, 0)]),
                (4, true) => c.set_scalar_integration(self.integ[(0, 0)]),
                (_, true) => c.set_scalar_init(self.winit[(0, 0)]),
                (0, _) => c.cov_accel = self.accel,
                (1, _) => c.cov_gyro = self.gyro,
                (2, _) => c.cov_accel_bias = self.accel_bias,
                (3, _) => c.cov_gyro_bias = self.gyro_bias,
                (4, _) => c.cov_integration = self.integ,
                _ => {
                    c.cov_winit = self.winit;
                    c.cov_ainit = self.ainit;
                }
            }
        }
        c
    }
}

#[derive(Clone, Debug)]
pub struct Delta {
    pub dt: f64,
    pub th: V3,
    pub v: V3,
    pub p: V3,
    /// derivative of (th, v, p) with respect to the gyro and accelerometer bias
    pub hg: M,
    pub ha: M,
    pub sigma: M,
}

#[derive(Clone, Debug)]
pub struct Imu {
    pub params: Params,
    pub bg: V3,
    pub ba: V3,
    pub gravity: V3,
    pub meas: Vec<(V3, V3, f64)>,
}
impl Imu {
    pub fn gen_gravity(g: &mut Gen) -> V3 {
        match g.below(5) {
            0 | 1 => V3::new(0.0, 0.0, -9.81),
            2 => V3::new(0.0, 0.0, 9.81),
            3 => V3::zeros(),
            _ => v3(g, 10.0),
        }
    }
    /// rotation accumulated stays well below 2 pi
    pub fn gen(g: &mut Gen, max_steps: usize) -> Imu {
        let params = Params::gen(g);
        let bias = if g.chance(1, 4) { 0.0 } else { g.logu(1e-3, 0.5) };
        let (bg, ba) = (v3(g, bias), v3(g, bias));
        let gravity = Imu::gen_gravity(g);
        let n = if g.chance(1, 40) { g.range(max_steps, max_steps * 8) } else { g.range(0, max_steps) };
        let base_dt = if g.chance(1, 6) && n <= max_steps { g.logu(2e-4, 0.4) } else { g.logu(1e-3, 0.1) };
        let vary = g.bool();
        let wmax = (3.0 / (base_dt * 1.7 * 1.75 * (n.max(1) as f64))).min(6.0);
        let hold = g.chance(1, 3);
        let mut meas = vec![];
        let mut cur = (v3(g, wmax), v3(g, 20.0));
        // structured sequences: no rotation, rotation about one axis, no acceleration, turning back and forth
        let style = g.below(12);
        for _ in 0..n {
            if !hold {
                cur = (v3(g, wmax), v3(g, 20.0));
            }
            match style {
                0 => cur.0 = V3::zeros(),
                1 => {
                    cur.0[0] = 0.0;
                    cur.0[1] = 0.0;
                }
                2 => cur.1 = ba,
                3 => cur.0 = -cur.0,
                4 if g.chance(1, 3) => cur = (V3::zeros(), V3::zeros()),
                _ => {}
            }
            let dt = if vary { base_dt * g.uniform(0.3, 1.7) } else { base_dt };
            let dt = if style == 5 && g.chance(1, 4) { 0.0 } else { dt };
            meas.push((cur.0 + bg, cur.1, dt));
        }
        Imu { params, bg, ba, gravity, meas }
    }
    pub fn integrator(&self) -> ImuPreintegrator {
        let gravity = match (self.gravity[0], self.gravity[1], self.gravity[2]) {
            (0.0, 0.0, 9.81) => Gravity::up(),
            (0.0, 0.0, -9.81) => Gravity::down(),
            _ => Gravity(fv(&self.gravity)),
        };
        let gyro = if self.bg == V3::zeros() { Gyro::zeros() } else { Gyro(fv(&self.bg)) };
        let accel = if self.ba == V3::zeros() { Accel::zeros() } else { Accel(fv(&self.ba)) };
        ImuPreintegrator::new(self.params.build(), ImuBias::new(gyro, accel), gravity)
    }
    pub fn feed(&self, p: &mut ImuPreintegrator, from: usize, to: usize) {
        for (w, a, dt) in &self.meas[from..to] {
            p.integrate(&Gyro::new(w[0], w[1], w[2]), &Accel::new(a[0], a[1], a[2]), *dt);
        }
    }
    pub fn factor(&self, keys: &[Key]) -> Factor {
        let mut p = self.integrator();
        self.feed(&mut p, 0, self.meas.len());
        p.build_unchecked(raw(keys[0]), raw(keys[1]), raw(keys[2]), raw(keys[3]), raw(keys[4]), raw(keys[5]))
    }
    /// the documented recursion
    pub fn delta(&self) -> Delta {
        let mut d = Delta { dt: 0.0, th: V3::zeros(), v: V3::zeros(), p: V3::zeros(), hg: M::zeros(9, 3), ha: M::zeros(9, 3), sigma: M::identity(15, 15) * 1e-14 };
        let q = &self.params;
        for (w, a, dt) in &self.meas {
            let (w, a, dt) = (w - self.bg, a - self.ba, *dt);
            let r = rexp(&d.th);
            let h = jr(&d.th);
            let hi = h.try_inverse().expect("H(theta)");
            let mut am = M::identity(15, 15);
            let mut put = |m: &mut M, i: usize, j: usize, b: &M3| m.view_mut((i, j), (3, 3)).copy_from(b);
            put(&mut am, 0, 0, &(M3::identity() - hat(&w) * (dt / 2.0)));
            put(&mut am, 3, 0, &(-r * hat(&a) * h * dt));
            put(&mut am, 6, 0, &(-r * hat(&a) * h * (dt * dt / 2.0)));
            put(&mut am, 6, 3, &(M3::identity() * dt));
            put(&mut am, 0, 9, &(-hi * dt));
            put(&mut am, 3, 12, &(-r * dt));
            put(&mut am, 6, 12, &(-r * (dt * dt / 2.0)));
            // noise inputs: gyro, accel, gyro bias, accel bias, integration, initial gyro bias, initial accel bias
            let mut b = M::zeros(15, 21);
            put(&mut b, 0, 0, &(hi * dt));
            put(&mut b, 3, 3, &(r * dt));
            put(&mut b, 6, 3, &(r * (dt * dt / 2.0)));
            put(&mut b, 9, 6, &M3::identity());
            put(&mut b, 12, 9, &M3::identity());
            put(&mut b, 6, 12, &M3::identity());
            put(&mut b, 0, 15, &(-hi * dt));
            put(&mut b, 3, 18, &(-r * dt));
            put(&mut b, 6, 18, &(-r * (dt * dt / 2.0)));
            let mut qq = M::zeros(21, 21);
            for (i, c) in [&q.gyro, &q.accel, &q.gyro_bias, &q.accel_bias, &q.integ, &q.winit, &q.ainit].iter().enumerate() {
                qq.view_mut((3 * i, 3 * i), (3, 3)).copy_from(*c);
            }
            d.sigma = &am * &d.sigma * am.transpose() + &b * qq * b.transpose();
            let a9 = am.view((0, 0), (9, 9)).into_owned();
            d.hg = &a9 * &d.hg + am.view((0, 9), (9, 3));
            d.ha = &a9 * &d.ha + am.view((0, 12), (9, 3));
            d.p += d.v * dt + r * a * (dt * dt / 2.0);
            d.v += r * a * dt;
            d.th += hi * w * dt;
            d.dt += dt;
        }
        d
    }
    pub fn predict(&self, d: &Delta, s: &State) -> State {
        let dg = M::from_column_slice(3, 1, (s.bg - self.bg).as_slice());
        let da = M::from_column_slice(3, 1, (s.ba - self.ba).as_slice());
        let c = &d.hg * dg + &d.ha * da;
        let at = |i: usize| V3::new(c[i], c[i + 1], c[i + 2]);
        let (th, v, p) = (d.th + at(0), d.v + at(3), d.p + at(6));
        State { r: s.r * rexp(&th), v: s.v + self.gravity * d.dt + s.r * v, p: s.p + s.v * d.dt + self.gravity * (d.dt * d.dt / 2.0) + s.r * p, bg: s.bg, ba: s.ba }
    }
    /// predicted minus actual: rotation, velocity, position (in the frame of the first pose, where the covariance lives), biases
    pub fn residual(&self, d: &Delta, s1: &State, s2: &State) -> V {
        let m = self.predict(d, s1);
        let rr = log3(&(s2.r.transpose() * m.r));
        let rv = s1.r.transpose() * (m.v - s2.v);
        let rp = s1.r.transpose() * (m.p - s2.p);
        let mut o = V::zeros(15);
        for (i, x) in [rr, rv, rp, m.bg - s2.bg, m.ba - s2.ba].iter().enumerate() {
            o.view_mut((3 * i, 0), (3, 1)).copy_from(x);
        }
        o
    }
    /// derivative of the residual with respect to the second state's pose, velocity and bias, in closed form
    pub fn jac2(&self, r: &V, s1: &State, s2: &State) -> M {
        let w = V3::new(r[0], r[1], r[2]);
        let mut j = M::zeros(15, 15);
        // log(exp(-d) E): minus the inverse left Jacobian
        let jl = jr(&-w).try_inverse().unwrap();
        j.view_mut((0, 0), (3, 3)).copy_from(&-jl);
        j.view_mut((6, 3), (3, 3)).copy_from(&-(s1.r.transpose() * s2.r));
        j.view_mut((3, 6), (3, 3)).copy_from(&-s1.r.transpose());
        j.view_mut((9, 9), (6, 6)).copy_from(&-M::identity(6, 6));
        j
    }
    /// and with respect to the first state, by differences
    pub fn jac1(&self, d: &Delta, s1: &State, s2: &State) -> M {
        let mut j = M::zeros(15, 15);
        for (which, off, n) in [(0usize, 0usize, 6usize), (1, 6, 3), (2, 9, 6)] {
            for k in 0..n {
                let c = crate::funcs::fd6(|h| self.residual(d, &s1.bump(which, k, h), s2), 2e-3);
                j.set_column(off + k, &c);
            }
        }
        j
    }
}
pub fn insert(v: &mut Values, keys: &[Key], s1: &State, s2: &State) {
    for (i, s) in [s1, s2].iter().enumerate() {
        v.insert_unchecked(raw(keys[3 * i]), s.pose());
        v.insert_unchecked(raw(keys[3 * i + 1]), VectorVar3::new(s.v[0], s.v[1], s.v[2]));
        v.insert_unchecked(raw(keys[3 * i + 2]), s.bias());
    }
}
/// whitened Jacobian (15 x 30, blocks in key order) and right-hand side
pub fn linear(f: &Factor, v: &Values) -> Result<(M, V), String> {
    let l = f.linearize(v);
    let a = l.a.mat();
    if a.nrows() != 15 || a.ncols() != 30 || l.b.len() != 15 {
        return Err(format!("the linearised IMU factor is {}x{} with {} rows of right-hand side", a.nrows(), a.ncols(), l.b.len()));
    }
    Ok((M::from_iterator(15, 30, a.iter().cloned()), V::from_iterator(15, l.b.iter().cloned())))
}
/// the unwhitened residual of the factor, using the closed-form Jacobian of the second state to undo the weighting
pub fn unwhiten(a: &M, b: &V, jac2: &M) -> Option<(M, V, M)> {
    let w = a.columns(15, 15) * jac2.clone().try_inverse()?;
    let wi = w.clone().try_inverse()?;
    let r = -(&wi * b);
    let j1 = &wi * a.columns(0, 15);
    Some((w, r, j1))
}
