//! C21: IMU factors are physically consistent.
use factrs::containers::{Key, Values};
use harness::{engine::*, ensure, geom::*, imu::*, note, res::gen_keys};

/// the factor's residual, its weighting undone
fn unweighted(imu: &Imu, keys: &[Key], s1: &State, s2: &State) -> Result<V, String> {
    let f = imu.factor(keys);
    let mut v = Values::new();
    insert(&mut v, keys, s1, s2);
    let (a, b) = linear(&f, &v)?;
    // closed-form Jacobian around the actual rotation mismatch
    let d = imu.delta();
    let r = imu.residual(&d, s1, s2);
    unwhiten(&a, &b, &imu.jac2(&r, s1, s2)).map(|x| x.1).ok_or_else(|| "singular weighting".to_string())
}
fn unit(g: &mut Gen) -> V3 {
    let a = gen_axis(g);
    V3::new(a[0], a[1], a[2])
}
fn vec(g: &mut Gen, s: f64) -> V3 {
    V3::new(g.sym(s), g.sym(s), g.sym(s))
}

/// A smooth motion with exact derivatives: R(t) = R0 Exp(u alpha(t)) Exp(w beta(t)), p(t) = quadratic + sinusoids
struct Motion {
    r0: M3,
    u: V3,
    w: V3,
    al: [f64; 3],
    be: [f64; 3],
    p: [V3; 3],
    amp: V3,
    freq: f64,
}
impl Motion {
    fn gen(g: &mut Gen) -> Motion {
        let r0 = rexp(&(unit(g) * g.uniform(0.0, 3.0)));
        let still = g.chance(1, 6);
        let k = if still { 0.0 } else { 1.0 };
        Motion {
            r0,
            u: unit(g),
            w: unit(g),
            al: [g.sym(1.0) * k, g.sym(0.5) * k, g.uniform(0.5, 3.0)],
            be: [g.sym(1.0) * k, g.sym(0.5) * k, g.uniform(0.5, 3.0)],
            p: [vec(g, 20.0), vec(g, 5.0), vec(g, 2.0)],
            amp: vec(g, 0.7),
            freq: g.uniform(0.5, 3.0),
        }
    }
    fn ang(c: &[f64; 3], t: f64) -> (f64, f64) {
        (c[0] * t + c[1] * (c[2] * t).sin(), c[0] + c[1] * c[2] * (c[2] * t).cos())
    }
    fn rot(&self, t: f64) -> M3 {
        self.r0 * rexp(&(self.u * Self::ang(&self.al, t).0)) * rexp(&(self.w * Self::ang(&self.be, t).0))
    }
    fn omega(&self, t: f64) -> V3 {
        let (b, bd) = Self::ang(&self.be, t);
        rexp(&(self.w * b)).transpose() * self.u * Self::ang(&self.al, t).1 + self.w * bd
    }
    fn pos(&self, t: f64) -> V3 {
        self.p[0] + self.p[1] * t + self.p[2] * (t * t) + self.amp * (self.freq * t).sin()
    }
    fn vel(&self, t: f64) -> V3 {
        self.p[1] + self.p[2] * (2.0 * t) + self.amp * (self.freq * (self.freq * t).cos())
    }
    fn acc(&self, t: f64) -> V3 {
        self.p[2] * 2.0 - self.amp * (self.freq * self.freq * (self.freq * t).sin())
    }
}

fn converge(g: &mut Gen) -> Outcome {
    g.hash_order();
    let m = Motion::gen(g);
    let params = Params::gen(g);
    let gravity = Imu::gen_gravity(g);
    let bias = if g.bool() { 0.0 } else { 0.3 };
    let (bg, ba) = (vec(g, bias), vec(g, bias));
    let t0 = g.uniform(0.0, 2.0);
    let len = g.uniform(0.2, 1.0);
    let keys = gen_keys(g, 6);
    note!(g, "R(0)={:?} u={:?} w={:?} alpha={:?} beta={:?}", m.r0.as_slice(), m.u.as_slice(), m.w.as_slice(), m.al, m.be);
    note!(g, "p={:?} amplitude={:?} frequency={} from {t0} for {len} s, gravity {:?} bias {:?} {:?}", m.p, m.amp.as_slice(), m.freq, gravity.as_slice(), bg.as_slice(), ba.as_slice());
    let state = |t: f64| State { r: m.rot(t), p: m.pos(t), v: m.vel(t), bg, ba };
    let (s1, s2) = (state(t0), state(t0 + len));
    let mut rs = vec![];
    for n in [40usize, 80, 160] {
        let dt = len / n as f64;
        let meas = (0..n)
            .map(|i| {
                let t = t0 + i as f64 * dt;
                (m.omega(t) + bg, m.rot(t).transpose() * (m.acc(t) - gravity) + ba, dt)
            })
            .collect();
        let imu = Imu { params: params.clone(), bg, ba, gravity, meas };
        rs.push(unweighted(&imu, &keys, &s1, &s2)?);
    }
    let size = |r: &V| maxabs(r.iter());
    // two extrapolation steps remove the first- and second-order parts; what remains is the limit
    let limit = (&rs[0] - &rs[1] * 6.0 + &rs[2] * 8.0) / 3.0;
    note!(g, "residual sizes {:e} {:e} {:e}, limit {:e}", size(&rs[0]), size(&rs[1]), size(&rs[2]), size(&limit));
    ensure!(size(&limit) < 2e-4, "the residual at the true states tends to {:?} as the sampling interval shrinks", limit.as_slice());
    ensure!(size(&rs[2]) <= 0.4 * size(&rs[0]) + 1e-5, "the residual at the true states does not shrink: {:e}, {:e}, {:e}", size(&rs[0]), size(&rs[1]), size(&rs[2]));
    ensure!(size(&rs[2]) <= 1.0, "the residual at the true states is {:?}", rs[2].as_slice());
    Ok(size(&rs[0]) > 1e-9)
}

fn invariance(g: &mut Gen) -> Outcome {
    g.hash_order();
    let mut imu = Imu::gen(g, 15);
    let d = imu.delta();
    let tr = g.logu(0.1, 20.0);
    let s1 = State::gen(g, tr, 0.3);
    let mut s2 = imu.predict(&d, &s1);
    s2.r *= rexp(&(unit(g) * g.uniform(0.0, 2.5)));
    s2.p += vec(g, 1.0);
    s2.v += vec(g, 1.0);
    s2.bg += vec(g, 0.1);
    s2.ba += vec(g, 0.1);
    let keys = gen_keys(g, 6);
    let kind = g.below(4);
    let q = match kind {
        0 => M3::identity(),
        1 => {
            imu.gravity = V3::zeros();
            rexp(&(unit(g) * g.uniform(0.1, 3.0)))
        }
        _ => {
            let n = imu.gravity.norm();
            let ax = if n > 1e-6 { imu.gravity / n } else { unit(g) };
            rexp(&(ax * g.uniform(0.1, 3.0)))
        }
    };
    let t = vec(g, 50.0);
    let u = if kind == 2 { V3::zeros() } else { vec(g, 10.0) };
    g.class(["translation and velocity change", "no gravity, any rotation", "rotation about gravity", "all together"][kind as usize]);
    let dt: f64 = imu.meas.iter().map(|m| m.2).sum();
    let mv = |s: &State, at: f64| State { r: q * s.r, p: q * s.p + t + u * at, v: q * s.v + u, bg: s.bg, ba: s.ba };
    let (m1, m2) = (mv(&s1, 0.0), mv(&s2, dt));
    note!(g, "{} measurements over {dt} s, gravity {:?}, moved by {:?} {:?} {:?}", imu.meas.len(), imu.gravity.as_slice(), q.as_slice(), t.as_slice(), u.as_slice());
    note!(g, "state 1 {s1:?}");
    note!(g, "state 2 {s2:?}");
    let f = imu.factor(&keys);
    let at = |a: &State, b: &State| {
        let mut v = Values::new();
        insert(&mut v, &keys, a, b);
        f.error(&v)
    };
    let (e1, e2) = (at(&s1, &s2), at(&m1, &m2));
    let ext = 100.0 + maxabs(s1.p.iter()) + maxabs(s2.p.iter()) + maxabs(s1.v.iter()) + maxabs(s2.v.iter());
    let d = imu.delta();
    let sd = d.sigma.clone().symmetric_eigen().eigenvalues.min().max(1e-15).sqrt();
    let dr = 1e-12 * ext;
    let tol = 1e-7 * e1 + (dr / sd) * (2.0 * e1).sqrt() + (dr / sd).powi(2) + 1e-12;
    note!(g, "error {e1} and {e2}");
    ensure!((e1 - e2).abs() <= tol, "the error changed from {e1} to {e2} (tolerance {tol:e}) when all states were moved together");
    Ok(!imu.meas.is_empty())
}

/// moving the first bias state changes the residual as re-integrating with that bias would
fn bias(g: &mut Gen) -> Outcome {
    g.hash_order();
    let mut imu = Imu::gen(g, 15);
    if imu.meas.is_empty() {
        return Ok(false);
    }
    let gyro = g.bool();
    g.class(if gyro { "gyro bias" } else { "accelerometer bias" });
    // the gyro correction is documented as an approximation for small accumulated rotations
    let total: f64 = imu.meas.iter().map(|m| (m.0 - imu.bg).norm() * m.2).sum();
    let mut th = total;
    if gyro && total > 0.05 {
        let s = 0.05 / total;
        for m in imu.meas.iter_mut() {
            m.0 = imu.bg + (m.0 - imu.bg) * s;
        }
        th = 0.05;
    }
    let dt: f64 = imu.meas.iter().map(|m| m.2).sum();
    let tr = g.logu(0.1, 20.0);
    let mut s1 = State::gen(g, tr, 0.0);
    s1.bg = imu.bg;
    s1.ba = imu.ba;
    let d = imu.delta();
    let mut s2 = imu.predict(&d, &s1);
    s2.p += vec(g, 1.0);
    s2.v += vec(g, 1.0);
    let keys = gen_keys(g, 6);
    // a change that rotates by at most 1e-3 over the interval
    let step = unit(g) * if gyro { 1e-3 / dt.max(0.1) } else { g.logu(1e-5, 1.0) };
    let mut again = imu.clone();
    let (mut n1, mut n2) = (s1.clone(), s2.clone());
    if gyro {
        again.bg += step;
        n1.bg += step;
        n2.bg += step;
    } else {
        again.ba += step;
        n1.ba += step;
        n2.ba += step;
    }
    note!(g, "{} measurements over {dt} s turning {th} rad, bias change {:?}", imu.meas.len(), step.as_slice());
    let base = unweighted(&imu, &keys, &s1, &s2)?;
    let corrected = unweighted(&imu, &keys, &n1, &n2)?;
    let integrated = unweighted(&again, &keys, &n1, &n2)?;
    let change = maxabs((&integrated - &base).iter());
    let e = vdiff(corrected.as_slice(), integrated.as_slice());
    note!(g, "change {change:e}, correction off by {e:e}");
    let amax = imu.meas.iter().map(|m| (m.1 - imu.ba).norm()).fold(1.0, f64::max);
    let tol = if gyro { (th + 5e-3) * step.norm() * (dt + amax * dt * dt) + 1e-8 } else { 1e-7 * (1.0 + tr) };
    ensure!(e <= tol, "correcting for the bias change gives {:?}, integrating again {:?} (off by {e:e}, tolerance {tol:e})", corrected.as_slice(), integrated.as_slice());
    Ok(change > 1e-7)
}

/// a motion that is integrated exactly (no turning, or turning about the direction of the specific force), however long it takes
fn exact(g: &mut Gen) -> Outcome {
    g.hash_order();
    let mut imu = Imu::gen(g, 4);
    let total = g.logu(0.01, 40.0);
    let n = (total / g.logu(0.02, 0.25)).ceil().min(400.0) as usize;
    let turning = g.chance(1, 3);
    let ax = unit(g);
    let rate = g.sym(2.5) / total;
    let tr = g.logu(0.1, 20.0);
    let s1 = { let mut s = State::gen(g, tr, 0.0); s.bg = imu.bg; s.ba = imu.ba; s };
    let mut s2 = s1.clone();
    imu.meas.clear();
    let vary = g.bool();
    let coast = g.chance(1, 4);
    let mut reach = 1.0;
    for _ in 0..n {
        let dt = total / n as f64 * if vary { g.uniform(0.3, 1.7) } else { 1.0 };
        let (w, f) = if turning { (ax * rate, ax * g.sym(10.0)) } else { (V3::zeros(), vec(g, 10.0)) };
        let f = if coast { V3::zeros() } else { f };
        imu.meas.push((w + imu.bg, f + imu.ba, dt));
        let acc = s2.r * f + imu.gravity;
        s2.p += s2.v * dt + acc * (dt * dt / 2.0);
        s2.v += acc * dt;
        s2.r *= rexp(&(w * dt));
        reach = f64::max(reach, maxabs(s2.p.iter()) + maxabs(s2.v.iter()) * (1.0 + total));
    }
    let (dp, dv) = (vec(g, 1.0), vec(g, 1.0));
    s2.p += dp;
    s2.v += dv;
    let keys = gen_keys(g, 6);
    note!(g, "{n} measurements over {total} s, gravity {:?}, turning {turning}", imu.gravity.as_slice());
    note!(g, "state 1 {s1:?}");
    note!(g, "state 2 {s2:?}");
    let r = unweighted(&imu, &keys, &s1, &s2)?;
    // residual: rotation, velocity, position, gyro bias, accelerometer bias
    let mut want = V::zeros(15);
    want.rows_mut(3, 3).copy_from(&(s1.r.transpose() * dv));
    want.rows_mut(6, 3).copy_from(&(s1.r.transpose() * dp));
    let off = vdiff(r.as_slice(), want.as_slice()).min(vdiff((-&r).as_slice(), want.as_slice()));
    note!(g, "residual {:?}, expected {:?} (off by {off:e}, reach {reach:e})", r.as_slice(), want.as_slice());
    ensure!(off <= 1e-7 * reach, "an exactly integrated motion over {total} s has residual {:?}, expected {:?}", r.as_slice(), want.as_slice());
    g.class(if total > 5.0 { "long interval" } else { "short interval" });
    Ok(true)
}

fn main() {
    harness::engine::main(Property {
        id: "C21",
        rule: "converge: the motion is not integrated exactly already; invariance: at least one measurement; bias: re-integrating changes the residual by more than 1e-7; exact: always (motions without turning, or turning about the specific force, over 0.01..40 s)",
        assumptions: &["motions are sums of polynomials and sinusoids of at most 3 rad/s over at most one second, sampled 40, 80 and 160 times; the limit is estimated by extrapolation", "gyro bias corrections are compared for accumulated rotations up to 0.05 rad, where the documented approximation holds"],
        subs: vec![sub("converge", 2500, converge), sub("invariance", 25000, invariance), sub("bias", 8000, bias), sub("exact", 8000, exact)],
    });
}
