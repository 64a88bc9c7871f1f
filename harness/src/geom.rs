//! Independent reference mathematics (dense, straightforward) and geometric generators.
use crate::engine::Gen;
use nalgebra::{DMatrix, DVector, Matrix3, Vector3};
use std::f64::consts::PI;

pub type M = DMatrix<f64>;
pub type V = DVector<f64>;

/// Matrix exponential: scaling and squaring of a Taylor series.
pub fn expm(a: &M) -> M {
    let n = a.nrows();
    let norm = a.iter().fold(0.0f64, |m, x| m.max(x.abs())) * n as f64;
    let mut s = 0;
    let mut sc = norm;
    while sc > 0.25 {
        sc /= 2.0;
        s += 1;
    }
    let a = a / 2f64.powi(s);
    let mut term = M::identity(n, n);
    let mut sum = M::identity(n, n);
    for k in 1..=18 {
        term = &term * &a / k as f64;
        sum += &term;
    }
    for _ in 0..s {
        sum = &sum * &sum;
    }
    sum
}

/// integral_0^1 expm(s A) ds  (the "left Jacobian" when A = ad)
pub fn phi1(a: &M) -> M {
    let n = a.nrows();
    let mut big = M::zeros(2 * n, 2 * n);
    big.view_mut((0, 0), (n, n)).copy_from(a);
    big.view_mut((0, n), (n, n)).fill_with_identity();
    expm(&big).view((0, n), (n, n)).into_owned()
}

pub fn hat3(w: &[f64]) -> M {
    M::from_row_slice(3, 3, &[0.0, -w[2], w[1], w[2], 0.0, -w[0], -w[1], w[0], 0.0])
}

/// Rodrigues, computed without cancellation
pub fn rot3(w: &[f64]) -> Matrix3<f64> {
    let th = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let k = hat3(w);
    let k = Matrix3::from_iterator(k.iter().cloned());
    if th < 1e-8 {
        return Matrix3::identity() + k + k * k * 0.5;
    }
    let s = th.sin() / th;
    let h = (th / 2.0).sin() / (th / 2.0);
    Matrix3::identity() + k * s + k * k * (0.5 * h * h)
}

/// Unit quaternion (x,y,z,w) of the rotation vector
pub fn quat(w: &[f64]) -> [f64; 4] {
    let th = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let s = if th < 1e-8 { 0.5 - th * th / 48.0 } else { (th / 2.0).sin() / th };
    let mut q = [w[0] * s, w[1] * s, w[2] * s, (th / 2.0).cos()];
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.iter_mut().for_each(|x| *x /= n);
    q
}

/// Rotation matrix of a unit quaternion, written as R = (w^2 - v.v) I + 2 v v^T + 2 w [v]x
pub fn quat_to_mat(q: &[f64]) -> Matrix3<f64> {
    let v = Vector3::new(q[0], q[1], q[2]);
    let w = q[3];
    let k = hat3(&[q[0], q[1], q[2]]);
    let k = Matrix3::from_iterator(k.iter().cloned());
    Matrix3::identity() * (w * w - v.dot(&v)) + v * v.transpose() * 2.0 + k * (2.0 * w)
}

/// Quaternion of a rotation matrix (largest component first; Shepperd)
pub fn mat_to_quat(r: &Matrix3<f64>) -> [f64; 4] {
    let t = r.trace();
    let cand = [r[(0, 0)], r[(1, 1)], r[(2, 2)], t];
    let k = (0..4).max_by(|a, b| cand[*a].partial_cmp(&cand[*b]).unwrap()).unwrap();
    let mut q = match k {
        3 => [r[(2, 1)] - r[(1, 2)], r[(0, 2)] - r[(2, 0)], r[(1, 0)] - r[(0, 1)], 1.0 + t],
        0 => [1.0 + 2.0 * r[(0, 0)] - t, r[(0, 1)] + r[(1, 0)], r[(0, 2)] + r[(2, 0)], r[(2, 1)] - r[(1, 2)]],
        1 => [r[(0, 1)] + r[(1, 0)], 1.0 + 2.0 * r[(1, 1)] - t, r[(1, 2)] + r[(2, 1)], r[(0, 2)] - r[(2, 0)]],
        _ => [r[(0, 2)] + r[(2, 0)], r[(1, 2)] + r[(2, 1)], 1.0 + 2.0 * r[(2, 2)] - t, r[(1, 0)] - r[(0, 1)]],
    };
    let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
    q.iter_mut().for_each(|x| *x /= n);
    q
}

/// Principal rotation vector of a rotation matrix
pub fn log3(r: &Matrix3<f64>) -> Vector3<f64> {
    let mut q = mat_to_quat(r);
    if q[3] < 0.0 {
        q.iter_mut().for_each(|x| *x = -*x);
    }
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
    let f = if n < 1e-9 { 2.0 } else { 2.0 * n.atan2(q[3]) / n };
    Vector3::new(q[0], q[1], q[2]) * f
}

pub fn maxabs<'a>(it: impl IntoIterator<Item = &'a f64>) -> f64 {
    it.into_iter().fold(0.0, |m: f64, x| if x.is_finite() { m.max(x.abs()) } else { f64::INFINITY })
}

/// Largest absolute entry difference; infinite for NaN or a shape mismatch
pub fn diff(a: &M, b: &M) -> f64 {
    if a.shape() != b.shape() {
        return f64::INFINITY;
    }
    let mut m = 0.0f64;
    for (x, y) in a.iter().zip(b.iter()) {
        let d = (x - y).abs();
        if !(d.is_finite()) {
            return f64::INFINITY;
        }
        m = m.max(d);
    }
    m
}
pub fn vdiff(a: &[f64], b: &[f64]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    diff(&M::from_column_slice(a.len(), 1, a), &M::from_column_slice(b.len(), 1, b))
}

// -------------------------------------------------------------------------------------------------------- generators
/// Magnitude of a rotation, dense around every place where a Lie-group implementation may switch formula.
pub fn gen_angle_mag(g: &mut Gen) -> f64 {
    match g.below(12) {
        0 => {
            g.class("angle=0");
            0.0
        }
        1 => g.uniform(0.1, 3.0),
        2 => g.uniform(0.1, 3.0),
        3 => {
            g.class("angle tiny");
            g.logu(1e-12, 1e-6)
        }
        4 => {
            g.class("angle small");
            g.logu(1e-6, 1e-2)
        }
        5 => {
            g.class("angle at switch");
            let t = *g.pick(&[1e-5, 1e-3, 2e-3, 3.1622776e-3, 1e-6, 1e-4, 1e-2]);
            t * (1.0 + g.sym(0.2))
        }
        6 => {
            g.class("angle near pi");
            PI - g.logu(1e-9, 1e-1)
        }
        7 => {
            g.class("angle near pi");
            PI - g.logu(1e-5, 1.0)
        }
        8 => g.uniform(0.0, 0.2),
        9 => {
            g.class("angle pi/2 multiples");
            PI / 2.0 * (1 + g.below(2)) as f64 - g.logu(1e-13, 1e-3)
        }
        _ => g.uniform(0.0, PI),
    }
}
/// As above but also beyond pi and 2 pi
pub fn gen_angle_any(g: &mut Gen) -> f64 {
    match g.below(5) {
        0 | 1 | 2 => gen_angle_mag(g),
        3 => {
            g.class("angle beyond pi");
            g.uniform(PI, 2.0 * PI)
        }
        _ => {
            g.class("angle beyond 2pi");
            let near = g.bool();
            if near {
                2.0 * PI + g.sym(1e-3)
            } else {
                g.uniform(2.0 * PI, 20.0)
            }
        }
    }
}
pub fn gen_axis(g: &mut Gen) -> [f64; 3] {
    let mut a = match g.below(4) {
        0 => {
            // coordinate axis
            let mut a = [0.0; 3];
            a[g.below(3) as usize] = g.sign();
            return a;
        }
        1 => {
            // in a coordinate plane
            let mut a = [g.sym(1.0), g.sym(1.0), g.sym(1.0)];
            a[g.below(3) as usize] = 0.0;
            a
        }
        _ => [g.sym(1.0), g.sym(1.0), g.sym(1.0)],
    };
    let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    if n < 1e-3 {
        return [1.0, 0.0, 0.0];
    }
    a.iter_mut().for_each(|x| *x /= n);
    a
}
pub fn gen_rotvec(g: &mut Gen, any: bool) -> [f64; 3] {
    let t = if any { gen_angle_any(g) } else { gen_angle_mag(g) };
    let a = gen_axis(g);
    [a[0] * t, a[1] * t, a[2] * t]
}
pub fn gen_scale(g: &mut Gen) -> f64 {
    match g.below(5) {
        0 => 1.0,
        1 => 0.0,
        2 => g.logu(1e-6, 1.0),
        3 => {
            let hi = *g.pick(&[1e3, 1e6]);
            g.logu(1.0, hi)
        }
        _ => g.logu(0.1, 10.0),
    }
}
pub fn gen_vec(g: &mut Gen, n: usize) -> Vec<f64> {
    let s = gen_scale(g);
    (0..n).map(|_| g.sym(s)).collect()
}
/// values of ordinary size
pub fn gen_vec_o(g: &mut Gen, n: usize, s: f64) -> Vec<f64> {
    (0..n).map(|_| g.sym(s)).collect()
}

/// A well-conditioned symmetric positive definite matrix with eigenvalues in [lo, hi] (log-uniform).
/// Half of them are dense, the others have exact zeros: diagonal, or correlated only within (interleaved) groups.
pub fn gen_spd(g: &mut Gen, n: usize, lo: f64, hi: f64) -> M {
    let groups = match g.below(6) {
        0 if n > 1 => n,
        1 | 2 if n > 2 => g.range(2, n - 1),
        _ => 1,
    };
    if groups == 1 {
        return dense_spd(g, n, lo, hi);
    }
    let of: Vec<usize> = if groups == n { (0..n).collect() } else { (0..n).map(|_| g.below(groups as u64) as usize).collect() };
    let mut out = M::zeros(n, n);
    for k in 0..groups {
        let idx: Vec<usize> = (0..n).filter(|i| of[*i] == k).collect();
        let b = dense_spd(g, idx.len(), lo, hi);
        for (r, i) in idx.iter().enumerate() {
            for (c, j) in idx.iter().enumerate() {
                out[(*i, *j)] = b[(r, c)];
            }
        }
    }
    out
}
fn dense_spd(g: &mut Gen, n: usize, lo: f64, hi: f64) -> M {
    if n == 0 {
        return M::zeros(0, 0);
    }
    let mut a = M::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            a[(i, j)] = g.sym(1.0) + if i == j { 1.5 } else { 0.0 };
        }
    }
    let q = a.qr().q();
    let mut d = M::zeros(n, n);
    for i in 0..n {
        d[(i, i)] = g.logu(lo, hi);
    }
    let s = &q * d * q.transpose();
    (&s + s.transpose()) * 0.5
}
