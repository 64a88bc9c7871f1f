//! A uniform view of factrs' variable types, with reference matrices computed by the harness itself.
use crate::{engine::Gen, geom::*};
use factrs::{
    linalg::{Numeric, Vector, Vector2, Vector3},
    residuals::{Accel, Gyro},
    variables::{ImuBias, MatrixLieGroup, Variable, VariableSafe, VectorVar, SE2, SE3, SO2, SO3},
};

pub trait Var: Variable<f64, Alias<f64> = Self> + VariableSafe + 'static {
    const NAME: &'static str;
    const N: usize;
    /// rotation coordinates of the tangent come first: how many
    const ROT: usize;
    /// Lie algebra matrix, reference
    fn hat_ref(xi: &[f64]) -> M;
    /// group matrix of the element, reference (through public accessors)
    fn mat(&self) -> M;
    /// element from rotation vector + translation, through public constructors
    fn make(rot: &[f64], tr: &[f64]) -> Self;
    /// reference matrix of `make`
    fn make_mat(rot: &[f64], tr: &[f64]) -> M;
    /// element of a reference group matrix, through public constructors
    fn from_mat_ref(m: &M) -> Self;
    /// matrix of ad, reference
    fn ad_ref(xi: &[f64]) -> M;
    /// reference vee
    fn vee_ref(m: &M) -> V;
    fn gen_tangent(g: &mut Gen, any: bool) -> Vec<f64> {
        let mut v = match Self::ROT {
            0 => vec![],
            1 => {
                let t = if any { gen_angle_any(g) } else { gen_angle_mag(g) };
                vec![g.sign() * t]
            }
            _ => gen_rotvec(g, any).to_vec(),
        };
        v.extend(gen_vec(g, Self::N - Self::ROT));
        v
    }
    fn gen(g: &mut Gen) -> Self {
        let t = Self::gen_tangent(g, false);
        Self::flip(g, Self::make(&t[..Self::ROT], &t[Self::ROT..]))
    }
    /// ordinary element: angle up to `ang`, translation up to `tr`
    fn gen_o(g: &mut Gen, ang: f64, tr: f64) -> Self {
        let t = Self::tangent_o(g, ang, tr);
        Self::make(&t[..Self::ROT], &t[Self::ROT..])
    }
    fn tangent_o(g: &mut Gen, ang: f64, tr: f64) -> Vec<f64> {
        let mut v = match Self::ROT {
            0 => vec![],
            1 => vec![g.sym(ang)],
            _ => {
                let t = g.uniform(0.0, ang);
                let a = gen_axis(g);
                a.iter().map(|x| x * t).collect()
            }
        };
        v.extend((0..Self::N - Self::ROT).map(|_| g.sym(tr)));
        v
    }
    /// another representative of the same element, if the type has several
    fn flip(_g: &mut Gen, x: Self) -> Self {
        x
    }
    /// reference group matrix of exp(d) in the configuration being built
    fn exp_ref(d: &[f64]) -> M {
        expm(&Self::hat_ref(d))
    }
    /// matrix of x moved by d, in the configuration being built (right unless feature "left")
    fn retract_mat(x: &M, d: &[f64]) -> M {
        if cfg!(feature = "left") {
            Self::exp_ref(d) * x
        } else {
            x * Self::exp_ref(d)
        }
    }
    /// matrix of the element that moves y to x, in the configuration being built
    fn relative_mat(x: &M, y: &M) -> M {
        let yi = y.clone().try_inverse().unwrap();
        if cfg!(feature = "left") {
            x * yi
        } else {
            yi * x
        }
    }
    /// reference retraction: X expm(hat d)
    fn retract_ref(&self, d: &[f64]) -> Self {
        Self::from_mat_ref(&Self::retract_mat(&self.mat(), d))
    }
    fn show(&self) -> String {
        let m = self.mat();
        let rows: Vec<String> = (0..m.nrows()).map(|i| format!("{:?}", m.row(i).iter().cloned().collect::<Vec<f64>>())).collect();
        format!("{}[{}]", Self::NAME, rows.join("; "))
    }
    /// the matrix size of `mat` beyond identity, used to scale tolerances
    fn mag(&self) -> f64 {
        1.0 + maxabs(self.mat().iter())
    }
    /// Reference Adjoint matrix
    fn adjoint_ref(&self) -> M {
        let m = self.mat();
        let inv = m.clone().try_inverse().unwrap();
        let mut a = M::zeros(Self::N, Self::N);
        for i in 0..Self::N {
            let mut e = vec![0.0; Self::N];
            e[i] = 1.0;
            let c = Self::vee_ref(&(&m * Self::hat_ref(&e) * &inv));
            a.set_column(i, &c);
        }
        a
    }
    /// Reference principal logarithm
    fn log_ref(&self) -> V;
}

pub fn so2_ang(m: &M) -> f64 {
    m[(1, 0)].atan2(m[(0, 0)])
}

impl Var for SO2 {
    const NAME: &'static str = "SO2";
    const N: usize = 1;
    const ROT: usize = 1;
    fn hat_ref(xi: &[f64]) -> M {
        M::from_row_slice(2, 2, &[0.0, -xi[0], xi[0], 0.0])
    }
    fn mat(&self) -> M {
        let c = self.apply(Vector2::new(1.0, 0.0).as_view());
        let d = self.apply(Vector2::new(0.0, 1.0).as_view());
        M::from_row_slice(2, 2, &[c[0], d[0], c[1], d[1]])
    }
    fn make(rot: &[f64], _: &[f64]) -> Self {
        SO2::from_theta(rot[0])
    }
    fn make_mat(rot: &[f64], _: &[f64]) -> M {
        let (s, c) = rot[0].sin_cos();
        M::from_row_slice(2, 2, &[c, -s, s, c])
    }
    fn from_mat_ref(m: &M) -> Self {
        SO2::from_theta(so2_ang(m))
    }
    fn ad_ref(_: &[f64]) -> M {
        M::zeros(1, 1)
    }
    fn vee_ref(m: &M) -> V {
        V::from_vec(vec![(m[(1, 0)] - m[(0, 1)]) / 2.0])
    }
    fn log_ref(&self) -> V {
        V::from_vec(vec![so2_ang(&self.mat())])
    }
}

impl Var for SO3 {
    const NAME: &'static str = "SO3";
    const N: usize = 3;
    const ROT: usize = 3;
    fn hat_ref(xi: &[f64]) -> M {
        hat3(xi)
    }
    fn mat(&self) -> M {
        let r = quat_to_mat(&[self.x(), self.y(), self.z(), self.w()]);
        M::from_iterator(3, 3, r.iter().cloned())
    }
    fn make(rot: &[f64], _: &[f64]) -> Self {
        let q = quat(rot);
        SO3::from_xyzw(q[0], q[1], q[2], q[3])
    }
    fn make_mat(rot: &[f64], _: &[f64]) -> M {
        M::from_iterator(3, 3, rot3(rot).iter().cloned())
    }
    fn from_mat_ref(m: &M) -> Self {
        let r = nalgebra::Matrix3::from_iterator(m.view((0, 0), (3, 3)).iter().cloned());
        let q = mat_to_quat(&r);
        SO3::from_xyzw(q[0], q[1], q[2], q[3])
    }
    fn ad_ref(xi: &[f64]) -> M {
        hat3(xi)
    }
    fn vee_ref(m: &M) -> V {
        V::from_vec(vec![(m[(2, 1)] - m[(1, 2)]) / 2.0, (m[(0, 2)] - m[(2, 0)]) / 2.0, (m[(1, 0)] - m[(0, 1)]) / 2.0])
    }
    fn flip(g: &mut Gen, x: Self) -> Self {
        if g.chance(1, 3) {
            g.class("negated quaternion");
            SO3::from_xyzw(-x.x(), -x.y(), -x.z(), -x.w())
        } else {
            x
        }
    }
    fn log_ref(&self) -> V {
        let r = nalgebra::Matrix3::from_iterator(self.mat().iter().cloned());
        V::from_iterator(3, log3(&r).iter().cloned())
    }
}

impl Var for SE2 {
    const NAME: &'static str = "SE2";
    const N: usize = 3;
    const ROT: usize = 1;
    fn hat_ref(xi: &[f64]) -> M {
        M::from_row_slice(3, 3, &[0.0, -xi[0], xi[1], xi[0], 0.0, xi[2], 0.0, 0.0, 0.0])
    }
    fn mat(&self) -> M {
        let mut m = M::identity(3, 3);
        m.view_mut((0, 0), (2, 2)).copy_from(&Var::mat(self.rot()));
        m[(0, 2)] = self.x();
        m[(1, 2)] = self.y();
        m
    }
    fn make(rot: &[f64], tr: &[f64]) -> Self {
        SE2::new(rot[0], tr[0], tr[1])
    }
    fn make_mat(rot: &[f64], tr: &[f64]) -> M {
        let (s, c) = rot[0].sin_cos();
        M::from_row_slice(3, 3, &[c, -s, tr[0], s, c, tr[1], 0.0, 0.0, 1.0])
    }
    fn from_mat_ref(m: &M) -> Self {
        SE2::new(so2_ang(m), m[(0, 2)], m[(1, 2)])
    }
    fn exp_ref(d: &[f64]) -> M {
        if cfg!(feature = "fake_exp") {
            Self::make_mat(&d[..Self::ROT], &d[Self::ROT..])
        } else {
            expm(&Self::hat_ref(d))
        }
    }
    fn ad_ref(xi: &[f64]) -> M {
        M::from_row_slice(3, 3, &[0.0, 0.0, 0.0, xi[2], 0.0, -xi[0], -xi[1], xi[0], 0.0])
    }
    fn vee_ref(m: &M) -> V {
        V::from_vec(vec![(m[(1, 0)] - m[(0, 1)]) / 2.0, m[(0, 2)], m[(1, 2)]])
    }
    fn log_ref(&self) -> V {
        let m = self.mat();
        let th = so2_ang(&m);
        if cfg!(feature = "fake_exp") {
            return V::from_vec(vec![th, m[(0, 2)], m[(1, 2)]]);
        }
        let a = M::from_row_slice(2, 2, &[0.0, -th, th, 0.0]);
        let vinv = phi1(&a).try_inverse().unwrap();
        let t = vinv * V::from_vec(vec![m[(0, 2)], m[(1, 2)]]);
        V::from_vec(vec![th, t[0], t[1]])
    }
}

impl Var for SE3 {
    const NAME: &'static str = "SE3";
    const N: usize = 6;
    const ROT: usize = 3;
    fn hat_ref(xi: &[f64]) -> M {
        let mut m = M::zeros(4, 4);
        m.view_mut((0, 0), (3, 3)).copy_from(&hat3(xi));
        for i in 0..3 {
            m[(i, 3)] = xi[3 + i];
        }
        m
    }
    fn mat(&self) -> M {
        let mut m = M::identity(4, 4);
        m.view_mut((0, 0), (3, 3)).copy_from(&Var::mat(self.rot()));
        for i in 0..3 {
            m[(i, 3)] = self.xyz()[i];
        }
        m
    }
    fn make(rot: &[f64], tr: &[f64]) -> Self {
        SE3::from_rot_trans(<SO3 as Var>::make(rot, &[]), Vector3::new(tr[0], tr[1], tr[2]))
    }
    fn make_mat(rot: &[f64], tr: &[f64]) -> M {
        let mut m = M::identity(4, 4);
        m.view_mut((0, 0), (3, 3)).copy_from(&rot3(rot));
        for i in 0..3 {
            m[(i, 3)] = tr[i];
        }
        m
    }
    fn from_mat_ref(m: &M) -> Self {
        SE3::from_rot_trans(<SO3 as Var>::from_mat_ref(m), Vector3::new(m[(0, 3)], m[(1, 3)], m[(2, 3)]))
    }
    fn exp_ref(d: &[f64]) -> M {
        if cfg!(feature = "fake_exp") {
            Self::make_mat(&d[..Self::ROT], &d[Self::ROT..])
        } else {
            expm(&Self::hat_ref(d))
        }
    }
    fn ad_ref(xi: &[f64]) -> M {
        let mut m = M::zeros(6, 6);
        m.view_mut((0, 0), (3, 3)).copy_from(&hat3(xi));
        m.view_mut((3, 3), (3, 3)).copy_from(&hat3(xi));
        m.view_mut((3, 0), (3, 3)).copy_from(&hat3(&xi[3..]));
        m
    }
    fn vee_ref(m: &M) -> V {
        let w = <SO3 as Var>::vee_ref(m);
        V::from_vec(vec![w[0], w[1], w[2], m[(0, 3)], m[(1, 3)], m[(2, 3)]])
    }
    fn flip(g: &mut Gen, x: Self) -> Self {
        let r = <SO3 as Var>::flip(g, x.rot().clone());
        SE3::from_rot_trans(r, x.xyz().into_owned())
    }
    fn log_ref(&self) -> V {
        let w = Var::log_ref(self.rot());
        if cfg!(feature = "fake_exp") {
            let t = self.xyz();
            return V::from_vec(vec![w[0], w[1], w[2], t[0], t[1], t[2]]);
        }
        let vinv = phi1(&hat3(w.as_slice())).try_inverse().unwrap();
        let t = vinv * V::from_iterator(3, self.xyz().iter().cloned());
        V::from_vec(vec![w[0], w[1], w[2], t[0], t[1], t[2]])
    }
}

fn shift_hat(xi: &[f64]) -> M {
    let n = xi.len();
    let mut m = M::zeros(n + 1, n + 1);
    for i in 0..n {
        m[(i, n)] = xi[i];
    }
    m
}

impl<const D: usize> Var for VectorVar<D> {
    const NAME: &'static str = ["V0", "V1", "V2", "V3", "V4", "V5", "V6", "V7", "V8", "V9", "V10", "V11", "V12", "V13", "V14", "V15", "V16", "V17", "V18"][D];
    const N: usize = D;
    const ROT: usize = 0;
    fn hat_ref(xi: &[f64]) -> M {
        shift_hat(xi)
    }
    fn mat(&self) -> M {
        M::identity(D + 1, D + 1) + shift_hat(&(0..D).map(|i| self[i]).collect::<Vec<_>>())
    }
    fn make(_: &[f64], tr: &[f64]) -> Self {
        VectorVar::from(Vector::<D>::from_iterator(tr.iter().cloned()))
    }
    fn make_mat(_: &[f64], tr: &[f64]) -> M {
        M::identity(D + 1, D + 1) + shift_hat(tr)
    }
    fn from_mat_ref(m: &M) -> Self {
        VectorVar::from(Vector::<D>::from_iterator((0..D).map(|i| m[(i, D)])))
    }
    fn ad_ref(_: &[f64]) -> M {
        M::zeros(D, D)
    }
    fn vee_ref(m: &M) -> V {
        V::from_iterator(D, (0..D).map(|i| m[(i, D)]))
    }
    fn log_ref(&self) -> V {
        V::from_iterator(D, (0..D).map(|i| self[i]))
    }
}

impl Var for ImuBias {
    const NAME: &'static str = "ImuBias";
    const N: usize = 6;
    const ROT: usize = 0;
    fn hat_ref(xi: &[f64]) -> M {
        shift_hat(xi)
    }
    fn mat(&self) -> M {
        let (g, a) = (self.gyro(), self.accel());
        M::identity(7, 7) + shift_hat(&[g[0], g[1], g[2], a[0], a[1], a[2]])
    }
    fn make(_: &[f64], t: &[f64]) -> Self {
        ImuBias::new(Gyro::new(t[0], t[1], t[2]), Accel::new(t[3], t[4], t[5]))
    }
    fn make_mat(_: &[f64], tr: &[f64]) -> M {
        M::identity(7, 7) + shift_hat(tr)
    }
    fn from_mat_ref(m: &M) -> Self {
        Self::make(&[], &(0..6).map(|i| m[(i, 6)]).collect::<Vec<_>>())
    }
    fn ad_ref(_: &[f64]) -> M {
        M::zeros(6, 6)
    }
    fn vee_ref(m: &M) -> V {
        V::from_iterator(6, (0..6).map(|i| m[(i, 6)]))
    }
    fn log_ref(&self) -> V {
        let (g, a) = (self.gyro(), self.accel());
        V::from_vec(vec![g[0], g[1], g[2], a[0], a[1], a[2]])
    }
}

/// Run a generic function for one variable type chosen by the tape.
#[macro_export]
macro_rules! for_var {
    ($g:expr, $f:ident) => {
        match $g.below(11) {
            0 => $f::<factrs::variables::SO2>($g),
            1 => $f::<factrs::variables::SE2>($g),
            2 => $f::<factrs::variables::SO3>($g),
            3 | 4 => $f::<factrs::variables::SE3>($g),
            5 => $f::<factrs::variables::VectorVar1>($g),
            6 => $f::<factrs::variables::VectorVar2>($g),
            7 => $f::<factrs::variables::VectorVar3>($g),
            8 => $f::<factrs::variables::VectorVar<4>>($g),
            9 => match $g.below(7) {
                0 => $f::<factrs::variables::VectorVar5>($g),
                1 => $f::<factrs::variables::VectorVar6>($g),
                2 => $f::<factrs::variables::VectorVar<7>>($g),
                3 => $f::<factrs::variables::VectorVar<8>>($g),
                4 => $f::<factrs::variables::VectorVar<9>>($g),
                5 => $f::<factrs::variables::VectorVar<13>>($g),
                _ => $f::<factrs::variables::VectorVar<18>>($g),
            },
            _ => $f::<factrs::variables::ImuBias>($g),
        }
    };
}
/// Only the matrix Lie groups.
#[macro_export]
macro_rules! for_lie {
    ($g:expr, $f:ident) => {
        match $g.below(4) {
            0 => $f::<factrs::variables::SO2>($g),
            1 => $f::<factrs::variables::SE2>($g),
            2 => $f::<factrs::variables::SO3>($g),
            _ => $f::<factrs::variables::SE3>($g),
        }
    };
}

/// Object-level view of the matrix Lie group interface (dynamic sizes)
pub trait Lie: Var {
    const VD: usize;
    fn adj(&self) -> M;
    fn hat_(xi: &[f64]) -> M;
    fn vee_(m: &M) -> V;
    fn hat_swap_(p: &[f64]) -> M;
    fn apply_(&self, p: &[f64]) -> V;
    fn to_m(&self) -> M;
    fn from_m(m: &M) -> Self;
    fn mul_op(&self, o: &Self) -> (Self, Self);
}
fn dynm<R: nalgebra::Dim, C: nalgebra::Dim, S: nalgebra::RawStorage<f64, R, C>>(m: nalgebra::Matrix<f64, R, C, S>) -> M {
    M::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)])
}
macro_rules! impl_lie {
    ($t:ident, $td:literal, $md:literal, $vd:literal) => {
        impl Lie for $t {
            const VD: usize = $vd;
            fn adj(&self) -> M {
                dynm(self.adjoint())
            }
            fn hat_(xi: &[f64]) -> M {
                dynm(<$t as MatrixLieGroup>::hat(Vector::<$td>::from_row_slice(xi).as_view()))
            }
            fn vee_(m: &M) -> V {
                let s = nalgebra::SMatrix::<f64, $md, $md>::from_iterator(m.iter().cloned());
                V::from_iterator($td, <$t as MatrixLieGroup>::vee(s.as_view()).iter().cloned())
            }
            fn hat_swap_(p: &[f64]) -> M {
                dynm(<$t as MatrixLieGroup>::hat_swap(Vector::<$vd>::from_row_slice(p).as_view()))
            }
            fn apply_(&self, p: &[f64]) -> V {
                V::from_iterator($vd, self.apply(Vector::<$vd>::from_row_slice(p).as_view()).iter().cloned())
            }
            fn to_m(&self) -> M {
                dynm(self.to_matrix())
            }
            fn from_m(m: &M) -> Self {
                let s = nalgebra::SMatrix::<f64, $md, $md>::from_iterator(m.iter().cloned());
                <$t as MatrixLieGroup>::from_matrix(s.as_view())
            }
            fn mul_op(&self, o: &Self) -> (Self, Self) {
                (self * o, self.clone() * o.clone())
            }
        }
    };
}
impl_lie!(SO2, 1, 2, 2);
impl_lie!(SO3, 3, 3, 3);
impl_lie!(SE2, 3, 3, 2);
impl_lie!(SE3, 6, 4, 3);

pub fn vx(x: &[f64]) -> factrs::linalg::VectorX {
    factrs::linalg::VectorX::from_column_slice(x)
}
pub fn to_t<T: Numeric>(x: f64) -> T {
    T::from(x)
}
