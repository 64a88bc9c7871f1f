//! Generated smooth functions of one to six variables, evaluated in any numeric type, and their reference derivatives.
use crate::{engine::*, geom::*, note, vars::*};
use factrs::{
    dtype,
    linalg::{Numeric, Vector, Vector2, VectorViewX, VectorX},
    variables::{ImuBias, MatrixLieGroup, Variable, VectorVar, SE2, SE3, SO2, SO3},
};
use std::fmt;

// ---------------------------------------------------------------------------------------- a user-defined variable type
/// R+ x R^2 : (s1,v1)(s2,v2) = (s1 s2, v1 + s1 v2), the affine group acting on the plane by scaling and shifting.
/// Non-commutative, written as a user would write it (default dual set-up through exp).
#[derive(Clone)]
pub struct Scaled<T: Numeric = dtype> {
    pub s: T,
    pub v: Vector2<T>,
}
impl<T: Numeric> Scaled<T> {
    pub fn new(s: T, x: T, y: T) -> Self {
        Scaled { s, v: Vector2::new(x, y) }
    }
}
#[factrs::mark]
impl<T: Numeric> Variable<T> for Scaled<T> {
    type Dim = factrs::linalg::Const<3>;
    type Alias<TT: Numeric> = Scaled<TT>;
    fn identity() -> Self {
        Scaled { s: T::from(1.0), v: Vector2::zeros() }
    }
    fn inverse(&self) -> Self {
        let i = T::from(1.0) / self.s;
        Scaled { s: i, v: -self.v * i }
    }
    fn compose(&self, o: &Self) -> Self {
        Scaled { s: self.s * o.s, v: self.v + o.v * self.s }
    }
    fn exp(d: VectorViewX<T>) -> Self {
        let a = d[0];
        // (e^a - 1)/a
        let k = if a < T::from(1e-2) && a > T::from(-1e-2) {
            T::from(1.0) + a / T::from(2.0) + a * a / T::from(6.0) + a * a * a / T::from(24.0) + a * a * a * a / T::from(120.0) + a * a * a * a * a / T::from(720.0)
        } else {
            (a.exp() - T::from(1.0)) / a
        };
        Scaled { s: a.exp(), v: Vector2::new(d[1] * k, d[2] * k) }
    }
    fn log(&self) -> VectorX<T> {
        let a = self.s.ln();
        let k = if a < T::from(1e-2) && a > T::from(-1e-2) {
            T::from(1.0) + a / T::from(2.0) + a * a / T::from(6.0) + a * a * a / T::from(24.0) + a * a * a * a / T::from(120.0) + a * a * a * a * a / T::from(720.0)
        } else {
            (self.s - T::from(1.0)) / a
        };
        factrs::linalg::vectorx![a, self.v.x / k, self.v.y / k]
    }
    fn dual_convert<TT: Numeric>(o: &Self::Alias<dtype>) -> Self::Alias<TT> {
        Scaled { s: o.s.into(), v: o.v.map(|x| x.into()) }
    }
}
impl<T: Numeric> fmt::Display for Scaled<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Scaled({:.3}, {:.3}, {:.3})", self.s, self.v.x, self.v.y)
    }
}
impl<T: Numeric> fmt::Debug for Scaled<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Var for Scaled {
    const NAME: &'static str = "Scaled";
    const N: usize = 3;
    const ROT: usize = 0;
    fn hat_ref(xi: &[f64]) -> M {
        let a = xi[0];
        M::from_row_slice(3, 3, &[a, 0.0, xi[1], 0.0, a, xi[2], 0.0, 0.0, 0.0])
    }
    fn mat(&self) -> M {
        M::from_row_slice(3, 3, &[self.s, 0.0, self.v.x, 0.0, self.s, self.v.y, 0.0, 0.0, 1.0])
    }
    fn make(_: &[f64], t: &[f64]) -> Self {
        Scaled::new(t[0].clamp(-3.0, 3.0).exp(), t[1], t[2])
    }
    fn make_mat(r: &[f64], t: &[f64]) -> M {
        Self::make(r, t).mat()
    }
    fn from_mat_ref(m: &M) -> Self {
        Scaled::new(m[(0, 0)], m[(0, 2)], m[(1, 2)])
    }
    fn ad_ref(xi: &[f64]) -> M {
        M::from_row_slice(3, 3, &[0.0, 0.0, 0.0, -xi[1], xi[0], 0.0, -xi[2], 0.0, xi[0]])
    }
    fn vee_ref(m: &M) -> V {
        V::from_vec(vec![m[(0, 0)], m[(0, 2)], m[(1, 2)]])
    }
    fn gen_tangent(g: &mut Gen, _any: bool) -> Vec<f64> {
        vec![g.sym(2.0), g.sym(3.0), g.sym(3.0)]
    }
    fn tangent_o(g: &mut Gen, _ang: f64, tr: f64) -> Vec<f64> {
        let s = tr.min(1.0);
        vec![g.sym(s), g.sym(tr), g.sym(tr)]
    }
    fn log_ref(&self) -> V {
        let a = self.s.ln();
        let k = phi1(&M::from_row_slice(1, 1, &[a]))[(0, 0)];
        V::from_vec(vec![a, self.v.x / k, self.v.y / k])
    }
}

// ------------------------------------------------------------------------------------------------------------- features
/// What a generated function sees of one variable
#[derive(Clone, Debug)]
pub struct Coef<T> {
    pub mode: u64,
    pub c: T,
    pub p: Vec<f64>,
}
pub trait Feat: Var {
    fn feat<T: Numeric>(x: &Self::Alias<T>, k: &Coef<Self>) -> Vec<T>;
}
fn group_feat<T: Numeric, A: Variable<T>>(x: &A, c: &A, mode: u64) -> Vec<T> {
    let l = match mode {
        1 => x.compose(c).log(),
        2 => c.compose(&x.inverse()).log(),
        3 => x.ominus(c),
        _ => c.minus(x).log(),
    };
    l.iter().cloned().collect()
}
macro_rules! impl_feat_lie {
    ($t:ident, $vd:literal) => {
        impl Feat for $t {
            fn feat<T: Numeric>(x: &$t<T>, k: &Coef<Self>) -> Vec<T> {
                match k.mode {
                    0 => x.apply(Vector::<$vd, T>::from_iterator(k.p.iter().map(|v| T::from(*v))).as_view()).iter().cloned().collect(),
                    5 => x.inverse().apply(Vector::<$vd, T>::from_iterator(k.p.iter().map(|v| T::from(*v))).as_view()).iter().cloned().collect(),
                    6 => x.to_matrix().iter().cloned().collect(),
                    m => group_feat(x, &<$t as Variable>::dual_convert::<T>(&k.c), m),
                }
            }
        }
    };
}
impl_feat_lie!(SO2, 2);
impl_feat_lie!(SO3, 3);
impl_feat_lie!(SE2, 2);
impl_feat_lie!(SE3, 3);
impl<const D: usize> Feat for VectorVar<D> {
    fn feat<T: Numeric>(x: &VectorVar<D, T>, k: &Coef<Self>) -> Vec<T> {
        match k.mode {
            0 | 5 | 6 => (0..D).map(|i| x[i]).collect(),
            m => group_feat(x, &<VectorVar<D> as Variable>::dual_convert::<T>(&k.c), m),
        }
    }
}
impl Feat for ImuBias {
    fn feat<T: Numeric>(x: &ImuBias<T>, k: &Coef<Self>) -> Vec<T> {
        match k.mode {
            0 | 5 | 6 => x.gyro().iter().chain(x.accel().iter()).cloned().collect(),
            m => group_feat(x, &<ImuBias as Variable>::dual_convert::<T>(&k.c), m),
        }
    }
}
impl Feat for Scaled {
    fn feat<T: Numeric>(x: &Scaled<T>, k: &Coef<Self>) -> Vec<T> {
        match k.mode {
            0 | 5 | 6 => vec![x.s, x.v.x, x.v.y],
            m => group_feat(x, &<Scaled as Variable>::dual_convert::<T>(&k.c), m),
        }
    }
}

/// rotation angles in [0.05, 3.1], translations up to 3
fn ord<T: Var>(g: &mut Gen) -> Vec<f64> {
    let mut t = T::tangent_o(g, 3.1, 3.0);
    let th = t[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt();
    if th < 0.05 {
        for v in t[..T::ROT].iter_mut() {
            *v += 0.1;
        }
    }
    t
}

/// A variable value of ordinary size (small and zero rotations included)
pub fn gen_point<T: Var>(g: &mut Gen) -> T {
    let mut t = if g.ordinary { ord::<T>(g) } else { T::gen_tangent(g, false) };
    for v in t[T::ROT..].iter_mut() {
        *v = v.clamp(-10.0, 10.0);
    }
    T::flip(g, T::make(&t[..T::ROT], &t[T::ROT..]))
}
/// What a function does with a variable, chosen so that it is smooth at x
pub fn gen_coef<T: Feat>(g: &mut Gen, x: &T) -> Coef<T> {
    let mode = g.below(7);
    let p = gen_vec_o(g, if T::ROT == 1 { 2 } else { 3 }, 3.0);
    // the constant is chosen so that the logarithm is taken away from its cut, often at tiny angles
    let mut d = if g.ordinary { ord::<T>(g) } else { T::gen_tangent(g, false) };
    let th = d[..T::ROT].iter().map(|x| x * x).sum::<f64>().sqrt();
    if th > 3.1 {
        d[..T::ROT].iter_mut().for_each(|x| *x *= 3.1 / th);
    }
    for v in d[T::ROT..].iter_mut() {
        *v = v.clamp(-5.0, 5.0);
    }
    let e = expm(&T::hat_ref(&d));
    let m = x.mat();
    let c = match mode {
        1 => m.try_inverse().unwrap() * e,                 // x c = e
        2 => e * m,                                        // c x^-1 = e
        3 => m * e.try_inverse().unwrap(),                 // c^-1 x = e
        _ => m * e,                                        // x^-1 c = e
    };
    let c = T::flip(g, T::from_mat_ref(&c));
    if T::ROT > 0 && (1..=4).contains(&mode) && th < 1e-2 {
        g.class("log at small angle");
    }
    Coef { mode, c, p }
}
pub fn gen_feat<T: Feat>(g: &mut Gen) -> (T, Coef<T>) {
    let x = gen_point::<T>(g);
    let c = gen_coef(g, &x);
    (x, c)
}

/// Mixes all features into an output vector of dimension `out`
#[derive(Clone, Debug)]
pub struct Mix {
    pub out: usize,
    pub a: Vec<f64>,
    pub b: Vec<f64>,
    pub q: u64,
    /// 0: every output depends on everything; 1: some outputs are constants; 2: every output depends on one feature; 3: constant
    pub shape: u64,
}
impl Mix {
    pub fn gen(g: &mut Gen, out: usize) -> Mix {
        let n = 23;
        Mix { out, a: (0..n).map(|_| g.sym(2.0)).collect(), b: (0..n).map(|_| g.sym(0.3)).collect(), q: g.below(3), shape: if g.chance(1, 6) { g.range(1, 3) as u64 } else { 0 } }
    }
    /// purely affine in the features
    pub fn gen_linear(g: &mut Gen, out: usize) -> Mix {
        let mut m = Mix::gen(g, out);
        m.q = 0;
        m.shape = 0;
        m
    }
    pub fn eval<T: Numeric>(&self, feats: &[Vec<T>]) -> VectorX<T> {
        let n = self.a.len();
        let all: Vec<T> = feats.iter().flatten().cloned().collect();
        VectorX::from_fn(self.out, |k, _| {
            let mut lin = T::from(0.1 * k as f64);
            match self.shape {
                1 if k % 3 == 1 => return T::from(self.a[k % n]),
                2 => return all[(3 * k + 1) % all.len()] * self.a[k % n],
                3 => return lin,
                _ => (),
            }
            let mut arg = T::from(0.05);
            for (j, f) in all.iter().enumerate() {
                lin += *f * self.a[(7 * k + j) % n];
                arg += *f * self.b[(5 * k + 3 * j + 1) % n];
            }
            match self.q {
                0 => lin,
                1 => lin + arg.sin(),
                _ => lin + all[k % all.len()] * all[(k + all.len() / 2) % all.len()] * 0.3 + arg.cos() * 2.0,
            }
        })
    }
}

// ----------------------------------------------------------------------------------------------------- reference derivative
/// Sixth-order central difference of `f(t)` at 0
pub fn fd6(f: impl Fn(f64) -> V, h: f64) -> V {
    let p1 = f(h) - f(-h);
    let p2 = f(2.0 * h) - f(-2.0 * h);
    let p3 = f(3.0 * h) - f(-3.0 * h);
    (p1 * 45.0 - p2 * 9.0 + p3) / (60.0 * h)
}

/// Everything a differentiator check needs about one generated function call
pub struct Case {
    pub label: &'static str,
    pub value: V,
    pub jac: M,
    pub got_value: V,
    pub got_jac: M,
    pub scale: f64,
}

pub enum Which {
    Forward,
    Num4,
    Num5,
    Num6,
}

#[macro_export]
macro_rules! arity_case {
    ($name:ident, $n:literal, $jac:ident, $grad:ident, $dim:literal, [$($v:ident $k:ident : $t:ident),*]) => {
        #[allow(unused_assignments, unused_variables, non_snake_case)]
        pub fn $name(g: &mut $crate::engine::Gen, which: &Which) -> Case {
            use factrs::linalg::{Diff, ForwardProp, NumericalDiff, DiffResult};
            #[allow(non_snake_case)]
            fn fun<T: Numeric>(mix: &Mix, cs: &($(Coef<$t>,)*), $($v: $t<T>),*) -> VectorX<T> {
                let ($($k,)*) = cs;
                let feats = vec![$(<$t as Feat>::feat::<T>(&$v, $k)),*];
                mix.eval(&feats)
            }
            $( let ($v, $k) = gen_feat::<$t>(g); )*
            $( note!(g, "{} = {} (mode {}, constant {}, point {:?})", stringify!($v), $v.show(), $k.mode, $k.c.show(), $k.p); )*
            let cs = ($( $k, )*);
            let scalar = g.chance(1, 4);
            let out = if scalar { 1 } else if g.chance(1, 25) { g.range(8, 40) } else { g.range(1, 7) };
            let mix = Mix::gen(g, out);
            note!(g, "{} -> R^{}{} mix {:?}", stringify!($name), out, if scalar { " (as gradient)" } else { "" }, mix);
            macro_rules! run { ($d:ty, $tt:ty) => {{
                if scalar {
                    let DiffResult { value, diff } = <$d>::$grad(|$($v),*| fun::<$tt>(&mix, &cs, $($v),*)[0], $(&$v),*);
                    (V::from_vec(vec![value]), M::from_row_slice(1, diff.len(), diff.as_slice()))
                } else {
                    let DiffResult { value, diff } = <$d>::$jac(|$($v),*| fun::<$tt>(&mix, &cs, $($v),*), $(&$v),*);
                    (value, diff)
                }
            }}}
            let (got_value, got_jac) = match which {
                Which::Forward => run!(ForwardProp::<factrs::linalg::Const<$dim>>, factrs::linalg::DualVector<factrs::linalg::Const<$dim>>),
                Which::Num4 => run!(NumericalDiff::<4>, f64),
                Which::Num5 => run!(NumericalDiff::<5>, f64),
                Which::Num6 => run!(NumericalDiff::<6>, f64),
            };
            let value = fun::<f64>(&mix, &cs, $($v.clone()),*);
            let mut jac = M::zeros(out, $dim);
            let dims = [$(<$t as Var>::N),*];
            let mut col = 0;
            for (i, d) in dims.iter().enumerate() {
                for j in 0..*d {
                    let c = fd6(|h| {
                        let mut k = 0;
                        $( let $v = if k == i { let mut e = vec![0.0; <$t as Var>::N]; e[j] = h; $v.retract_ref(&e) } else { $v.clone() }; k += 1; )*
                        fun::<f64>(&mix, &cs, $($v),*)
                    }, 2e-3);
                    jac.set_column(col, &c);
                    col += 1;
                }
            }
            assert_eq!(col, $dim);
            let mut scale = 1.0;
            let ($($k,)*) = &cs;
            $( scale += maxabs($v.mat().iter()) + if (1..=4).contains(&$k.mode) { maxabs($k.c.mat().iter()) } else { 0.0 }; )*
            g.class(concat!("arity ", stringify!($n)));
            Case { label: stringify!($name), value, jac, got_value, got_jac, scale }
        }
    };
}

type V1<T = dtype> = VectorVar<1, T>;
type V2<T = dtype> = VectorVar<2, T>;
type V3<T = dtype> = VectorVar<3, T>;
type V4<T = dtype> = VectorVar<4, T>;
type V5<T = dtype> = VectorVar<5, T>;
type V6<T = dtype> = VectorVar<6, T>;
type V9<T = dtype> = VectorVar<9, T>;

arity_case!(f1_so2, 1, jacobian_1, gradient_1, 1, [a ka: SO2]);
arity_case!(f1_so3, 1, jacobian_1, gradient_1, 3, [a ka: SO3]);
arity_case!(f1_se2, 1, jacobian_1, gradient_1, 3, [a ka: SE2]);
arity_case!(f1_se3, 1, jacobian_1, gradient_1, 6, [a ka: SE3]);
arity_case!(f1_v1, 1, jacobian_1, gradient_1, 1, [a ka: V1]);
arity_case!(f1_v6, 1, jacobian_1, gradient_1, 6, [a ka: V6]);
arity_case!(f1_bias, 1, jacobian_1, gradient_1, 6, [a ka: ImuBias]);
arity_case!(f1_custom, 1, jacobian_1, gradient_1, 3, [a ka: Scaled]);
arity_case!(f2_se3_se3, 2, jacobian_2, gradient_2, 12, [a ka: SE3, b kb: SE3]);
arity_case!(f2_so3_v3, 2, jacobian_2, gradient_2, 6, [a ka: SO3, b kb: V3]);
arity_case!(f2_v2_se2, 2, jacobian_2, gradient_2, 5, [a ka: V2, b kb: SE2]);
arity_case!(f2_custom_so2, 2, jacobian_2, gradient_2, 4, [a ka: Scaled, b kb: SO2]);
arity_case!(f2_bias_v5, 2, jacobian_2, gradient_2, 11, [a ka: ImuBias, b kb: V5]);
arity_case!(f3_se2_se2_v1, 3, jacobian_3, gradient_3, 7, [a ka: SE2, b kb: SE2, c kc: V1]);
arity_case!(f3_so3_v3_bias, 3, jacobian_3, gradient_3, 12, [a ka: SO3, b kb: V3, c kc: ImuBias]);
arity_case!(f3_v2_custom_se3, 3, jacobian_3, gradient_3, 11, [a ka: V2, b kb: Scaled, c kc: SE3]);
arity_case!(f4_so2_se2_v3_so3, 4, jacobian_4, gradient_4, 10, [a ka: SO2, b kb: SE2, c kc: V3, d kd: SO3]);
arity_case!(f4_vecs, 4, jacobian_4, gradient_4, 10, [a ka: V1, b kb: V2, c kc: V3, d kd: V4]);
arity_case!(f5_mixed, 5, jacobian_5, gradient_5, 13, [a ka: SE3, b kb: V1, c kc: SO2, d kd: V2, e ke: SE2]);
arity_case!(f5_custom, 5, jacobian_5, gradient_5, 12, [a ka: V3, b kb: SO3, c kc: Scaled, d kd: V1, e ke: V2]);
arity_case!(f6_small, 6, jacobian_6, gradient_6, 13, [a ka: SO2, b kb: V1, c kc: SO3, d kd: V2, e ke: SE2, f kf: Scaled]);
arity_case!(f6_imu, 6, jacobian_6, gradient_6, 30, [a ka: SE3, b kb: V3, c kc: ImuBias, d kd: SE3, e ke: V3, f kf: ImuBias]);

arity_case!(f2_v9_se2, 2, jacobian_2, gradient_2, 12, [a ka: V9, b kb: SE2]);

pub fn any_case(g: &mut Gen, w: &Which) -> Case {
    const FS: [fn(&mut Gen, &Which) -> Case; 23] = [
        f1_so2, f1_so3, f1_se2, f1_se3, f1_v1, f1_v6, f1_bias, f1_custom, f2_se3_se3, f2_so3_v3, f2_v2_se2, f2_custom_so2,
        f2_bias_v5, f3_se2_se2_v1, f3_so3_v3_bias, f3_v2_custom_se3, f4_so2_se2_v3_so3, f4_vecs, f5_mixed, f5_custom,
        f6_small, f6_imu, f2_v9_se2,
    ];
    let i = g.below(23) as usize;
    FS[i](g, w)
}
