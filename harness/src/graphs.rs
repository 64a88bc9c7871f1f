//! Noise models, robust kernels, factors and graphs as data, with reference semantics written from the documentation.
use crate::{engine::*, geom::*, res::raw, vars::*};
use factrs::{
    containers::{Factor, FactorBuilder, Key},
    linalg::{Const, Matrix, MatrixX, Vector, VectorX},
    noise::{GaussianNoise, NoiseModel, UnitNoise},
    residuals::{BetweenResidual, PriorResidual, Residual},
    robust::{Cauchy, Fair, GemanMcClure, Huber, RobustCost, Tukey, Welsch, L1, L2},
    variables::{ImuBias, VectorVar, SE2, SE3, SO2, SO3},
};

// --------------------------------------------------------------------------------------------------------- noise
#[derive(Clone, Debug)]
pub enum Noise {
    /// nothing given to the builder
    Default,
    Unit,
    ScalarSigma(f64),
    ScalarCov(f64),
    VecSigma(Vec<f64>),
    VecCov(Vec<f64>),
    VecInf(Vec<f64>),
    MatCov(M),
    MatInf(M),
    /// a user-defined model that multiplies by this matrix
    Custom(M),
}
/// user-defined noise model: any (also unsymmetric) whitening matrix
#[derive(Clone, Debug)]
pub struct Skewed<const N: usize>(pub Matrix<N, N>);
#[factrs::mark]
impl<const N: usize> NoiseModel for Skewed<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        VectorX::from_fn(N, |i, _| (0..N).map(|k| self.0[(i, k)] * v[k]).sum())
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        MatrixX::from_fn(N, m.ncols(), |i, j| (0..N).map(|k| self.0[(i, k)] * m[(k, j)]).sum())
    }
}
impl<const N: usize> std::fmt::Display for Skewed<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Skewed{}", N)
    }
}
/// user-defined kernel whose weight exceeds one: c^2 (sqrt(1 + x^2/c^2) - 1) taken four times
#[derive(Clone, Debug)]
pub struct Steep(pub f64);
#[factrs::mark]
impl RobustCost for Steep {
    fn loss(&self, d2: f64) -> f64 {
        let q = (1.0 + d2 / (self.0 * self.0)).sqrt();
        4.0 * d2 / (q + 1.0)
    }
    fn weight(&self, d2: f64) -> f64 {
        4.0 / (1.0 + d2 / (self.0 * self.0)).sqrt()
    }
}
impl Noise {
    /// any model a factor can be given, user-defined ones included
    pub fn gen_any(g: &mut Gen, n: usize, lo: f64, hi: f64) -> Noise {
        if !g.chance(1, 8) {
            return Noise::gen(g, n, lo, hi);
        }
        let mut rows: Vec<usize> = (0..n).collect();
        g.shuffle(&mut rows);
        let mut w = M::zeros(n, n);
        for (i, r) in rows.iter().enumerate() {
            let s = g.sign() / g.logu(lo, hi);
            for j in i..n {
                w[(*r, j)] = if i == j { s } else { s * g.sym(0.5) };
            }
        }
        Noise::Custom(w)
    }
    /// standard deviations within [lo, hi]
    pub fn gen(g: &mut Gen, n: usize, lo: f64, hi: f64) -> Noise {
        let mut v = |p: i32| (0..n).map(|_| g.logu(lo, hi).powi(p)).collect::<Vec<f64>>();
        let (a, b, c) = (v(1), v(2), v(-2));
        match g.below(9) {
            0 => Noise::Default,
            1 => Noise::Unit,
            2 => Noise::ScalarSigma(a[0]),
            3 => Noise::ScalarCov(b[0]),
            4 => Noise::VecSigma(a),
            5 => Noise::VecCov(b),
            6 => Noise::VecInf(c),
            7 => Noise::MatCov(gen_spd(g, n, lo * lo, hi * hi)),
            _ => Noise::MatInf(gen_spd(g, n, 1.0 / (hi * hi), 1.0 / (lo * lo))),
        }
    }
    /// the information matrix the constructor's name and arguments specify
    pub fn info(&self, n: usize) -> M {
        match self {
            Noise::Default | Noise::Unit => M::identity(n, n),
            Noise::ScalarSigma(s) => M::identity(n, n) / (s * s),
            Noise::ScalarCov(c) => M::identity(n, n) / *c,
            Noise::VecSigma(s) => M::from_diagonal(&V::from_iterator(n, s.iter().map(|s| 1.0 / (s * s)))),
            Noise::VecCov(s) => M::from_diagonal(&V::from_iterator(n, s.iter().map(|s| 1.0 / s))),
            Noise::VecInf(s) => M::from_diagonal(&V::from_iterator(n, s.iter().cloned())),
            Noise::MatCov(c) => c.clone().try_inverse().unwrap(),
            Noise::MatInf(c) => c.clone(),
            Noise::Custom(w) => w.transpose() * w,
        }
    }
    pub fn build<const N: usize>(&self) -> Option<GaussianNoise<N>> {
        let v = |x: &Vec<f64>| Vector::<N>::from_iterator(x.iter().cloned());
        let m = |x: &M| Matrix::<N, N>::from_iterator(x.iter().cloned());
        Some(match self {
            Noise::Default | Noise::Unit | Noise::Custom(_) => return None,
            Noise::ScalarSigma(s) => GaussianNoise::from_scalar_sigma(*s),
            Noise::ScalarCov(s) => GaussianNoise::from_scalar_cov(*s),
            Noise::VecSigma(s) => GaussianNoise::from_vec_sigma(v(s).as_view()),
            Noise::VecCov(s) => GaussianNoise::from_vec_cov(v(s).as_view()),
            Noise::VecInf(s) => GaussianNoise::from_vec_inf(v(s).as_view()),
            Noise::MatCov(s) => GaussianNoise::from_matrix_cov(m(s).as_view()),
            Noise::MatInf(s) => GaussianNoise::from_matrix_inf(m(s).as_view()),
        })
    }
    /// the whitening matrix the model uses (checked on its own by C08)
    pub fn whitener<const N: usize>(&self) -> M {
        if let Noise::Custom(w) = self {
            return w.clone();
        }
        match self.build::<N>() {
            None => M::identity(N, N),
            Some(n) => n.whiten_mat(MatrixX::identity(N, N)),
        }
    }
}

// -------------------------------------------------------------------------------------------------------- robust
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rob {
    /// nothing given to the builder
    Default,
    L2,
    L1,
    Huber(f64),
    Fair(f64),
    Cauchy(f64),
    Geman(f64),
    Welsch(f64),
    Tukey(f64),
    /// a user-defined kernel
    Steep(f64),
}
impl Rob {
    /// any kernel a factor can be given, user-defined ones included
    pub fn gen_any(g: &mut Gen) -> Rob {
        if g.chance(1, 10) {
            return Rob::Steep(g.logu(0.3, 10.0));
        }
        Rob::gen(g)
    }
    pub fn gen(g: &mut Gen) -> Rob {
        let c = if g.chance(1, 3) { g.logu(0.05, 50.0) } else { g.uniform(0.5, 6.0) };
        match g.below(9) {
            0 => Rob::Default,
            1 => Rob::L2,
            2 => Rob::L1,
            3 => Rob::Huber(c),
            4 => Rob::Fair(c),
            5 => Rob::Cauchy(c),
            6 => Rob::Geman(c),
            7 => Rob::Welsch(c),
            _ => Rob::Tukey(c),
        }
    }
    /// documented loss of x^2
    pub fn loss(&self, d2: f64) -> f64 {
        let x = d2.sqrt();
        match *self {
            Rob::Default | Rob::L2 => d2 / 2.0,
            Rob::L1 => x,
            Rob::Huber(k) => {
                if x <= k {
                    d2 / 2.0
                } else {
                    k * (x - k / 2.0)
                }
            }
            Rob::Fair(c) => c * c * (x / c - (x / c).ln_1p()),
            Rob::Cauchy(c) => c * c / 2.0 * (d2 / (c * c)).ln_1p(),
            Rob::Geman(c) => c * c * d2 / 2.0 / (c * c + d2),
            Rob::Welsch(c) => -c * c / 2.0 * (-d2 / (c * c)).exp_m1(),
            Rob::Tukey(c) => {
                if x <= c {
                    let u = d2 / (c * c);
                    // 1 - (1-u)^3 = 3u - 3u^2 + u^3
                    c * c / 6.0 * u * (3.0 - 3.0 * u + u * u)
                } else {
                    c * c / 6.0
                }
            }
            Rob::Steep(c) => 4.0 * c * c * ((1.0 + d2 / (c * c)).sqrt() - 1.0),
        }
    }
    /// influence / residual = 2 dloss/d(x^2)
    pub fn weight(&self, d2: f64) -> f64 {
        let x = d2.sqrt();
        match *self {
            Rob::Default | Rob::L2 => 1.0,
            Rob::L1 => {
                if d2 <= 1e-3 {
                    1.0
                } else {
                    1.0 / x
                }
            }
            Rob::Huber(k) => {
                if x <= k {
                    1.0
                } else {
                    k / x
                }
            }
            Rob::Fair(c) => c / (c + x),
            Rob::Cauchy(c) => c * c / (c * c + d2),
            Rob::Geman(c) => (c * c / (c * c + d2)).powi(2),
            Rob::Welsch(c) => (-d2 / (c * c)).exp(),
            Rob::Tukey(c) => {
                if x <= c {
                    (1.0 - d2 / (c * c)).powi(2)
                } else {
                    0.0
                }
            }
            Rob::Steep(c) => 4.0 * c / c.hypot(x),
        }
    }
    /// where the loss has a kink or a jump in its second derivative (as x), or the weight is exempted
    pub fn kink(&self) -> Option<f64> {
        match *self {
            Rob::L1 => Some(1e-3f64.sqrt()),
            Rob::Huber(k) => Some(k),
            Rob::Tukey(c) => Some(c),
            _ => None,
        }
    }
    pub fn boxed(&self) -> Box<dyn RobustCost> {
        match *self {
            Rob::Default | Rob::L2 => Box::new(L2),
            Rob::L1 => Box::new(L1),
            Rob::Huber(c) => Box::new(Huber::new(c)),
            Rob::Fair(c) => Box::new(Fair::new(c)),
            Rob::Cauchy(c) => Box::new(Cauchy::new(c)),
            Rob::Geman(c) => Box::new(GemanMcClure::new(c)),
            Rob::Welsch(c) => Box::new(Welsch::new(c)),
            Rob::Tukey(c) => Box::new(Tukey::new(c)),
            Rob::Steep(c) => Box::new(Steep(c)),
        }
    }
}

pub fn finish<const N: usize>(b: FactorBuilder<N>, n: &Noise, r: &Rob, robust_first: bool) -> Factor {
    let noise = |b: FactorBuilder<N>| match n {
        Noise::Default => b,
        Noise::Unit => b.noise(UnitNoise::<N>),
        Noise::Custom(w) => b.noise(Skewed::<N>(Matrix::<N, N>::from_iterator(w.iter().cloned()))),
        _ => b.noise(n.build::<N>().unwrap()),
    };
    let rob = |b: FactorBuilder<N>| match *r {
        Rob::Default => b,
        Rob::L2 => b.robust(L2),
        Rob::L1 => b.robust(L1),
        Rob::Huber(c) => b.robust(Huber::new(c)),
        Rob::Fair(c) => b.robust(Fair::new(c)),
        Rob::Cauchy(c) => b.robust(Cauchy::new(c)),
        Rob::Geman(c) => b.robust(GemanMcClure::new(c)),
        Rob::Welsch(c) => b.robust(Welsch::new(c)),
        Rob::Tukey(c) => b.robust(Tukey::new(c)),
        Rob::Steep(c) => b.robust(Steep(c)),
    };
    if robust_first {
        noise(rob(b)).build()
    } else {
        rob(noise(b)).build()
    }
}

// ------------------------------------------------------------------------------------------- built-in residuals
pub trait Builtin: Var {
    fn prior(z: Self) -> Box<dyn Residual>;
    fn between(z: Self) -> Box<dyn Residual>;
    fn prior_factor(z: Self, k: Key, n: &Noise, r: &Rob) -> Factor;
    fn between_factor(z: Self, a: Key, b: Key, n: &Noise, r: &Rob) -> Factor;
    fn whitener(n: &Noise) -> M;
    /// reference residual of a prior: log of v^-1 z
    fn prior_ref(z: &Self, v: &Self) -> V {
        Self::from_mat_ref(&Self::relative_mat(&z.mat(), &v.mat())).log_ref()
    }
    /// reference residual of a between: log of b^-1 a z
    fn between_ref(z: &Self, a: &Self, b: &Self) -> V {
        Self::from_mat_ref(&Self::relative_mat(&(a.mat() * z.mat()), &b.mat())).log_ref()
    }
    /// d prior / d v = -Jl^-1(r)
    fn prior_jac(r: &V) -> M {
        -phi1(&Self::ad_ref(r.as_slice())).try_inverse().unwrap()
    }
    /// (d between / d a, d between / d b) = (Jr^-1(r) Ad(z^-1), -Jl^-1(r))
    fn between_jac(z: &Self, r: &V) -> (M, M) {
        let jl = phi1(&Self::ad_ref(r.as_slice())).try_inverse().unwrap();
        let jr = phi1(&(-Self::ad_ref(r.as_slice()))).try_inverse().unwrap();
        let adz = z.adjoint_ref().try_inverse().unwrap();
        (jr * adz, -jl)
    }
}
macro_rules! impl_builtin {
    ($($t:ty, $n:literal);*) => {$(
        impl Builtin for $t {
            fn prior(z: Self) -> Box<dyn Residual> { Box::new(PriorResidual::new(z)) }
            fn between(z: Self) -> Box<dyn Residual> { Box::new(BetweenResidual::new(z)) }
            fn prior_factor(z: Self, k: Key, n: &Noise, r: &Rob) -> Factor {
                finish::<$n>(FactorBuilder::new1_unchecked(PriorResidual::new(z), raw(k)), n, r, false)
            }
            fn between_factor(z: Self, a: Key, b: Key, n: &Noise, r: &Rob) -> Factor {
                finish::<$n>(FactorBuilder::new2_unchecked(BetweenResidual::new(z), raw(a), raw(b)), n, r, true)
            }
            fn whitener(n: &Noise) -> M { n.whitener::<$n>() }
        }
    )*};
}
impl_builtin!(SO2, 1; SO3, 3; SE2, 3; SE3, 6; VectorVar<1>, 1; VectorVar<2>, 2; VectorVar<3>, 3; VectorVar<4>, 4; VectorVar<5>, 5; VectorVar<6>, 6; ImuBias, 6);

/// Run a generic function for one type with built-in residuals, chosen by the tape.
#[macro_export]
macro_rules! for_builtin {
    ($g:expr, $f:ident) => {
        match $g.below(12) {
            0 => $f::<factrs::variables::SO2>($g),
            1 | 2 => $f::<factrs::variables::SE2>($g),
            3 => $f::<factrs::variables::SO3>($g),
            4 | 5 => $f::<factrs::variables::SE3>($g),
            6 => $f::<factrs::variables::VectorVar1>($g),
            7 => $f::<factrs::variables::VectorVar2>($g),
            8 => $f::<factrs::variables::VectorVar3>($g),
            9 => $f::<factrs::variables::VectorVar4>($g),
            10 => match $g.below(2) {
                0 => $f::<factrs::variables::VectorVar5>($g),
                _ => $f::<factrs::variables::VectorVar6>($g),
            },
            _ => $f::<factrs::variables::ImuBias>($g),
        }
    };
}
pub fn dv(x: &V) -> VectorX {
    x.clone()
}
