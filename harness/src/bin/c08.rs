//! C08: Gaussian noise models.
use factrs::{
    linalg::{Matrix, MatrixX, Vector},
    noise::{GaussianNoise, NoiseModel, UnitNoise},
};
use harness::{engine::*, ensure, geom::*, graphs::Noise, note};

fn norm2(v: &V) -> f64 {
    v.iter().map(|x| x * x).sum()
}
/// test vector: random, a coordinate axis, or with entries of very different size
fn gen_v(g: &mut Gen, n: usize) -> V {
    match g.below(4) {
        0 => {
            let mut v = V::zeros(n);
            let i = g.below(n as u64) as usize;
            v[i] = g.sign();
            v
        }
        1 => V::from_fn(n, |_, _| g.logu(1e-4, 1e4) * g.sign()),
        _ => {
            let s = g.logu(1e-3, 1e3);
            V::from_fn(n, |_, _| g.sym(s))
        }
    }
}
/// `a` is the whitened vector of `v`, `info` what the squared norm must be taken with
fn maha<const N: usize>(g: &mut Gen, what: &str, noise: &dyn NoiseModelD, info: &M, cond: f64) -> Outcome {
    let v = gen_v(g, N);
    let u = gen_v(g, N);
    note!(g, "v = {:?}", v.as_slice());
    let wv = noise.vec(v.clone());
    ensure!(wv.len() == N, "{what}: whitened vector has {} entries", wv.len());
    let want = (v.transpose() * info * &v)[(0, 0)];
    let size = v.amax().powi(2) * info.amax() * N as f64;
    ensure!((norm2(&wv) - want).abs() <= 1e-11 * cond * want + if cond == 1.0 { 0.0 } else { 1e-13 * cond.min(1e3) * size }, "{what}: squared norm of the whitened vector is {}, Mahalanobis norm {want}", norm2(&wv));
    // linearity
    let (a, b) = (g.sym(3.0), g.sym(3.0));
    let l = noise.vec(&v * a + &u * b);
    let r = noise.vec(v.clone()) * a + noise.vec(u.clone()) * b;
    let s = 1.0 + maxabs(l.iter()) + maxabs(noise.vec(v.clone()).iter()) + maxabs(noise.vec(u.clone()).iter());
    ensure!(diff_v(&l, &r) < 1e-12 * s * N as f64, "{what}: whitening is not linear: {l} and {r}");
    // matrices column by column
    let k = if g.chance(1, 6) { g.range(9, 70) } else { g.range(1, 8) };
    let cols: Vec<V> = (0..k).map(|_| gen_v(g, N)).collect();
    let m = MatrixX::from_columns(&cols);
    let wm = noise.mat(m.clone());
    ensure!(wm.shape() == (N, k), "{what}: whitened matrix has shape {:?}", wm.shape());
    for (i, c) in cols.iter().enumerate() {
        let w = noise.vec(c.clone());
        let s = maxabs(w.iter()) + 1e-300;
        ensure!(diff_v(&w, &wm.column(i).into_owned()) <= 1e-12 * s, "{what}: column {i} whitens to {:?} in a matrix and {:?} alone", wm.column(i).as_slice(), w.as_slice());
    }
    Ok(true)
}
fn diff_v(a: &V, b: &V) -> f64 {
    vdiff(a.as_slice(), b.as_slice())
}
trait NoiseModelD {
    fn vec(&self, v: V) -> V;
    fn mat(&self, m: M) -> M;
}
impl<T: NoiseModel> NoiseModelD for T {
    fn vec(&self, v: V) -> V {
        self.whiten_vec(v)
    }
    fn mat(&self, m: M) -> M {
        self.whiten_mat(m)
    }
}

fn one<const N: usize>(g: &mut Gen) -> Outcome {
    // standard deviations spread over up to `spread`, anywhere between 1e-5 and 1e4
    let wide = g.chance(1, 4);
    let spread = if wide { 1e6 } else { *g.pick(&[1.0, 3.0, 100.0]) };
    let lo = g.logu(1e-5, 1e2);
    let hi = lo * spread * 1.0001;
    let spec = match Noise::gen(g, N, lo, hi) {
        // full matrices stay well conditioned
        Noise::MatCov(_) | Noise::MatInf(_) if wide => Noise::VecSigma((0..N).map(|_| g.logu(lo, hi)).collect()),
        // no information at all about some of the components
        Noise::VecInf(mut v) if g.chance(1, 4) => {
            g.class("zero information");
            for x in v.iter_mut() {
                if g.bool() {
                    *x = 0.0;
                }
            }
            Noise::VecInf(v)
        }
        s => s,
    };
    note!(g, "N = {N}, {spec:?}");
    let cond = match spec {
        Noise::MatCov(_) | Noise::MatInf(_) => spread * spread * 10.0,
        _ => 1.0,
    };
    match spec.build::<N>() {
        None => {
            let u = if g.bool() { UnitNoise::<N> } else { GaussianNoise::<N>::identity() };
            ensure!(u.dim() == N, "unit noise has dimension {}", u.dim());
            let v = gen_v(g, N);
            ensure!(u.whiten_vec(v.clone()) == v, "unit noise changes a vector");
            let k = if g.bool() { 4 } else { g.range(1, 70) };
            let m = MatrixX::from_fn(N, k, |_, _| g.sym(5.0));
            ensure!(u.whiten_mat(m.clone()) == m, "unit noise changes a matrix");
            g.class("unit");
            Ok(true)
        }
        Some(n) => {
            ensure!(n.dim() == N, "noise has dimension {}", n.dim());
            maha::<N>(g, "noise", &n, &spec.info(N), cond)?;
            // v = C u has Mahalanobis norm u^T C u, without inverting anything
            if let Noise::MatCov(c) = &spec {
                let u = gen_v(g, N);
                let want = (u.transpose() * c * &u)[(0, 0)];
                let got = norm2(&n.whiten_vec(c * &u));
                ensure!((got - want).abs() < 1e-11 * cond * cond * (want + 1e-6 * u.amax().powi(2) * c.amax()), "matrix covariance: norm of C u is {got}, u^T C u = {want}");
                g.class("full covariance");
            }
            Ok(true)
        }
    }
}
fn specs(g: &mut Gen) -> Outcome {
    match g.below(8) {
        0 => one::<1>(g),
        1 => one::<2>(g),
        2 => one::<3>(g),
        3 => one::<4>(g),
        4 => one::<5>(g),
        5 => one::<6>(g),
        6 => one::<9>(g),
        _ => one::<15>(g),
    }
}

/// different descriptions of one covariance
fn agree_n<const N: usize>(g: &mut Gen, diag: Option<fn(&[f64]) -> (GaussianNoise<N>, GaussianNoise<N>)>) -> Outcome {
    let same = g.chance(1, 4);
    let s0 = g.logu(1e-3, 1e3);
    let s: Vec<f64> = (0..N).map(|_| if same { s0 } else { s0 * g.logu(0.1, 10.0) }).collect();
    note!(g, "standard deviations {s:?}");
    let vs = Vector::<N>::from_iterator(s.iter().cloned());
    let vc = vs.map(|x| x * x);
    let vi = vc.map(|x| 1.0 / x);
    let mc = Matrix::<N, N>::from_diagonal(&vc);
    let mi = Matrix::<N, N>::from_diagonal(&vi);
    let mut all: Vec<(&str, GaussianNoise<N>)> = vec![
        ("vec_sigma", GaussianNoise::from_vec_sigma(vs.as_view())),
        ("vec_cov", GaussianNoise::from_vec_cov(vc.as_view())),
        ("vec_inf", GaussianNoise::from_vec_inf(vi.as_view())),
        ("matrix_cov", GaussianNoise::from_matrix_cov(mc.as_view())),
        ("matrix_inf", GaussianNoise::from_matrix_inf(mi.as_view())),
    ];
    if same {
        all.push(("scalar_sigma", GaussianNoise::from_scalar_sigma(s0)));
        all.push(("scalar_cov", GaussianNoise::from_scalar_cov(s0 * s0)));
    }
    if let Some(f) = diag {
        let (a, _) = f(&s);
        let (_, b) = f(vc.as_slice());
        all.push(("diag_sigmas", a));
        all.push(("diag_covs", b));
        g.class("diag constructors");
    }
    let v = gen_v(g, N);
    let want: f64 = (0..N).map(|i| (v[i] / s[i]).powi(2)).sum();
    for (name, n) in &all {
        let w = n.whiten_vec(v.clone());
        ensure!((norm2(&w) - want).abs() < 1e-11 * want, "{name}: squared norm {} for v = {:?}, sigma {s:?}; expected {want}", norm2(&w), v.as_slice());
        // diagonal models treat each component on its own
        let i = g.below(N as u64) as usize;
        let mut e = V::zeros(N);
        e[i] = v[i];
        let w = n.whiten_vec(e);
        ensure!((norm2(&w) - (v[i] / s[i]).powi(2)).abs() <= 1e-11 * (v[i] / s[i]).powi(2), "{name}: component {i} has weight {} instead of {}", norm2(&w), (v[i] / s[i]).powi(2));
    }
    Ok(true)
}
fn agree(g: &mut Gen) -> Outcome {
    macro_rules! d { ($n:literal, $($i:literal),*) => { agree_n::<$n>(g, Some(|s: &[f64]| (GaussianNoise::<$n>::from_diag_sigmas($(s[$i]),*), GaussianNoise::<$n>::from_diag_covs($(s[$i]),*)))) } }
    match g.below(7) {
        0 => d!(1, 0),
        1 => d!(2, 0, 1),
        2 => d!(3, 0, 1, 2),
        3 => d!(4, 0, 1, 2, 3),
        4 => d!(5, 0, 1, 2, 3, 4),
        5 => d!(6, 0, 1, 2, 3, 4, 5),
        _ => agree_n::<9>(g, None),
    }
}

/// covariance and information of one dense matrix agree; order of variables does not matter
fn dense_n<const N: usize>(g: &mut Gen) -> Outcome {
    let lo = g.logu(1e-4, 1.0);
    let c = gen_spd(g, N, lo, lo * 1e3);
    let i = c.clone().try_inverse().unwrap();
    let i = (&i + i.transpose()) * 0.5;
    let sc = Matrix::<N, N>::from_iterator(c.iter().cloned());
    let si = Matrix::<N, N>::from_iterator(i.iter().cloned());
    let (a, b) = (GaussianNoise::<N>::from_matrix_cov(sc.as_view()), GaussianNoise::<N>::from_matrix_inf(si.as_view()));
    let v = gen_v(g, N);
    note!(g, "covariance {c}, v = {:?}", v.as_slice());
    let (x, y) = (norm2(&a.whiten_vec(v.clone())), norm2(&b.whiten_vec(v.clone())));
    ensure!((x - y).abs() < 1e-8 * x, "covariance gives {x}, its inverse as information {y}");
    // permuted problem
    let mut p: Vec<usize> = (0..N).collect();
    g.shuffle(&mut p);
    let pc = Matrix::<N, N>::from_fn(|r, k| c[(p[r], p[k])]);
    let pv = V::from_fn(N, |r, _| v[p[r]]);
    let z = norm2(&GaussianNoise::<N>::from_matrix_cov(pc.as_view()).whiten_vec(pv));
    ensure!((x - z).abs() < 1e-8 * x, "norm {x} becomes {z} when the components are renumbered");
    Ok(true)
}
fn dense(g: &mut Gen) -> Outcome {
    match g.below(6) {
        0 => dense_n::<2>(g),
        1 => dense_n::<3>(g),
        2 => dense_n::<4>(g),
        3 => dense_n::<5>(g),
        4 => dense_n::<6>(g),
        _ => dense_n::<15>(g),
    }
}

fn main() {
    harness::engine::main(Property {
        id: "C08",
        rule: "dimension 1..6, 9, 15; every constructor with standard deviations 1e-5..1e4 and spread up to 100 (1e6 for models that treat the components separately), dense matrices with random eigenvectors; vectors random, axis-aligned or with entries 1e-4..1e4; matrices of 1..70 columns. Oracle: v^T Omega v computed densely from the constructor's arguments (and u^T C u for v = C u, without inversion). Every case is non-trivial.",
        assumptions: &["covariance matrices are symmetric positive definite with condition number up to 1e4"],
        subs: vec![sub("specs", 300_000, specs), sub("agree", 150_000, agree), sub("dense", 100_000, dense)],
    });
}
