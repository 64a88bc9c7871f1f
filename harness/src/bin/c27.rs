//! C27: printed forms.
use factrs::{
    containers::{DefaultSymbol, Key, Values},
    linalg::{MatrixX, Vector},
    noise::{GaussianNoise, NoiseModel, UnitNoise},
    residuals::{BetweenResidual, PriorResidual},
    variables::{ImuBias, VectorVar, SE2, SE3, SO2, SO3},
};
use harness::{engine::*, ensure, geom::*, note, vars::*};

/// the numbers of a text that are not part of a name
fn numbers(text: &str) -> Vec<f64> {
    let c: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_');
        let start = c[i].is_ascii_digit() || (c[i] == '-' && c.get(i + 1).map_or(false, |x| x.is_ascii_digit()));
        if !start || word {
            // skip the digits of a name
            if word && c[i].is_ascii_digit() {
                while i < c.len() && c[i].is_alphanumeric() {
                    i += 1;
                }
            } else {
                i += 1;
            }
            continue;
        }
        let mut j = i + 1;
        while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.' || c[j] == 'e' || c[j] == 'E' || (c[j] == '-' && matches!(c[j - 1], 'e' | 'E'))) {
            j += 1;
        }
        if let Ok(x) = c[i..j].iter().collect::<String>().parse() {
            out.push(x);
        }
        i = j;
    }
    out
}
/// printed to three decimals or better
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 0.0005 * (1.0 + 1e-6) + 1e-12 * b.abs()
}
fn same(what: &str, text: &str, want: &[f64]) -> Result<(), String> {
    let got = numbers(text);
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(*a, *b)), "{what} with components {want:?} prints as {text:?}");
    Ok(())
}
/// the same, where the first component is an angle (known up to whole turns)
fn same_angle(what: &str, text: &str, want: &[f64]) -> Result<(), String> {
    let mut got = numbers(text);
    ensure!(!got.is_empty(), "{what} with components {want:?} prints as {text:?}");
    let turns = ((got[0] - want[0]) / std::f64::consts::TAU).round();
    ensure!(got[0].abs() < std::f64::consts::PI + 1e-3, "{what}: the printed angle of {text:?} is not the principal one");
    got[0] -= turns * std::f64::consts::TAU;
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| near(*a, *b)), "{what} with components {want:?} prints as {text:?}");
    Ok(())
}
/// the same, where the first four components are a quaternion (known up to sign)
fn same_quat(what: &str, text: &str, want: &[f64]) -> Result<(), String> {
    let mut neg = want.to_vec();
    neg[..4].iter_mut().for_each(|x| *x = -*x);
    if same(what, text, &neg).is_ok() {
        return Ok(());
    }
    same(what, text, want)
}
fn rot3_of(m: &M) -> nalgebra::Matrix3<f64> {
    nalgebra::Matrix3::from_fn(|i, j| m[(i, j)])
}
fn vector<const N: usize>(g: &mut Gen) -> Outcome {
    let v = gen_vec(g, N);
    note!(g, "{v:?}");
    let x = VectorVar::<N>(Vector::<N>::from_column_slice(&v));
    for t in [format!("{x}"), format!("{x:?}")] {
        same("a vector", &t, &v)?;
    }
    Ok(v.iter().any(|a| a.abs() > 1e-3))
}
fn variables(g: &mut Gen) -> Outcome {
    match g.below(6) {
        0 => {
            let x = SO2::gen(g);
            let m = x.mat();
            note!(g, "{}", x.show());
            same_angle("a rotation", &format!("{x}"), &[so2_ang(&m)])?;
            same("a rotation", &format!("{x:?}"), &[m[(0, 0)], m[(1, 0)]])?;
            Ok(true)
        }
        1 => {
            let x = SE2::gen(g);
            let m = x.mat();
            note!(g, "{}", x.show());
            same_angle("a pose", &format!("{x}"), &[so2_ang(&m), m[(0, 2)], m[(1, 2)]])?;
            same("a pose", &format!("{x:?}"), &[m[(0, 0)], m[(1, 0)], m[(0, 2)], m[(1, 2)]])?;
            Ok(true)
        }
        2 => {
            let x = SO3::gen(g);
            let m = x.mat();
            note!(g, "{}", x.show());
            let q = mat_to_quat(&rot3_of(&m));
            for t in [format!("{x}"), format!("{x:?}")] {
                same_quat("a rotation", &t, &q)?;
            }
            Ok(true)
        }
        3 => {
            let x = SE3::gen(g);
            let m = x.mat();
            note!(g, "{}", x.show());
            let mut want = mat_to_quat(&rot3_of(&m)).to_vec();
            want.extend([m[(0, 3)], m[(1, 3)], m[(2, 3)]]);
            for t in [format!("{x}"), format!("{x:?}")] {
                same_quat("a pose", &t, &want)?;
            }
            Ok(true)
        }
        4 => {
            let v = gen_vec(g, 6);
            note!(g, "gyroscope and accelerometer bias {v:?}");
            let x = ImuBias::new(factrs::residuals::Gyro::new(v[0], v[1], v[2]), factrs::residuals::Accel::new(v[3], v[4], v[5]));
            for t in [format!("{x}"), format!("{x:?}")] {
                same("a bias", &t, &v)?;
            }
            Ok(true)
        }
        _ => match g.below(6) {
            0 => vector::<1>(g),
            1 => vector::<2>(g),
            2 => vector::<3>(g),
            3 => vector::<4>(g),
            4 => vector::<6>(g),
            _ => vector::<12>(g),
        },
    }
}
fn noise_n<const N: usize>(g: &mut Gen) -> Outcome {
    let s = gen_spd(g, N, 1e-3, 1e3);
    let mat = factrs::linalg::Matrix::<N, N>::from_fn(|i, j| s[(i, j)]);
    note!(g, "covariance or information {s:?}");
    let n = match g.below(4) {
        0 => GaussianNoise::<N>::from_matrix_cov(mat.as_view()),
        1 => GaussianNoise::<N>::from_matrix_inf(mat.as_view()),
        2 => GaussianNoise::<N>::from_scalar_sigma(s[(0, 0)]),
        _ => GaussianNoise::<N>::from_vec_cov(Vector::<N>::from_fn(|i, _| s[(i, i)]).as_view()),
    };
    let r = n.whiten_mat(MatrixX::identity(N, N));
    let want: Vec<f64> = (0..N * N).map(|k| r[(k / N, k % N)]).collect();
    let t = format!("{n}");
    same("a noise model", &t, &want)?;
    let head: String = t.chars().take_while(|c| *c != ':' && *c != '\n').collect();
    let dim: String = head.chars().filter(|c| c.is_ascii_digit()).collect();
    ensure!(dim == N.to_string(), "a noise model of dimension {N} prints as {t:?}");
    let u = UnitNoise::<N>;
    ensure!(format!("{u}") == format!("{u:?}") && format!("{u}").contains("Unit"), "unit noise prints as {u}");
    Ok(true)
}
fn noise(g: &mut Gen) -> Outcome {
    match g.below(4) {
        0 => noise_n::<1>(g),
        1 => noise_n::<2>(g),
        2 => noise_n::<3>(g),
        _ => noise_n::<6>(g),
    }
}
fn residual<P: Var>(g: &mut Gen) -> Outcome {
    let x = P::gen(g);
    let shown = format!("{x:?}");
    note!(g, "{shown}");
    let (p, b) = (PriorResidual::new(x.clone()), BetweenResidual::new(x.clone()));
    for t in [format!("{p}"), format!("{p:?}"), format!("{b}"), format!("{b:?}")] {
        ensure!(t.matches(&shown).count() == 1, "a residual with measurement {shown} prints as {t:?}");
    }
    Ok(true)
}
fn residuals(g: &mut Gen) -> Outcome {
    match g.below(6) {
        0 => residual::<SO2>(g),
        1 => residual::<SE2>(g),
        2 => residual::<SO3>(g),
        3 => residual::<SE3>(g),
        4 => residual::<ImuBias>(g),
        _ => residual::<VectorVar<3>>(g),
    }
}
/// a store prints every entry once, its symbol followed by its own variable
fn stores(g: &mut Gen) -> Outcome {
    g.hash_order();
    let mut v = Values::new();
    let mut want: Vec<(Key, String, String)> = vec![];
    let n = if g.chance(1, 20) { g.range(50, 300) } else { g.range(0, 12) };
    for _ in 0..n {
        let (c, i) = ((b'a' + g.below(26) as u8) as char, g.below(if n > 12 { 1000 } else { 12 }));
        let s = DefaultSymbol::new(c, i);
        let name = format!("{s:?}");
        let k: Key = s.into();
        macro_rules! put {
            ($x:expr) => {{
                let x = $x;
                let t = format!("{x:?}");
                v.insert_unchecked(k, x);
                t
            }};
        }
        let t = match g.below(4) {
            0 => put!(SO2::gen(g)),
            1 => put!(SE2::gen(g)),
            2 => put!(SE3::gen(g)),
            _ => put!(VectorVar::<2>(Vector::<2>::from_column_slice(&gen_vec(g, 2)))),
        };
        want.retain(|w| w.0 != k);
        want.push((k, name, t));
    }
    note!(g, "entries {:?}", want.iter().map(|w| &w.1).collect::<Vec<_>>());
    for text in [format!("{v}"), format!("{v:?}"), format!("{v:#}"), format!("{v:#?}")] {
        let mut at: Vec<(usize, &str)> = vec![];
        for (_, name, t) in &want {
            let here: Vec<usize> = text.match_indices(name.as_str()).map(|x| x.0).collect();
            ensure!(here.len() == 1, "the store prints the entry {name} {} times: {text:?}", here.len());
            at.push((here[0] + name.len(), t));
        }
        at.sort();
        for i in 0..at.len() {
            let end = at.get(i + 1).map_or(text.len(), |x| x.0);
            let part = &text[at[i].0..end];
            ensure!(part.contains(at[i].1), "the store prints {part:?} for the variable {}", at[i].1);
        }
    }
    Ok(want.len() > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C27",
        rule: "variables of every type (all angles, both quaternion signs, coordinates 1e-6..1e6), Gaussian models of dimension 1 to 6, prior and between residuals, stores of 0..300 entries: the numbers of the printed text, in order, are the object's components computed from its action (angle, cosine and sine, quaternion up to sign, coordinates, square-root information) to half a unit of the third decimal; a residual shows its measurement, a store each entry once with its own variable. Non-trivial: not all components below the printed precision / at least two entries.",
        assumptions: &["finite components"],
        subs: vec![sub("variables", 60_000, variables), sub("noise", 20_000, noise), sub("residuals", 20_000, residuals), sub("stores", 8_000, stores)],
    });
}
