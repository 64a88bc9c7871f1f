//! C22: what the factor macro builds, compared with the explicit builder. The forms are generated by fac_check.py.
use factrs::{
    assign_symbols,
    containers::{Factor, FactorBuilder, Key, Values},
    fac,
    linalg::Matrix,
    noise::{GaussianNoise, UnitNoise},
    residuals::{BetweenResidual, PriorResidual},
    robust::{Cauchy, Fair, GemanMcClure, Huber, Tukey, Welsch, L1, L2},
    variables::{ImuBias, SE2, SE3, SO2, SO3},
};
use harness::{
    engine::*,
    ensure,
    geom::*,
    note,
    res::{raw, R1, R2, R3, R4, R5, R6, V1, V2, V3},
    funcs::{gen_point, Scaled},
};

assign_symbols!(P: SE2; Q: SE3; R: SO3; S: SO2; A: V1; B: V2; C: V3; D: Scaled; E: ImuBias);

pub struct Args {
    r1: R1,
    r2: R2,
    r3: R3,
    r4: R4,
    r5: R5,
    r6: R6,
    zs: SO2,
    zq: SE3,
    ze: ImuBias,
    zp: SE2,
    zr: SO3,
    zc: V3,
    /// positive numbers
    n: [f64; 7],
    k: [u64; 6],
    spd: M,
}
impl Args {
    fn cov<const N: usize>(&self) -> Matrix<N, N> {
        Matrix::<N, N>::from_fn(|i, j| self.spd[(i, j)])
    }
}
pub struct Built {
    macro_made: Factor,
    explicit: Factor,
    keys: Vec<Key>,
    evaluated: usize,
    expected: usize,
}
pub struct Form {
    text: &'static str,
    kind: &'static str,
    f: fn(&Args) -> Built,
}
include!("../../../out/gen/fac_forms.rs");

fn case(g: &mut Gen) -> Outcome {
    g.hash_order();
    let all = forms();
    let form = &all[g.below(all.len() as u64) as usize];
    note!(g, "{}", form.text);
    let (r1, x1) = R1::gen(g);
    let (r2, x2) = R2::gen(g);
    let (r3, x3) = R3::gen(g);
    let (r4, x4) = R4::gen(g);
    let (r5, x5) = R5::gen(g);
    let (r6, x6) = R6::gen(g);
    let mut n = [0.0; 7];
    n.iter_mut().for_each(|x| *x = g.logu(0.05, 5.0));
    let mut k = [0u64; 6];
    for (i, k) in k.iter_mut().enumerate() {
        *k = 100 * (i as u64 + 1) + g.below(90);
    }
    let spd = gen_spd(g, 6, 0.1, 4.0);
    let a = Args {
        r1, r2, r3, r4, r5, r6,
        zs: gen_point(g), zq: gen_point(g), ze: gen_point(g), zp: gen_point(g), zr: gen_point(g), zc: gen_point(g),
        n, k, spd,
    };
    let b = (form.f)(&a);
    ensure!(b.macro_made.keys() == &b.keys[..], "keys {:?} instead of {:?}", b.macro_made.keys(), b.keys);
    ensure!(b.explicit.keys() == &b.keys[..], "keys {:?} instead of {:?} (explicit)", b.explicit.keys(), b.keys);
    ensure!(b.evaluated == b.expected, "the expressions were evaluated {} times, expected {}", b.evaluated, b.expected);
    ensure!(b.macro_made.dim_out() == b.explicit.dim_out(), "dimension {} instead of {}", b.macro_made.dim_out(), b.explicit.dim_out());
    let mut v = Values::new();
    macro_rules! put { ($($i:literal : $x:expr),*) => {{ $( v.insert_unchecked(raw(b.keys[$i]), $x.clone()); )* }} }
    match form.kind {
        "R1" => put!(0: x1.0),
        "R2" => put!(0: x2.0, 1: x2.1),
        "R3" => put!(0: x3.0, 1: x3.1, 2: x3.2),
        "R4" => put!(0: x4.0, 1: x4.1, 2: x4.2, 3: x4.3),
        "R5" => put!(0: x5.0, 1: x5.1, 2: x5.2, 3: x5.3, 4: x5.4),
        "R6" => put!(0: x6.0, 1: x6.1, 2: x6.2, 3: x6.3, 4: x6.4, 5: x6.5),
        "PriorSO2" => put!(0: gen_point::<SO2>(g)),
        "PriorSE3" => put!(0: gen_point::<SE3>(g)),
        "PriorBias" => put!(0: gen_point::<ImuBias>(g)),
        "BetweenSE2" => put!(0: gen_point::<SE2>(g), 1: gen_point::<SE2>(g)),
        "BetweenSO3" => put!(0: gen_point::<SO3>(g), 1: gen_point::<SO3>(g)),
        "BetweenV3" => put!(0: gen_point::<V3>(g), 1: gen_point::<V3>(g)),
        _ => unreachable!(),
    }
    let (e1, e2) = (b.macro_made.error(&v), b.explicit.error(&v));
    let near = |x: f64, y: f64| (x - y).abs() <= 1e-12 * (1.0 + x.abs() + y.abs()) || (x.is_nan() && y.is_nan());
    ensure!(near(e1, e2), "error {e1} instead of {e2}");
    let (l1, l2) = (b.macro_made.linearize(&v), b.explicit.linearize(&v));
    ensure!(l1.keys == l2.keys, "linearised keys {:?} instead of {:?}", l1.keys, l2.keys);
    ensure!(l1.a.mat().shape() == l2.a.mat().shape() && l1.a.idx() == l2.a.idx(), "linearised shape differs");
    ensure!(l1.a.mat().iter().zip(l2.a.mat().iter()).all(|(x, y)| near(*x, *y)), "Jacobian {} instead of {}", l1.a.mat(), l2.a.mat());
    ensure!(l1.b.iter().zip(l2.b.iter()).all(|(x, y)| near(*x, *y)), "right-hand side {} instead of {}", l1.b, l2.b);
    g.class(form.kind);
    Ok(e1.abs() > 1e-9)
}

fn main() {
    harness::engine::main(Property {
        id: "C22",
        rule: "the factor's error at the generated values is not zero",
        assumptions: &["forms are drawn from the grammar residual, key(s), optional noise, optional robust kernel, optional trailing comma"],
        subs: vec![sub("forms", 20000, case)],
    });
}
