//! C06: numerical differentiation and the scalar derivative helpers return true derivatives.
use factrs::{
    linalg::{forward_prop_derivative, Diff, numerical_derivative, DiffResult, DualScalar, Numeric, NumericalDiff, Vector3},
    variables::{Variable, VectorVar, SE2, SE3, SO2, SO3},
};
use harness::{engine::*, ensure, funcs::*, geom::*, note, vars::*};

fn numeric(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    let (w, t) = match g.below(3) {
        0 => (Which::Num6, 3e-8),
        1 => (Which::Num5, 1e-8),
        _ => (Which::Num4, 1e-6),
    };
    let c = any_case(g, &w);
    ensure!(vdiff(c.got_value.as_slice(), c.value.as_slice()) <= 1e-14 * (1.0 + maxabs(c.value.iter())), "{}: value {:?}, function gives {:?}", c.label, c.got_value.as_slice(), c.value.as_slice());
    ensure!(c.got_jac.shape() == c.jac.shape(), "{}: Jacobian has shape {:?}, not {:?}", c.label, c.got_jac.shape(), c.jac.shape());
    let tol = t * c.scale * c.scale;
    let d = diff(&c.got_jac, &c.jac);
    ensure!(d < tol, "{}: Jacobian is {} but the derivative is {} (difference {:e}, tolerance {:e})", c.label, c.got_jac, c.jac, d, tol);
    Ok(maxabs(c.jac.iter()) > 1e-6)
}

// ------------------------------------------------------------------------------------- variable-valued functions
type Vv1 = VectorVar<1>;
type Vv2 = VectorVar<2>;
type Vv3 = VectorVar<3>;
macro_rules! var_case {
    ($g:expr, $jac:ident, $out:ident, $f:expr, [$($v:ident : $t:ident),*]) => {{
        let g: &mut Gen = $g;
        $( let $v = <$t as Var>::gen_o(g, 2.5, 3.0); )*
        $( note!(g, "{} = {}", stringify!($v), $v.show()); )*
        let f = $f;
        let pw = g.below(3);
        let DiffResult { value, diff: jac } = match pw {
            0 => NumericalDiff::<6>::$jac(&f, $(&$v),*),
            1 => NumericalDiff::<5>::$jac(&f, $(&$v),*),
            _ => NumericalDiff::<4>::$jac(&f, $(&$v),*),
        };
        let v0: $out = f($($v.clone()),*);
        ensure!(diff(&value.mat(), &v0.mat()) < 1e-12 * v0.mag(), "{}: value {} instead of {}", stringify!($jac), value.show(), v0.show());
        let dims = [$(<$t as Var>::N),*];
        let mut want = M::zeros(<$out as Var>::N, dims.iter().sum());
        let inv = v0.mat().try_inverse().unwrap();
        let mut col = 0;
        #[allow(unused_assignments)]
        for (i, d) in dims.iter().enumerate() {
            for j in 0..*d {
                let c = fd6(|h| {
                    let mut k = 0;
                    $( let $v = if k == i { let mut e = vec![0.0; <$t as Var>::N]; e[j] = h; $v.retract_ref(&e) } else { $v.clone() }; k += 1; )*
                    let y: $out = f($($v),*);
                    // d/dh of vee(Y0^-1 Y(h)) at h = 0
                    <$out as Var>::vee_ref(&(&inv * y.mat()))
                }, 2e-3);
                want.set_column(col, &c);
                col += 1;
            }
        }
        let mut scale = v0.mag();
        $( scale += maxabs($v.mat().iter()); )*
        let tol = [1e-7, 1e-7, 1e-6][pw as usize] * scale * scale;
        ensure!(diff(&jac, &want) < tol, "{}: Jacobian {} but the derivative is {}", stringify!($jac), jac, want);
        Ok(maxabs(want.iter()) > 1e-6)
    }};
}
fn variable(g: &mut Gen) -> Outcome {
    let k = <SE3 as Var>::gen_o(g, 2.0, 2.0);
    let k2 = <SE2 as Var>::gen_o(g, 2.0, 2.0);
    let k3 = <SO3 as Var>::gen_o(g, 2.0, 2.0);
    let e3 = |v: &Vv3| SO3::exp(vx(&[v[0], v[1], v[2]]).as_view());
    match g.below(9) {
        0 => var_case!(g, jacobian_variable_1, SE3, |a: SE3| k.compose(&a.inverse()), [a: SE3]),
        1 => var_case!(g, jacobian_variable_1, Vv2, |a: SE2| Vv2::new(a.x() * a.theta().sin(), a.y()), [a: SE2]),
        2 => var_case!(g, jacobian_variable_2, SE3, |a: SO3, b: Vv3| SE3::from_rot_trans(a.compose(&k3), Vector3::new(b[0], b[1] * b[0], b[2])).compose(&k), [a: SO3, b: Vv3]),
        3 => var_case!(g, jacobian_variable_2, SE2, |a: Vv1, b: SE2| b.compose(&SE2::new(a[0], a[0] * a[0], 1.0)).compose(&k2), [a: Vv1, b: SE2]),
        4 => var_case!(g, jacobian_variable_3, SE2, |a: SE2, b: SO2, c: Vv2| a.compose(&SE2::new(0.0, c[0], c[1])).compose(&SE2::new(b.to_theta(), 0.5, 0.0)), [a: SE2, b: SO2, c: Vv2]),
        5 => var_case!(g, jacobian_variable_4, SO3, |a: SO3, b: Vv1, c: SO3, d: Vv3| a.compose(&e3(&Vv3::new(b[0], 0.2, 0.0))).compose(&c).compose(&e3(&d)), [a: SO3, b: Vv1, c: SO3, d: Vv3]),
        6 => var_case!(g, jacobian_variable_5, SE3, |a: SE3, b: Vv1, c: SO3, d: Vv2, e: SE3| a.compose(&SE3::from_rot_trans(c, Vector3::new(b[0], d[0], d[1]))).compose(&e.inverse()), [a: SE3, b: Vv1, c: SO3, d: Vv2, e: SE3]),
        7 => var_case!(g, jacobian_variable_6, SE2, |a: SE2, b: SO2, c: Vv1, d: SE2, e: Vv2, f: Vv1| a.compose(&SE2::new(b.to_theta() + f[0], c[0], e[0])).compose(&d.inverse()).compose(&SE2::new(0.3, e[1], f[0])), [a: SE2, b: SO2, c: Vv1, d: SE2, e: Vv2, f: Vv1]),
        _ => var_case!(g, jacobian_variable_3, Vv3, |a: Vv3, b: SO3, c: SE3| { let p = factrs::variables::MatrixLieGroup::apply(&b, Vector3::new(a[0], a[1], a[2]).as_view()); let q = factrs::variables::MatrixLieGroup::apply(&c, p.as_view()); Vv3::new(q[0], q[1], q[2]) }, [a: Vv3, b: SO3, c: SE3]),
    }
}

// ------------------------------------------------------------------------------------------------- scalar expressions
#[derive(Debug, Clone)]
enum E {
    X,
    C(f64),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    /// a / (1 + b^2)
    Div(Box<E>, Box<E>),
    Sin(Box<E>),
    Cos(Box<E>),
    /// exp(sin a)
    Exp(Box<E>),
    /// sqrt(1 + a^2)
    Sqrt(Box<E>),
    /// ln(1 + a^2)
    Ln(Box<E>),
    Atan(Box<E>),
    Pow(Box<E>, i32),
}
fn gen_expr(g: &mut Gen, depth: u32) -> E {
    if depth == 0 {
        return if g.chance(1, 3) { E::C(g.sym(3.0)) } else { E::X };
    }
    let d = depth - 1;
    match g.below(12) {
        0 => E::X,
        1 => E::Add(gen_expr(g, d).into(), gen_expr(g, d).into()),
        2 => E::Sub(gen_expr(g, d).into(), gen_expr(g, d).into()),
        3 | 4 => E::Mul(gen_expr(g, d).into(), gen_expr(g, d).into()),
        5 => E::Div(gen_expr(g, d).into(), gen_expr(g, d).into()),
        6 => E::Sin(gen_expr(g, d).into()),
        7 => E::Cos(gen_expr(g, d).into()),
        8 => E::Exp(gen_expr(g, d).into()),
        9 => E::Sqrt(gen_expr(g, d).into()),
        10 => if g.bool() { E::Ln(gen_expr(g, d).into()) } else { E::Atan(gen_expr(g, d).into()) },
        _ => E::Pow(gen_expr(g, d).into(), g.range(2, 4) as i32),
    }
}
fn eval<T: Numeric>(e: &E, x: T) -> T {
    let one = T::from(1.0);
    match e {
        E::X => x,
        E::C(c) => T::from(*c),
        E::Add(a, b) => eval(a, x) + eval(b, x),
        E::Sub(a, b) => eval(a, x) - eval(b, x),
        E::Mul(a, b) => eval(a, x) * eval(b, x),
        E::Div(a, b) => {
            let b = eval(b, x);
            eval(a, x) / (one + b * b)
        }
        E::Sin(a) => nalgebra::ComplexField::sin(eval(a, x)),
        E::Cos(a) => nalgebra::ComplexField::cos(eval(a, x)),
        E::Exp(a) => nalgebra::ComplexField::exp(nalgebra::ComplexField::sin(eval(a, x))),
        E::Sqrt(a) => {
            let a = eval(a, x);
            nalgebra::ComplexField::sqrt(one + a * a)
        }
        E::Ln(a) => {
            let a = eval(a, x);
            nalgebra::ComplexField::ln(one + a * a)
        }
        E::Atan(a) => nalgebra::ComplexField::atan(eval(a, x)),
        E::Pow(a, n) => nalgebra::ComplexField::powi(eval(a, x), *n),
    }
}
/// value and derivative by the rules of calculus
fn both(e: &E, x: f64) -> (f64, f64) {
    match e {
        E::X => (x, 1.0),
        E::C(c) => (*c, 0.0),
        E::Add(a, b) => {
            let ((a, da), (b, db)) = (both(a, x), both(b, x));
            (a + b, da + db)
        }
        E::Sub(a, b) => {
            let ((a, da), (b, db)) = (both(a, x), both(b, x));
            (a - b, da - db)
        }
        E::Mul(a, b) => {
            let ((a, da), (b, db)) = (both(a, x), both(b, x));
            (a * b, da * b + a * db)
        }
        E::Div(a, b) => {
            let ((a, da), (b, db)) = (both(a, x), both(b, x));
            let q = 1.0 + b * b;
            (a / q, da / q - a * 2.0 * b * db / (q * q))
        }
        E::Sin(a) => {
            let (a, d) = both(a, x);
            (a.sin(), a.cos() * d)
        }
        E::Cos(a) => {
            let (a, d) = both(a, x);
            (a.cos(), -a.sin() * d)
        }
        E::Exp(a) => {
            let (a, d) = both(a, x);
            (a.sin().exp(), a.sin().exp() * a.cos() * d)
        }
        E::Sqrt(a) => {
            let (a, d) = both(a, x);
            let s = (1.0 + a * a).sqrt();
            (s, a * d / s)
        }
        E::Ln(a) => {
            let (a, d) = both(a, x);
            ((1.0 + a * a).ln(), 2.0 * a * d / (1.0 + a * a))
        }
        E::Atan(a) => {
            let (a, d) = both(a, x);
            (a.atan(), d / (1.0 + a * a))
        }
        E::Pow(a, n) => {
            let (a, d) = both(a, x);
            (a.powi(*n), *n as f64 * a.powi(*n - 1) * d)
        }
    }
}
/// largest value or derivative of any sub-expression around x
fn size(e: &E, x: f64) -> f64 {
    let mut m = 1.0f64;
    for k in -2..=2 {
        let (a, b) = both(e, x + k as f64 * 1e-3);
        m = m.max(a.abs()).max(b.abs());
    }
    match e {
        E::X | E::C(_) => m,
        E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) | E::Div(a, b) => m.max(size(a, x)).max(size(b, x)),
        E::Sin(a) | E::Cos(a) | E::Exp(a) | E::Sqrt(a) | E::Ln(a) | E::Atan(a) | E::Pow(a, _) => m.max(size(a, x)),
    }
}
fn scalar(g: &mut Gen) -> Outcome {
    let x = if g.chance(1, 5) { g.sym(40.0) } else { g.sym(3.0) };
    let depth = g.range(1, 4) as u32;
    let e = gen_expr(g, depth);
    let eps = g.logu(1e-7, 1e-2);
    note!(g, "x = {x}, eps = {eps:e}, f = {e:?}");
    let (v, d) = both(&e, x);
    // everything that can be rounded on the way
    let size = size(&e, x).powi(2);
    // the value is the function's, whatever the size
    let exact = eval(&e, x);
    if exact.is_finite() && exact.abs() < 1e200 {
        let value = numerical_derivative(|t| eval(&e, t), x, eps).value;
        ensure!((value - exact).abs() <= 1e-14 * exact.abs(), "numerical with step {eps:e}: value {value} of a function with value {exact}");
    }
    if size > 1e6 {
        g.class("skipped: huge");
        return Ok(false);
    }
    let DiffResult { value, diff } = forward_prop_derivative(|t: DualScalar| eval(&e, t), x);
    ensure!((value - v).abs() < 1e-12 * size, "forward: value {value} of a function with value {v}");
    ensure!((diff - d).abs() < 1e-9 * size, "forward: derivative {diff}, true derivative {d}");
    let DiffResult { value, diff } = numerical_derivative(|t| eval(&e, t), x, eps);
    ensure!((value - v).abs() < 1e-12 * size, "numerical: value {value} of a function with value {v}");
    // truncation bounded through the third derivative around x
    let mut third = 0.0f64;
    for (k, h) in [1e-3, 1e-4, 1e-5].iter().flat_map(|h| (-2..=2).map(move |k| (k, *h))) {
        let y = x + k as f64 * h;
        third = third.max(((both(&e, y + h).1 - 2.0 * both(&e, y).1 + both(&e, y - h).1) / (h * h)).abs());
    }
    let tol = 5.0 * third * eps * eps + 1e-13 * size / eps + 1e-9 * size;
    ensure!((diff - d).abs() < tol, "numerical with step {eps:e}: derivative {diff}, true derivative {d}, tolerance {tol:e}");
    Ok(d.abs() > 1e-6)
}

/// derivatives are linear in the function: multiplying it by a power of two multiplies value and derivative exactly
fn scaled(g: &mut Gen) -> Outcome {
    type D5 = nalgebra::Const<5>;
    type T5 = factrs::linalg::DualVector<D5>;
    let x = Vv2::new(g.sym(3.0), g.sym(3.0));
    let y = <SE2 as Var>::gen_o(g, 2.5, 3.0);
    let (e1, e2, e3) = (gen_expr(g, 2), gen_expr(g, 2), gen_expr(g, 2));
    let s = 2f64.powi(g.range(0, 120) as i32 - 60);
    let eps = g.logu(1e-7, 1e-2);
    note!(g, "x = {}, y = {}, factor {s:e}, f = {e1:?}, {e2:?}, {e3:?}", x.show(), y.show());
    fn f1<T: Numeric>(e: &E, a: T, s: f64) -> T {
        eval(e, a) * T::from(s)
    }
    let run = |s: f64| -> Vec<Vec<f64>> {
        let fwd = |a: VectorVar<2, T5>, b: SE2<T5>| f1(&e1, a[0] * b.x(), s) + f1(&e2, a[1], s) - f1(&e3, b.y(), s);
        let num = |a: Vv2, b: SE2| f1(&e1, a[0] * b.x(), s) + f1(&e2, a[1], s) - f1(&e3, b.y(), s);
        let pack = |d: DiffResult<f64, factrs::linalg::VectorX>| std::iter::once(d.value).chain(d.diff.iter().copied()).collect::<Vec<f64>>();
        let packj = |d: DiffResult<factrs::linalg::VectorX, factrs::linalg::MatrixX>| d.value.iter().copied().chain(d.diff.iter().copied()).collect::<Vec<f64>>();
        let one = forward_prop_derivative(|t: DualScalar| f1(&e1, t, s), x[0]);
        let two = numerical_derivative(|t| f1(&e1, t, s), x[0], eps);
        vec![
            pack(factrs::linalg::ForwardProp::<D5>::gradient_2(fwd, &x, &y)),
            packj(factrs::linalg::ForwardProp::<D5>::jacobian_2(|a: VectorVar<2, T5>, b: SE2<T5>| nalgebra::dvector![fwd(a.clone(), b.clone()), fwd(a, b) * T5::from(0.25)], &x, &y)),
            pack(NumericalDiff::<6>::gradient_2(num, &x, &y)),
            packj(NumericalDiff::<6>::jacobian_2(|a: Vv2, b: SE2| nalgebra::dvector![num(a.clone(), b.clone()), num(a, b) * 0.25], &x, &y)),
            vec![one.value, one.diff],
            vec![two.value, two.diff],
        ]
    };
    let (base, got) = (run(1.0), run(s));
    let names = ["forward gradient", "forward Jacobian", "numerical gradient", "numerical Jacobian", "forward derivative", "numerical derivative"];
    for (n, (b, c)) in names.iter().zip(base.iter().zip(&got)) {
        let m = maxabs(b.iter());
        if !m.is_finite() || m > 1e100 {
            continue;
        }
        ensure!(b.len() == c.len(), "{n}: {} entries, {} when multiplied by {s:e}", b.len(), c.len());
        for (i, (b, c)) in b.iter().zip(c).enumerate() {
            ensure!((b * s - c).abs() <= 1e-12 * m * s, "{n}: entry {i} is {b:e}, but {c:e} instead of {:e} for {s:e} times the function", b * s);
        }
    }
    // the gradient helper and the Jacobian helper agree
    for (a, b) in [(0, 1), (2, 3)] {
        let (gr, ja) = (&got[a], &got[b]);
        let m = maxabs(ja.iter());
        if !m.is_finite() || m > 1e100 {
            continue;
        }
        let tol = 1e-12 * m;
        for i in 0..gr.len() - 1 {
            ensure!((gr[1 + i] - ja[2 + 2 * i]).abs() <= tol && (ja[2 + 2 * i] * 0.25 - ja[3 + 2 * i]).abs() <= 1e-12 * m, "{}: column {i}: {:e}, Jacobian {:e} and {:e}", names[a], gr[1 + i], ja[2 + 2 * i], ja[3 + 2 * i]);
        }
    }
    Ok(maxabs(got[0][1..].iter()) > 0.0)
}

fn main() {
    harness::engine::main(Property {
        id: "C06",
        rule: "numeric: the functions of C05 (1..6 variables, 22 type mixes) at ordinary points, differentiated with step 1e-4, 1e-5 or 1e-6; variable: nine group-valued functions of 1..6 variables with generated constants, derivative in the output's tangent space; scalar: generated expression trees up to depth 4, the value compared exactly; scaled: gradient, Jacobian and derivative helpers of both differentiators on f and 2^k f, k = -60..60. Oracles: sixth-order differences along X expm(h e_i) computed by the harness; the rules of calculus for scalars. Non-trivial: a derivative entry above 1e-6.",
        assumptions: &["points are away from the logarithm's cut and from the small-angle branches (a difference quotient across a switch is not a derivative)", "tolerances follow from truncation eps^2 f'''/6 and round-off 1e-16/eps"],
        subs: vec![sub("numeric", 30_000, numeric), sub("variable", 20_000, variable), sub("scalar", 100_000, scalar), sub("scaled", 40_000, scaled)],
    });
}
