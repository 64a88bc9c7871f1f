//! User-defined residuals of arity 1 to 6 with generated behaviour, used through the public residual traits.
use crate::{ensure, engine::*, funcs::*, geom::*, note, vars::*};
use factrs::{
    containers::{Key, Values},
    dtype,
    linalg::{Const, DiffResult, ForwardProp, Numeric, VectorX},
    residuals::{Residual, Residual1, Residual2, Residual3, Residual4, Residual5, Residual6},
    variables::{ImuBias, Variable, VectorVar, SE2, SE3, SO2, SO3},
};
use std::fmt;

pub type V1<T = dtype> = VectorVar<1, T>;
pub type V2<T = dtype> = VectorVar<2, T>;
pub type V3<T = dtype> = VectorVar<3, T>;
pub type V4<T = dtype> = VectorVar<4, T>;

macro_rules! residual_type {
    ($name:ident, $tr:ident, $fn:ident, $din:literal, $dout:literal, [$($v:ident $k:ident $V:ident : $t:ident),*]) => {
        #[derive(Clone, Debug)]
        pub struct $name { pub mix: Mix, $(pub $k: Coef<$t>),* }
        impl $name {
            pub const IN: usize = $din;
            pub const OUT: usize = $dout;
            /// a residual together with a point at which it is smooth
            pub fn gen(g: &mut Gen) -> ($name, ($($t,)*)) {
                $( let ($v, $k) = gen_feat::<$t>(g); )*
                let mix = Mix::gen(g, $dout);
                note!(g, "{}: mix {:?}", stringify!($name), mix);
                $( note!(g, "  {} = {} (mode {}, constant {}, point {:?})", stringify!($v), $v.show(), $k.mode, $k.c.show(), $k.p); )*
                ($name { mix, $($k),* }, ($($v,)*))
            }
            /// a residual smooth at the given point
            pub fn gen_at(g: &mut Gen, $($v: &$t),*) -> $name {
                $( let $k = gen_coef::<$t>(g, $v); )*
                let mix = Mix::gen(g, $dout);
                $name { mix, $($k),* }
            }
            pub fn value(&self, $($v: &$t),*) -> V {
                self.mix.eval(&[$(<$t as Feat>::feat::<f64>($v, &self.$k)),*])
            }
            /// size of everything that enters, for tolerances
            pub fn scale(&self, $($v: &$t),*) -> f64 {
                let mut s = 1.0;
                $( s += maxabs($v.mat().iter()) + if (1..=4).contains(&self.$k.mode) { maxabs(self.$k.c.mat().iter()) } else { 0.0 }; )*
                s
            }
            /// value and reference Jacobian
            #[allow(unused_assignments)]
            pub fn reference(&self, $($v: &$t),*) -> (V, M) {
                let value = self.value($($v),*);
                let mut jac = M::zeros($dout, $din);
                let dims = [$(<$t as Var>::N),*];
                let mut col = 0;
                for (i, d) in dims.iter().enumerate() {
                    for j in 0..*d {
                        let c = fd6(|h| {
                            let mut k = 0;
                            $( let $v = if k == i { let mut e = vec![0.0; <$t as Var>::N]; e[j] = h; $v.retract_ref(&e) } else { $v.clone() }; k += 1; )*
                            self.value($(&$v),*)
                        }, 2e-3);
                        jac.set_column(col, &c);
                        col += 1;
                    }
                }
                (value, jac)
            }
        }
        #[factrs::mark]
        impl $tr for $name {
            type Differ = ForwardProp<Const<$din>>;
            $( type $V = $t; )*
            type DimIn = Const<$din>;
            type DimOut = Const<$dout>;
            fn $fn<T: Numeric>(&self, $($v: <$t as Variable>::Alias<T>),*) -> VectorX<T> {
                self.mix.eval(&[$(<$t as Feat>::feat::<T>(&$v, &self.$k)),*])
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) }
        }
    };
}
residual_type!(R1, Residual1, residual1, 3, 1, [a ka V1: SE2]);
residual_type!(R2, Residual2, residual2, 9, 3, [a ka V1: SE3, b kb V2: V3]);
residual_type!(R3, Residual3, residual3, 8, 2, [a ka V1: SO3, b kb V2: V2, c kc V3: SE2]);
residual_type!(R4, Residual4, residual4, 10, 5, [a ka V1: V1, b kb V2: SO2, c kc V3: SE3, d kd V4: V2]);
residual_type!(R5, Residual5, residual5, 13, 4, [a ka V1: Scaled, b kb V2: V1, c kc V3: SE2, d kd V4: V3, e ke V5: SO3]);
residual_type!(R6, Residual6, residual6, 22, 6, [a ka V1: SE3, b kb V2: V3, c kc V3: ImuBias, d kd V4: SO3, e ke V5: V2, f kf V6: V2]);

/// distinct keys in a tape-chosen arrangement
/// distinct keys: built-in and arbitrary letters, consecutive, scattered and extreme indices, pairs that differ in one bit
pub fn gen_keys(g: &mut Gen, n: usize) -> Vec<Key> {
    use factrs::symbols::{A, L, X, Z};
    let mut out: Vec<Key> = vec![];
    let style = g.below(6);
    let base = match style {
        0..=2 => 0,
        3 => (1 << 31) - 2,
        4 => (1 << 32) - 1 - 1000 * n as u64,
        _ => g.below(1 << 31),
    };
    let letters = ['x', 'A', '0', ' ', 'é', '\u{7f}', '\u{fffd}', '\u{10ffff}', '\u{1}', 'l'];
    for i in 0..n as u64 {
        let i = base + i * if g.chance(1, 3) { 1000 } else { 1 };
        let mut k: Key = match g.below(6) {
            0 | 1 => X(i).into(),
            2 => A(i).into(),
            3 => L(i).into(),
            4 => Z(i).into(),
            _ => Key(((*g.pick(&letters) as u64) << 32) | i),
        };
        if !out.is_empty() && g.chance(1, 8) {
            // one bit of the index away from another key
            k = Key(g.pick(&out).0 ^ (1 << g.below(32)));
        }
        if out.contains(&k) {
            k = Key(('q' as u64) << 32 | i);
            for _ in 0..n {
                if out.contains(&k) {
                    k = Key(k.0 + (1 << 32));
                }
            }
        }
        out.push(k);
    }
    g.shuffle(&mut out);
    out
}

macro_rules! run_res {
    ($g:expr, $name:ident, [$($v:ident $i:literal),*]) => {{
        let g: &mut Gen = $g;
        g.hash_order();
        let (r, ($($v,)*)) = $name::gen(g);
        let n = [$($i),*].len();
        let keys = gen_keys(g, n + 3);
        let mut values = Values::new();
        // unrelated content, inserted before and after
        if g.bool() { values.insert_unchecked(raw(keys[n]), VectorVar::<2>::make(&[], &[g.sym(1e3), 7.0])); }
        $( values.insert_unchecked(raw(keys[$i]), $v.clone()); )*
        if g.bool() { values.insert_unchecked(raw(keys[n + 1]), SO3::identity()); }
        if g.bool() { values.insert_unchecked(raw(keys[n + 2]), SE3::identity()); }
        let (rv, rj) = r.reference($(&$v),*);
        let scale = r.scale($(&$v),*);
        let dynr: Box<dyn Residual> = Box::new(r);
        ensure!(dynr.dim_in() == $name::IN && dynr.dim_out() == $name::OUT, "{}: dimensions {} -> {}", stringify!($name), dynr.dim_in(), dynr.dim_out());
        let val = dynr.residual(&values, &keys[..n]);
        let DiffResult { value, diff: jac } = dynr.residual_jacobian(&values, &keys[..n]);
        ensure!(vdiff(val.as_slice(), rv.as_slice()) < 1e-11 * scale * scale, "{}: residual {:?}, expected {:?}", stringify!($name), val.as_slice(), rv.as_slice());
        ensure!(vdiff(value.as_slice(), rv.as_slice()) < 1e-11 * scale * scale, "{}: value with Jacobian {:?}, expected {:?}", stringify!($name), value.as_slice(), rv.as_slice());
        let tol = 1e-5 * scale * (1.0 + maxabs(rj.iter()).min(scale));
        ensure!(diff(&jac, &rj) < tol, "{}: Jacobian {} expected {}", stringify!($name), jac, rj);
        g.class(stringify!($name));
        Ok(maxabs(rj.iter()) > 1e-6)
    }};
}
/// Key as a Symbol, for untyped insertion
#[derive(Clone, Copy, Debug)]
pub struct RawKey(pub Key);
impl From<RawKey> for Key {
    fn from(k: RawKey) -> Key {
        k.0
    }
}
impl factrs::containers::Symbol for RawKey {}
impl<V: factrs::variables::VariableUmbrella> factrs::containers::TypedSymbol<V> for RawKey {}
pub fn raw(k: Key) -> RawKey {
    RawKey(k)
}

pub fn residual_case(g: &mut Gen) -> Outcome {
    match g.below(6) {
        0 => run_res!(g, R1, [a 0]),
        1 => run_res!(g, R2, [a 0, b 1]),
        2 => run_res!(g, R3, [a 0, b 1, c 2]),
        3 => run_res!(g, R4, [a 0, b 1, c 2, d 3]),
        4 => run_res!(g, R5, [a 0, b 1, c 2, d 3, e 4]),
        _ => run_res!(g, R6, [a 0, b 1, c 2, d 3, e 4, f 5]),
    }
}
