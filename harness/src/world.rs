//! Generated factor graphs over variables of any type, with a dense reference model.
use crate::{engine::*, funcs::*, geom::*, graphs::*, note, res::*, vars::*};
use factrs::{
    containers::{Factor, FactorBuilder, Graph, Key, Values},
    residuals::{BetweenResidual, PriorResidual},
    variables::{VariableSafe, ImuBias, VectorVar, SE2, SE3, SO2, SO3},
};

use std::rc::Rc;

type Vv5 = VectorVar<5>;
type Vv6 = VectorVar<6>;

macro_rules! any_var {
    ($($n:ident : $t:ty),*) => {
        #[derive(Clone, Debug)]
        pub enum AnyVar { $($n($t)),* }
        impl AnyVar {
            pub fn dim(&self) -> usize { match self { $(AnyVar::$n(_) => <$t as Var>::N),* } }
            pub fn rot_dim(&self) -> usize { match self { $(AnyVar::$n(_) => <$t as Var>::ROT),* } }
            pub fn name(&self) -> &'static str { match self { $(AnyVar::$n(_) => <$t as Var>::NAME),* } }
            pub fn mat(&self) -> M { match self { $(AnyVar::$n(x) => x.mat()),* } }
            /// as the library prints it
            pub fn text(&self) -> String { match self { $(AnyVar::$n(x) => format!("{x:?}")),* } }
            pub fn show(&self) -> String { match self { $(AnyVar::$n(x) => x.show()),* } }
            pub fn retract(&self, d: &[f64]) -> AnyVar { match self { $(AnyVar::$n(x) => AnyVar::$n(x.retract_ref(d))),* } }
            /// reference local difference log(other^-1 self); NaN if the types differ
            pub fn local(&self, other: &AnyVar) -> V {
                match (self, other) { $((AnyVar::$n(_), AnyVar::$n(_)) => <$t as Var>::from_mat_ref(&<$t as Var>::relative_mat(&self.mat(), &other.mat())).log_ref(),)* _ => V::from_element(self.dim(), f64::NAN) }
            }
            /// self composed with other (by their matrices); the types must agree
            pub fn compose_ref(&self, other: &AnyVar) -> AnyVar { match (self, other) { $((AnyVar::$n(a), AnyVar::$n(b)) => AnyVar::$n(<$t as Var>::from_mat_ref(&(a.mat() * b.mat()))),)* _ => unreachable!() } }
            pub fn insert(&self, v: &mut Values, k: Key) { match self { $(AnyVar::$n(x) => { v.insert_unchecked(raw(k), x.clone()); }),* } }
            /// the value stored under the key if it has the same type as self
            pub fn fetch(&self, v: &Values, k: Key) -> Option<AnyVar> {
                match self { $(AnyVar::$n(_) => v.get_unchecked::<_, $t>(raw(k)).map(|x| AnyVar::$n(x.clone()))),* }
            }
            /// the value under the key read as this variable's type, through the typed and the mutable accessors
            pub fn fetch_typed(&self, v: &Values, k: Key) -> Option<AnyVar> {
                match self { $(AnyVar::$n(_) => v.get::<_, $t>(raw(k)).map(|x| AnyVar::$n(x.clone()))),* }
            }
            /// replace the stored value through a mutable reference; returns the old one if the type matched
            pub fn assign(&self, v: &mut Values, k: Key, unchecked: bool) -> Option<AnyVar> {
                match self { $(AnyVar::$n(x) => {
                    let r = if unchecked { v.get_unchecked_mut::<_, $t>(raw(k)) } else { v.get_mut::<_, $t>(raw(k)) };
                    r.map(|m| AnyVar::$n(std::mem::replace(m, x.clone())))
                }),* }
            }
            pub fn remove(&self, v: &mut Values, k: Key) -> Option<AnyVar> {
                match self { $(AnyVar::$n(_) => v.remove::<_, $t>(raw(k)).map(AnyVar::$n)),* }
            }
            pub fn insert_kind(&self, v: &mut Values, k: Key, unchecked: bool) -> Option<AnyVar> {
                let old = match self { $(AnyVar::$n(x) => if unchecked { v.insert_unchecked(raw(k), x.clone()) } else { v.insert(raw(k), x.clone()) }),* };
                old.map(|b| AnyVar::of(b.as_ref()))
            }
            pub fn boxed(&self) -> Box<dyn VariableSafe> { match self { $(AnyVar::$n(x) => Box::new(x.clone())),* } }
            /// the variable behind a trait object
            pub fn of(b: &dyn VariableSafe) -> AnyVar {
                $( if let Some(x) = b.downcast_ref::<$t>() { return AnyVar::$n(x.clone()); } )*
                panic!("a stored variable has none of the types that were inserted")
            }
            /// all stored values of this variable's type
            pub fn filtered(&self, v: &Values) -> Vec<AnyVar> {
                match self { $(AnyVar::$n(_) => v.filter::<$t>().map(|x| AnyVar::$n(x.clone())).collect()),* }
            }
            /// another ordinary element of the same type
            pub fn another(&self, g: &mut Gen, ang: f64, tr: f64) -> AnyVar { match self { $(AnyVar::$n(_) => AnyVar::$n(<$t as Var>::gen_o(g, ang, tr))),* } }
            pub fn tangent(&self, g: &mut Gen, ang: f64, tr: f64) -> Vec<f64> { match self { $(AnyVar::$n(_) => <$t as Var>::tangent_o(g, ang, tr)),* } }
        }
    };
}
any_var!(So2: SO2, So3: SO3, Se2: SE2, Se3: SE3, R1: VectorVar<1>, R2: VectorVar<2>, R3: VectorVar<3>, R4: VectorVar<4>, R5: Vv5, R6: Vv6, Bias: ImuBias, Custom: Scaled);

impl AnyVar {
    /// rotation angle (if any) away from the small-angle formulas
    pub fn tangent_away(&self, g: &mut Gen, ang: f64, tr: f64) -> Vec<f64> {
        let mut t = self.tangent(g, ang, tr);
        let n = self.rot_dim();
        if t[..n].iter().map(|x| x * x).sum::<f64>().sqrt() < 0.05 {
            t[..n].iter_mut().for_each(|x| *x += 0.1);
        }
        t
    }
}

pub fn gen_any(g: &mut Gen) -> AnyVar {
    gen_kind(g, 14)
}
pub fn gen_kind(g: &mut Gen, n: u64) -> AnyVar {
    match g.below(n) {
        0 => AnyVar::R1(gen_point(g)),
        1 => AnyVar::R2(gen_point(g)),
        2 => AnyVar::R3(gen_point(g)),
        3 => AnyVar::R4(gen_point(g)),
        4 => AnyVar::R5(gen_point(g)),
        5 => AnyVar::R6(gen_point(g)),
        6 => AnyVar::So2(gen_point(g)),
        7 => AnyVar::So3(gen_point(g)),
        8 | 9 => AnyVar::Se2(gen_point(g)),
        10 | 11 => AnyVar::Se3(gen_point(g)),
        12 => AnyVar::Bias(gen_point(g)),
        _ => AnyVar::Custom(gen_point(g)),
    }
}

#[derive(Clone)]
pub struct FSpec {
    pub label: String,
    /// indices of the variables
    pub vars: Vec<usize>,
    pub out: usize,
    pub noise: Noise,
    pub rob: Rob,
    /// whitening matrix
    pub w: M,
    pub make: Rc<dyn Fn(&[Key]) -> Factor>,
    pub r: Rc<dyn Fn(&[&AnyVar]) -> V>,
}
impl FSpec {
    pub fn args<'a>(&self, vars: &'a [AnyVar]) -> Vec<&'a AnyVar> {
        self.vars.iter().map(|i| &vars[*i]).collect()
    }
    pub fn residual(&self, vars: &[AnyVar]) -> V {
        (self.r)(&self.args(vars))
    }
    /// derivative of the residual with respect to argument `a` of the factor (sixth-order differences)
    pub fn jac_arg(&self, vars: &[AnyVar], a: usize) -> M {
        self.jac_arg_h(vars, a, 2e-3)
    }
    /// the residual is smooth around this point (no branch cut of a logarithm, no kink nearby)
    pub fn smooth(&self, vars: &[AnyVar]) -> bool {
        (0..self.vars.len()).all(|a| {
            let (x, y) = (self.jac_arg_h(vars, a, 2e-3), self.jac_arg_h(vars, a, 5e-3));
            diff(&x, &y) < 1e-6 * (1.0 + maxabs(x.iter()))
        })
    }
    pub fn jac_arg_h(&self, vars: &[AnyVar], a: usize, step: f64) -> M {
        let args = self.args(vars);
        let n = args[a].dim();
        let mut j = M::zeros(self.out, n);
        for k in 0..n {
            let c = fd6(
                |h| {
                    let mut e = vec![0.0; n];
                    e[k] = h;
                    let p = args[a].retract(&e);
                    let mut xs = args.clone();
                    xs[a] = &p;
                    (self.r)(&xs)
                },
                step,
            );
            j.set_column(k, &c);
        }
        j
    }
    pub fn whitened_norm2(&self, vars: &[AnyVar]) -> f64 {
        (&self.w * self.residual(vars)).norm_squared()
    }
    pub fn error(&self, vars: &[AnyVar]) -> f64 {
        let info = self.noise.info(self.out);
        let r = self.residual(vars);
        self.rob.loss((r.transpose() * info * &r)[(0, 0)])
    }
    /// (sqrt(w) W J per argument, -sqrt(w) W r)
    pub fn linear(&self, vars: &[AnyVar]) -> (Vec<M>, V) {
        let r = &self.w * self.residual(vars);
        let s = self.rob.weight(r.norm_squared()).sqrt();
        ((0..self.vars.len()).map(|a| &self.w * self.jac_arg(vars, a) * s).collect(), -r * s)
    }
    /// too close to a switch of the kernel for a comparison of weights
    pub fn at_kink(&self, vars: &[AnyVar]) -> bool {
        self.rob.kink().map_or(false, |k| (self.whitened_norm2(vars).sqrt() / k - 1.0).abs() < 1e-6)
    }
}

fn pf<T: Builtin>(z: T, noise: Noise, rob: Rob, i: usize, un: fn(&AnyVar) -> &T) -> FSpec {
    let w = T::whitener(&noise);
    let (z2, n2) = (z.clone(), noise.clone());
    FSpec {
        label: format!("prior {}", T::NAME),
        vars: vec![i],
        out: T::N,
        w,
        make: Rc::new(move |k| T::prior_factor(z2.clone(), k[0], &n2, &rob)),
        r: Rc::new(move |x| T::prior_ref(&z, un(x[0]))),
        noise,
        rob,
    }
}
fn bf<T: Builtin>(z: T, noise: Noise, rob: Rob, i: usize, j: usize, un: fn(&AnyVar) -> &T) -> FSpec {
    let w = T::whitener(&noise);
    let (z2, n2) = (z.clone(), noise.clone());
    FSpec {
        label: format!("between {}", T::NAME),
        vars: vec![i, j],
        out: T::N,
        w,
        make: Rc::new(move |k| T::between_factor(z2.clone(), k[0], k[1], &n2, &rob)),
        r: Rc::new(move |x| T::between_ref(&z, un(x[0]), un(x[1]))),
        noise,
        rob,
    }
}
macro_rules! un {
    ($n:ident, $t:ty) => {
        |v: &AnyVar| -> &$t {
            match v {
                AnyVar::$n(x) => x,
                _ => unreachable!(),
            }
        }
    };
}
/// prior on variable i whose measurement is x moved by d; None for types without a built-in prior wrapper
pub fn prior_on(i: usize, x: &AnyVar, d: &[f64], noise: Noise, rob: Rob) -> FSpec {
    macro_rules! go { ($($n:ident : $t:ty),*) => { match x.retract(d) { $(AnyVar::$n(z) => pf::<$t>(z, noise, rob, i, un!($n, $t)),)* AnyVar::Custom(z) => custom_prior(z, noise, rob, i) } } }
    go!(So2: SO2, So3: SO3, Se2: SE2, Se3: SE3, R1: VectorVar<1>, R2: VectorVar<2>, R3: VectorVar<3>, R4: VectorVar<4>, R5: Vv5, R6: Vv6, Bias: ImuBias)
}
fn custom_prior(z: Scaled, noise: Noise, rob: Rob, i: usize) -> FSpec {
    let w = noise.whitener::<3>();
    let (z2, n2) = (z.clone(), noise.clone());
    FSpec {
        label: "prior Scaled".into(),
        vars: vec![i],
        out: 3,
        w,
        make: Rc::new(move |k| finish::<3>(FactorBuilder::new1(PriorResidual::new(z2.clone()), raw(k[0])), &n2, &rob, true)),
        r: Rc::new(move |x| match x[0] {
            AnyVar::Custom(v) => Scaled::from_mat_ref(&Scaled::relative_mat(&z.mat(), &v.mat())).log_ref(),
            _ => unreachable!(),
        }),
        noise,
        rob,
    }
}
/// between on (i, j) whose measurement is x_i^-1 x_j moved by d
pub fn between_on(i: usize, j: usize, a: &AnyVar, b: &AnyVar, d: &[f64], noise: Noise, rob: Rob) -> Option<FSpec> {
    macro_rules! go { ($($n:ident : $t:ty),*) => { match (a, b) {
        $((AnyVar::$n(a), AnyVar::$n(b)) => {
            let z = <$t as Var>::from_mat_ref(&(a.mat().try_inverse().unwrap() * b.mat())).retract_ref(d);
            Some(bf::<$t>(z, noise, rob, i, j, un!($n, $t)))
        })*
        (AnyVar::Custom(a), AnyVar::Custom(b)) => {
            let z = Scaled::from_mat_ref(&(a.mat().try_inverse().unwrap() * b.mat())).retract_ref(d);
            let w = noise.whitener::<3>();
            let (z2, n2) = (z.clone(), noise.clone());
            Some(FSpec { label: "between Scaled".into(), vars: vec![i, j], out: 3, w,
                make: Rc::new(move |k| finish::<3>(FactorBuilder::new2(BetweenResidual::new(z2.clone()), raw(k[0]), raw(k[1])), &n2, &rob, false)),
                r: Rc::new(move |x| match (x[0], x[1]) { (AnyVar::Custom(a), AnyVar::Custom(b)) => Scaled::from_mat_ref(&Scaled::relative_mat(&(a.mat() * z.mat()), &b.mat())).log_ref(), _ => unreachable!() }),
                noise, rob })
        }
        _ => None } } }
    go!(So2: SO2, So3: SO3, Se2: SE2, Se3: SE3, R1: VectorVar<1>, R2: VectorVar<2>, R3: VectorVar<3>, R4: VectorVar<4>, R5: Vv5, R6: Vv6, Bias: ImuBias)
}

macro_rules! custom_factor {
    ($fname:ident, $name:ident, $new:ident, $newu:ident, $out:literal, [$($v:ident $i:literal : $n:ident),*]) => {
        fn $fname(g: &mut Gen, vars: &[AnyVar], idx: &[usize], noise: Noise, rob: Rob) -> FSpec {
            $( let AnyVar::$n($v) = &vars[idx[$i]] else { unreachable!() }; )*
            let res = $name::gen_at(g, $($v),*);
            let checked = g.bool();
            let w = noise.whitener::<$out>();
            let (r2, n2) = (res.clone(), noise.clone());
            FSpec {
                label: stringify!($name).into(), vars: idx.to_vec(), out: $out, w,
                make: Rc::new(move |k| {
                    let b = if checked { FactorBuilder::$new(r2.clone(), $(raw(k[$i])),*) } else { FactorBuilder::$newu(r2.clone(), $(raw(k[$i])),*) };
                    finish::<$out>(b, &n2, &rob, checked)
                }),
                r: Rc::new(move |x| { $( let AnyVar::$n($v) = x[$i] else { unreachable!() }; )* res.value($($v),*) }),
                noise, rob,
            }
        }
    };
}
custom_factor!(c1, R1, new1, new1_unchecked, 1, [a 0: Se2]);
custom_factor!(c2, R2, new2, new2_unchecked, 3, [a 0: Se3, b 1: R3]);
custom_factor!(c3, R3, new3, new3_unchecked, 2, [a 0: So3, b 1: R2, c 2: Se2]);
custom_factor!(c4, R4, new4, new4_unchecked, 5, [a 0: R1, b 1: So2, c 2: Se3, d 3: R2]);
custom_factor!(c5, R5, new5, new5_unchecked, 4, [a 0: Custom, b 1: R1, c 2: Se2, d 3: R3, e 4: So3]);
custom_factor!(c6, R6, new6, new6_unchecked, 6, [a 0: Se3, b 1: R3, c 2: Bias, d 3: So3, e 4: R2, f 5: R2]);

/// indices of the variables of a custom residual: existing ones, or new ones appended when a type is missing
fn pick(g: &mut Gen, vars: &mut Vec<AnyVar>, same: fn(&AnyVar) -> bool, make: fn(&mut Gen) -> AnyVar, taken: &[usize]) -> usize {
    let have: Vec<usize> = (0..vars.len()).filter(|i| same(&vars[*i]) && !taken.contains(i)).collect();
    if have.is_empty() || g.chance(1, 4) {
        let x = make(g);
        vars.push(x);
        vars.len() - 1
    } else {
        *g.pick(&have)
    }
}
macro_rules! sel {
    ($g:expr, $vars:expr, [$($n:ident),*]) => {{
        let mut idx: Vec<usize> = vec![];
        $( let i = pick($g, $vars, |v| matches!(v, AnyVar::$n(_)), |g| AnyVar::$n(gen_point(g)), &idx); idx.push(i); )*
        idx
    }};
}
pub fn out_of(kind: u64) -> usize {
    [1, 3, 2, 5, 4, 6][kind as usize]
}
/// a custom-residual factor on existing or new variables
pub fn custom_on(g: &mut Gen, vars: &mut Vec<AnyVar>, kind: u64, noise: Noise, rob: Rob) -> FSpec {
    match kind {
        0 => {
            let i = sel!(g, vars, [Se2]);
            c1(g, vars, &i, noise, rob)
        }
        1 => {
            let i = sel!(g, vars, [Se3, R3]);
            c2(g, vars, &i, noise, rob)
        }
        2 => {
            let i = sel!(g, vars, [So3, R2, Se2]);
            c3(g, vars, &i, noise, rob)
        }
        3 => {
            let i = sel!(g, vars, [R1, So2, Se3, R2]);
            c4(g, vars, &i, noise, rob)
        }
        4 => {
            let i = sel!(g, vars, [Custom, R1, Se2, R3, So3]);
            c5(g, vars, &i, noise, rob)
        }
        _ => {
            let i = sel!(g, vars, [Se3, R3, Bias, So3, R2, R2]);
            c6(g, vars, &i, noise, rob)
        }
    }
}

pub struct World {
    pub keys: Vec<Key>,
    pub vars: Vec<AnyVar>,
    pub factors: Vec<FSpec>,
}
#[derive(Clone, Copy)]
pub struct Opts {
    pub max_vars: usize,
    pub max_extra: usize,
    /// residual size at the current values
    pub ang: f64,
    pub tr: f64,
    pub sigma: (f64, f64),
    /// kernels that keep positive weights on the factors that make the problem well posed
    pub anchored: bool,
    pub robust: bool,
    pub custom: bool,
    /// vector variables only (all built-in residuals are then linear)
    pub vectors: bool,
}
pub fn positive_kernel(g: &mut Gen) -> Rob {
    let c = g.uniform(0.5, 4.0);
    match g.below(6) {
        0 | 1 => Rob::Default,
        2 => Rob::L2,
        3 => Rob::Huber(c),
        4 => Rob::Fair(c),
        _ => Rob::Cauchy(c),
    }
}
impl World {
    pub fn gen(g: &mut Gen, o: Opts) -> World {
        // now and then a graph an order of magnitude larger
        let o = if g.chance(1, 50) { Opts { max_vars: o.max_vars * 6, max_extra: o.max_extra * 10, ..o } } else { o };
        let n = g.range(1, o.max_vars);
        let mut vars: Vec<AnyVar> = vec![];
        for _ in 0..n {
            // several variables of one type, so that betweens occur
            let v = if !vars.is_empty() && g.chance(2, 3) {
                let k = g.below(vars.len() as u64) as usize;
                vars[k].another(g, 2.5, 3.0)
            } else {
                gen_kind(g, if o.vectors { 6 } else { 14 })
            };
            vars.push(v);
        }
        let mut factors: Vec<FSpec> = vec![];
        let rob = |g: &mut Gen, on: bool| if o.robust && on { Rob::gen_any(g) } else { Rob::Default };
        let extra = g.range(0, o.max_extra);
        for _ in 0..extra {
            let kind = g.below(if o.custom { 10 } else { 4 });
            let (lo, hi) = o.sigma;
            match kind {
                0 | 1 => {
                    let i = g.below(vars.len() as u64) as usize;
                    let noise = Noise::gen_any(g, vars[i].dim(), lo, hi);
                    let d = vars[i].tangent(g, o.ang, o.tr);
                    let r = rob(g, true);
                    factors.push(prior_on(i, &vars[i], &d, noise, r));
                }
                2 if !factors.is_empty() && g.chance(1, 4) => {
                    // the same factor once more
                    let f: FSpec = g.pick(&factors).clone();
                    factors.push(f);
                }
                2 | 3 => {
                    let i = g.below(vars.len() as u64) as usize;
                    let mates: Vec<usize> = (0..vars.len()).filter(|j| *j != i && vars[*j].name() == vars[i].name()).collect();
                    if mates.is_empty() {
                        continue;
                    }
                    let j = *g.pick(&mates);
                    let noise = Noise::gen_any(g, vars[i].dim(), lo, hi);
                    let d = vars[i].tangent(g, o.ang, o.tr);
                    let r = rob(g, true);
                    factors.push(between_on(i, j, &vars[i], &vars[j], &d, noise, r).unwrap());
                }
                k => {
                    let k = k - 4;
                    let noise = Noise::gen_any(g, out_of(k), lo * 3.0, hi * 3.0);
                    let r = rob(g, true);
                    let f = custom_on(g, &mut vars, k, noise, r);
                    factors.push(f);
                }
            }
        }
        if o.anchored {
            for i in 0..vars.len() {
                let mates: Vec<usize> = (0..i).filter(|j| vars[*j].name() == vars[i].name()).collect();
                let d = vars[i].tangent(g, o.ang, o.tr);
                let noise = Noise::gen_any(g, vars[i].dim(), o.sigma.0, o.sigma.1);
                let r = if o.robust { positive_kernel(g) } else { Rob::Default };
                if mates.is_empty() || g.chance(1, 2) {
                    factors.push(prior_on(i, &vars[i], &d, noise, r));
                } else {
                    let j = *g.pick(&mates);
                    let (a, b) = if g.bool() { (i, j) } else { (j, i) };
                    factors.push(between_on(a, b, &vars[a], &vars[b], &d, noise, r).unwrap());
                }
            }
        } else if factors.is_empty() {
            let d = vars[0].tangent(g, o.ang, o.tr);
            let noise = Noise::gen_any(g, vars[0].dim(), o.sigma.0, o.sigma.1);
            let r = rob(g, true);
            factors.push(prior_on(0, &vars[0], &d, noise, r));
        }
        g.shuffle(&mut factors);
        let keys = gen_keys(g, vars.len());
        let w = World { keys, vars, factors };
        if g.verbose {
            for (k, v) in w.keys.iter().zip(&w.vars) {
                note!(g, "{:?}: {}", k, v.show());
            }
            for f in &w.factors {
                note!(g, "factor {} on {:?}, {:?}, {:?}, residual {:?}", f.label, f.vars, f.noise, f.rob, f.residual(&w.vars).as_slice());
            }
        }
        w
    }
    pub fn dim(&self) -> usize {
        self.vars.iter().map(|v| v.dim()).sum()
    }
    /// column of each variable in the reference ordering (variable order)
    pub fn offsets(&self) -> Vec<usize> {
        let mut o = vec![];
        let mut s = 0;
        for v in &self.vars {
            o.push(s);
            s += v.dim();
        }
        o
    }
    pub fn fkeys(&self, f: &FSpec) -> Vec<Key> {
        f.vars.iter().map(|i| self.keys[*i]).collect()
    }
    pub fn graph(&self) -> Graph {
        let mut gr = Graph::new();
        for f in &self.factors {
            gr.add_factor((f.make)(&self.fkeys(f)));
        }
        gr
    }
    /// the store, filled in an order chosen by the tape
    pub fn values(&self, g: &mut Gen) -> Values {
        self.values_of(g, &self.vars)
    }
    pub fn values_of(&self, g: &mut Gen, vars: &[AnyVar]) -> Values {
        g.hash_order();
        let mut v = Values::new();
        let mut idx: Vec<usize> = (0..vars.len()).collect();
        g.shuffle(&mut idx);
        for i in idx {
            vars[i].insert(&mut v, self.keys[i]);
        }
        v
    }
    pub fn error(&self, vars: &[AnyVar]) -> f64 {
        self.factors.iter().map(|f| f.error(vars)).sum()
    }
    /// dense stacked system (A, b) in the reference ordering
    pub fn dense(&self, vars: &[AnyVar]) -> (M, V) {
        let rows: usize = self.factors.iter().map(|f| f.out).sum();
        let off = self.offsets();
        let mut a = M::zeros(rows, self.dim());
        let mut b = V::zeros(rows);
        let mut row = 0;
        for f in &self.factors {
            let (js, r) = f.linear(vars);
            for (j, i) in js.iter().zip(&f.vars) {
                let mut blk = a.view_mut((row, off[*i]), j.shape());
                blk += j;
            }
            b.rows_mut(row, f.out).copy_from(&r);
            row += f.out;
        }
        (a, b)
    }
    /// read the variables back from a store; an error names what is missing or of another type
    pub fn fetch(&self, v: &Values) -> Result<Vec<AnyVar>, String> {
        self.vars.iter().zip(&self.keys).map(|(x, k)| x.fetch(v, *k).ok_or(format!("{:?} ({}) is missing from the values or has another type", k, x.name()))).collect()
    }
}
/// each variable moved by its part of the stacked increment
pub fn retract_all(vars: &[AnyVar], d: &V) -> Vec<AnyVar> {
    let mut o = 0;
    vars.iter()
        .map(|v| {
            let n = v.dim();
            let r = v.retract(&d.as_slice()[o..o + n]);
            o += n;
            r
        })
        .collect()
}
