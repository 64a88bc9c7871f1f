//! Large sparse vector problems made from a few drawn numbers (so that they shrink by their size), with closed-form rows.
//! All numbers are small dyadic fractions: residuals, blocks and right-hand sides are exact in either precision.
use crate::engine::*;
use factrs::{
    containers::{Factor, FactorBuilder, Graph, Key, Values, ValuesOrder},
    dtype,
    linalg::DiffResult,
    linear::LinearValues,
    noise::GaussianNoise,
    residuals::{BetweenResidual, PriorResidual},
    variables::{VectorVar1, VectorVar2, VectorVar3},
};
use std::collections::HashMap;

pub struct BF {
    pub i: usize,
    pub j: Option<usize>,
    pub z: [f64; 3],
    /// standard deviation, a power of two
    pub s: f64,
}
pub struct Big {
    pub dims: Vec<usize>,
    pub keys: Vec<Key>,
    pub x: Vec<[f64; 3]>,
    pub f: Vec<BF>,
    seed: u64,
}
fn mix(seed: u64, i: u64) -> u64 {
    let mut s = seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    splitmix(&mut s);
    splitmix(&mut s)
}
/// a multiple of 1/8 in [-4, 4)
fn dy(h: u64) -> f64 {
    (h % 64) as f64 / 8.0 - 4.0
}
fn dys(seed: u64, i: u64) -> [f64; 3] {
    let h = mix(seed, i);
    [dy(h), dy(h >> 8), dy(h >> 16)]
}
impl Big {
    /// an anchored chain (per dimension) with local loops and priors, and `extra` more factors on few variables
    pub fn gen(g: &mut Gen, max_vars: usize, max_extra: usize) -> Big {
        g.hash_order();
        let n = (g.logu(1.0, max_vars as f64 + 1.0) as usize).clamp(1, max_vars);
        let extra = (g.logu(1.0, max_extra as f64 + 1.0) as usize).clamp(1, max_extra) - 1;
        let kind = g.below(4) as usize;
        let seed = g.u64();
        let loops = g.below(4);
        let dims: Vec<usize> = (0..n).map(|i| if kind < 3 { kind + 1 } else { 1 + (mix(seed, i as u64) % 3) as usize }).collect();
        let letters = ['x', 'l', 'a', 'Z', 'é'];
        let many = g.bool();
        let step = *g.pick(&[1u64, 1, 3, 1000]);
        let keys: Vec<Key> = (0..n as u64).map(|i| Key((letters[if many { (mix(seed, i + 7) % 5) as usize } else { 0 }] as u64) << 32 | (i * step))).collect();
        let x: Vec<[f64; 3]> = (0..n as u64).map(|i| dys(seed ^ 1, i)).collect();
        let mut f = vec![];
        let mut past: [Vec<usize>; 3] = Default::default();
        for i in 0..n {
            let p = &mut past[dims[i] - 1];
            let h = mix(seed ^ 2, i as u64);
            let s = [0.5, 1.0, 2.0, 4.0][(h % 4) as usize];
            if p.is_empty() || (h >> 8) % 16 == 0 {
                f.push(BF { i, j: None, z: dys(seed ^ 3, i as u64), s });
            }
            if let Some(q) = p.last() {
                let (a, b) = if (h >> 16) % 2 == 0 { (*q, i) } else { (i, *q) };
                f.push(BF { i: a, j: Some(b), z: dys(seed ^ 4, i as u64), s });
            }
            if (h >> 24) % 4 < loops && p.len() > 2 {
                let q = p[p.len() - 2 - (h >> 32) as usize % (p.len() - 1).min(8)];
                f.push(BF { i, j: Some(q), z: dys(seed ^ 5, i as u64), s: 1.0 });
            }
            p.push(i);
        }
        for k in 0..extra as u64 {
            let h = mix(seed ^ 6, k);
            f.push(BF { i: (h % n as u64) as usize, j: None, z: dys(seed ^ 7, k), s: [0.5, 1.0, 2.0, 4.0][(h >> 40) as usize % 4] });
        }
        if g.bool() {
            let mut o: Vec<(u64, BF)> = f.into_iter().enumerate().map(|(i, b)| (mix(seed ^ 8, i as u64), b)).collect();
            o.sort_by_key(|p| p.0);
            f = o.into_iter().map(|p| p.1).collect();
        }
        g.class(match f.len() {
            0..=255 => "up to 255 factors",
            256..=1023 => "256..1023 factors",
            1024..=4095 => "1024..4095 factors",
            4096..=65535 => "4096..65535 factors",
            _ => "more than 65535 factors",
        });
        Big { dims, keys, x, f, seed }
    }
    pub fn dim(&self) -> usize {
        self.dims.iter().sum()
    }
    pub fn rows(&self) -> usize {
        self.f.iter().map(|f| self.dims[f.i]).sum()
    }
    pub fn put(&self, v: &mut Values, i: usize, x: &[f64; 3]) {
        let c = |k: usize| x[k] as dtype;
        match self.dims[i] {
            1 => drop(v.insert_unchecked(self.keys[i], VectorVar1::new(c(0)))),
            2 => drop(v.insert_unchecked(self.keys[i], VectorVar2::new(c(0), c(1)))),
            _ => drop(v.insert_unchecked(self.keys[i], VectorVar3::new(c(0), c(1), c(2)))),
        }
    }
    pub fn get(&self, v: &Values, i: usize) -> Option<[f64; 3]> {
        Some(match self.dims[i] {
            1 => v.get_unchecked::<_, VectorVar1>(self.keys[i]).map(|x| [x[0] as f64, 0.0, 0.0])?,
            2 => v.get_unchecked::<_, VectorVar2>(self.keys[i]).map(|x| [x[0] as f64, x[1] as f64, 0.0])?,
            _ => v.get_unchecked::<_, VectorVar3>(self.keys[i]).map(|x| [x[0] as f64, x[1] as f64, x[2] as f64])?,
        })
    }
    /// the values, inserted in one of several orders
    pub fn values(&self, backwards: bool) -> Values {
        let mut v = Values::new();
        let n = self.dims.len();
        for k in 0..n {
            let i = if backwards { n - 1 - k } else { k };
            self.put(&mut v, i, &self.x[i]);
        }
        v
    }
    pub fn factor(&self, f: &BF) -> Factor {
        let c = |k: usize| f.z[k] as dtype;
        macro_rules! make {
            ($t:ident, $n:literal, $($k:literal),*) => {{
                let z = $t::new($(c($k)),*);
                let noise = GaussianNoise::<$n>::from_scalar_sigma(f.s as dtype);
                match f.j {
                    None => FactorBuilder::new1_unchecked(PriorResidual::new(z), self.keys[f.i]).noise(noise).build(),
                    Some(j) => FactorBuilder::new2_unchecked(BetweenResidual::new(z), self.keys[f.i], self.keys[j]).noise(noise).build(),
                }
            }};
        }
        match self.dims[f.i] {
            1 => make!(VectorVar1, 1, 0),
            2 => make!(VectorVar2, 2, 0, 1),
            _ => make!(VectorVar3, 3, 0, 1, 2),
        }
    }
    pub fn graph(&self) -> Graph {
        let mut g = if self.seed % 2 == 0 { Graph::new() } else { Graph::with_capacity(self.f.len()) };
        self.f.iter().for_each(|f| g.add_factor(self.factor(f)));
        g
    }
    fn residual(&self, f: &BF, x: &[[f64; 3]], k: usize) -> f64 {
        match f.j {
            None => f.z[k] - x[f.i][k],
            Some(j) => x[f.i][k] + f.z[k] - x[j][k],
        }
    }
    pub fn error(&self, x: &[[f64; 3]]) -> f64 {
        self.f.iter().map(|f| (0..self.dims[f.i]).map(|k| (self.residual(f, x, k) / f.s).powi(2)).sum::<f64>() * 0.5).sum()
    }
    /// triplets of the weighted Jacobian (columns from `cols`) and the right-hand side
    pub fn system(&self, x: &[[f64; 3]], cols: &[usize]) -> (Vec<(usize, usize, f64)>, Vec<f64>) {
        let (mut t, mut b) = (vec![], vec![]);
        for f in &self.f {
            for k in 0..self.dims[f.i] {
                let r = b.len();
                t.push((r, cols[f.i] + k, if f.j.is_some() { 1.0 } else { -1.0 } / f.s));
                if let Some(j) = f.j {
                    t.push((r, cols[j] + k, -1.0 / f.s));
                }
                b.push(-self.residual(f, x, k) / f.s);
            }
        }
        (t, b)
    }
    /// the columns of every variable in an ordering, which must be a partition
    pub fn columns(&self, order: &ValuesOrder) -> Result<Vec<usize>, String> {
        if order.len() != self.dims.len() || order.dim() != self.dim() {
            return Err(format!("ordering of {} variables, {} columns has len {}, dim {}", self.dims.len(), self.dim(), order.len(), order.dim()));
        }
        let mut used = vec![false; self.dim()];
        let mut out = vec![];
        for (i, k) in self.keys.iter().enumerate() {
            let id = order.get(*k).ok_or("a key is missing from the ordering")?;
            if id.dim != self.dims[i] {
                return Err(format!("variable {i} of dimension {} has dimension {} in the ordering", self.dims[i], id.dim));
            }
            for c in id.idx..id.idx + id.dim {
                if c >= used.len() || used[c] {
                    return Err(format!("column {c} of variable {i} is taken twice or out of range"));
                }
                used[c] = true;
            }
            out.push(id.idx);
        }
        Ok(out)
    }
    /// the assembled system, entry by entry
    pub fn compare(&self, got: &DiffResult<faer::Mat<dtype>, faer::sparse::SparseColMat<usize, dtype>>, x: &[[f64; 3]], cols: &[usize]) -> Result<(), String> {
        let (t, b) = self.system(x, cols);
        if got.value.nrows() != b.len() || got.value.ncols() != 1 || got.diff.nrows() != b.len() || got.diff.ncols() != self.dim() {
            return Err(format!("system is {}x{} with {} rows on the right, expected {}x{}", got.diff.nrows(), got.diff.ncols(), got.value.nrows(), b.len(), self.dim()));
        }
        for (r, v) in b.iter().enumerate() {
            if got.value[(r, 0)] as f64 != *v {
                return Err(format!("right-hand side row {r} of {} is {}, expected {v}", b.len(), got.value[(r, 0)]));
            }
        }
        let mut want: HashMap<(usize, usize), f64> = t.iter().map(|(r, c, v)| ((*r, *c), *v)).collect();
        let m = got.diff.as_ref();
        for c in 0..m.ncols() {
            for (r, v) in m.row_indices_of_col(c).zip(m.values_of_col(c)) {
                let w = want.remove(&(r, c)).unwrap_or(0.0);
                if *v as f64 != w {
                    return Err(format!("entry ({r}, {c}) of {}x{} is {v}, the blocks give {w}", m.nrows(), m.ncols()));
                }
            }
        }
        if let Some(((r, c), v)) = want.into_iter().next() {
            return Err(format!("entry ({r}, {c}) of {}x{} is missing, the blocks give {v}", m.nrows(), m.ncols()));
        }
        Ok(())
    }
    pub fn note(&self, g: &mut Gen) {
        crate::note!(g, "{} variables, {} factors, {} rows, {} columns", self.dims.len(), self.f.len(), self.rows(), self.dim());
    }
    /// how far `d` (per column) is from satisfying (A^T A + lambda D) d = A^T b, relative to the magnitudes that meet
    pub fn normal_residual(&self, x: &[[f64; 3]], cols: &[usize], d: &[f64], lambda: f64, diagonal: bool) -> f64 {
        let (t, b) = self.system(x, cols);
        let mut res: Vec<f64> = b.iter().map(|v| -v).collect();
        for (r, c, v) in &t {
            res[*r] += v * d[*c];
        }
        let mut out = vec![0.0; d.len()];
        let mut h = vec![0.0; d.len()];
        for (r, c, v) in &t {
            out[*c] += v * res[*r];
            h[*c] += v * v;
        }
        let norm = |v: &[f64]| v.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        let size = norm(d) * norm(&h) + norm(&b);
        (0..d.len()).map(|c| (out[c] + lambda * if diagonal { h[c] } else { 1.0 } * d[c]).abs() / size).fold(0.0, f64::max)
    }
    /// movement of the values, per column
    pub fn moved(&self, v: &Values, cols: &[usize]) -> Result<Vec<f64>, String> {
        if v.len() != self.dims.len() {
            return Err(format!("{} variables became {}", self.dims.len(), v.len()));
        }
        let mut d = vec![0.0; self.dim()];
        for i in 0..self.dims.len() {
            let y = self.get(v, i).ok_or_else(|| format!("variable {i} is missing or has changed type"))?;
            for k in 0..self.dims[i] {
                d[cols[i] + k] = y[k] - self.x[i][k];
            }
        }
        Ok(d)
    }
    /// an increment of dyadic numbers, with its linear value store
    pub fn increment(&self, order: &ValuesOrder, salt: u64) -> (Vec<f64>, LinearValues) {
        let d: Vec<f64> = (0..self.dim() as u64).map(|i| dy(mix(self.seed ^ 9 ^ salt, i))).collect();
        let v = factrs::linalg::VectorX::from_iterator(d.len(), d.iter().map(|x| *x as dtype));
        let lv = LinearValues::from_order_and_vector(order.clone(), v);
        (d, lv)
    }
}

/// error and linearisation of a large graph
pub fn factors_case(g: &mut Gen, max_vars: usize, max_extra: usize) -> Outcome {
    let w = Big::gen(g, max_vars, max_extra);
    w.note(g);
    let values = w.values(g.bool());
    let gr = w.graph();
    if gr.len() != w.f.len() {
        return Err(format!("graph of {} factors has length {}", w.f.len(), gr.len()));
    }
    let (want, got) = (w.error(&w.x), gr.error(&values) as f64);
    let eps = if std::mem::size_of::<dtype>() == 4 { 2e-7 } else { 1e-15 };
    if (got - want).abs() > eps * want * (20.0 + w.f.len() as f64) {
        return Err(format!("error of the graph of {} factors is {got}, the sum of the factors' {want}", w.f.len()));
    }
    let order = ValuesOrder::from_values(&values);
    let cols = w.columns(&order)?;
    let lg = gr.linearize(&values);
    let go = if g.bool() { gr.sparsity_pattern(order) } else { lg.sparsity_pattern(order) };
    w.compare(&lg.residual_jacobian(&go), &w.x, &cols)?;
    Ok(w.f.len() > 1)
}
