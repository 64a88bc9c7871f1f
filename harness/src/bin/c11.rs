//! C11: sparse assembly against a dense model.
use ahash::HashMap;
use factrs::{
    containers::{Graph, Idx, Key, Values, ValuesOrder},
    linalg::{DiffResult, MatrixBlock},
    linear::{LinearFactor, LinearGraph, LinearValues},
};
use harness::{engine::*, ensure, geom::*, note, res::*, world::*};

type Sys = DiffResult<faer::Mat<f64>, faer::sparse::SparseColMat<usize, f64>>;

struct LSpec {
    keys: Vec<usize>,
    a: Vec<M>,
    b: V,
}
impl LSpec {
    fn build(&self, keys: &[Key]) -> LinearFactor {
        let rows = self.b.len();
        let cols: usize = self.a.iter().map(|m| m.ncols()).sum();
        let mut mat = M::zeros(rows, cols);
        let mut idx = vec![];
        let mut c = 0;
        for m in &self.a {
            idx.push(c);
            mat.view_mut((0, c), m.shape()).copy_from(m);
            c += m.ncols();
        }
        LinearFactor::new(self.keys.iter().map(|k| keys[*k]).collect(), MatrixBlock::new(mat, idx), self.b.clone())
    }
}
fn entry(g: &mut Gen) -> f64 {
    match g.below(6) {
        0 => 0.0,
        1 => g.sign(),
        2 if g.chance(1, 4) => g.sym(1.0) * 10f64.powi(g.range(0, 60) as i32 - 30),
        _ => g.sym(1.0) * 10f64.powi(g.range(0, 6) as i32 - 3),
    }
}
/// model of a system: (dense A, b) for factors placed by `cols`
fn dense(fs: &[LSpec], cols: &[usize], width: usize) -> (M, V, M) {
    let rows: usize = fs.iter().map(|f| f.b.len()).sum();
    let mut a = M::zeros(rows, width);
    let mut mag = M::zeros(rows, width);
    let mut b = V::zeros(rows);
    let mut r = 0;
    for f in fs {
        for (k, m) in f.keys.iter().zip(&f.a) {
            let mut blk = a.view_mut((r, cols[*k]), m.shape());
            blk += m;
            let mut blk = mag.view_mut((r, cols[*k]), m.shape());
            blk += m.abs();
        }
        b.rows_mut(r, f.b.len()).copy_from(&f.b);
        r += f.b.len();
    }
    (a, b, mag)
}
/// `mag` is the sum of the magnitudes that meet in each entry
fn compare(got: &Sys, a: &M, b: &V, mag: &M) -> Result<(), String> {
    ensure!(got.value.nrows() == b.len() && got.value.ncols() == 1, "right-hand side is {}x{}, expected {} rows", got.value.nrows(), got.value.ncols(), b.len());
    ensure!(got.diff.nrows() == a.nrows() && got.diff.ncols() == a.ncols(), "matrix is {}x{}, expected {}x{}", got.diff.nrows(), got.diff.ncols(), a.nrows(), a.ncols());
    for i in 0..b.len() {
        ensure!((got.value[(i, 0)] - b[i]).abs() <= 1e-13 * b[i].abs(), "right-hand side row {i} is {}, expected {}", got.value[(i, 0)], b[i]);
    }
    let d = got.diff.to_dense();
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            ensure!((d[(i, j)] - a[(i, j)]).abs() <= 1e-13 * mag[(i, j)], "entry ({i}, {j}) is {}, the blocks give {}", d[(i, j)], a[(i, j)]);
        }
    }
    Ok(())
}

fn gen_linear(g: &mut Gen, dims: &[usize], repeats: bool) -> Vec<LSpec> {
    let nf = if g.chance(1, 60) { g.range(20, 150) } else { g.range(1, 10) };
    (0..nf)
        .map(|_| {
            let rows = if g.chance(1, 20) { g.range(8, 20) } else { g.range(1, 7) };
            let arity = g.range(1, 6.min(if repeats { 6 } else { dims.len() }));
            let mut pool: Vec<usize> = (0..dims.len()).collect();
            let mut keys = vec![];
            for _ in 0..arity {
                let i = g.below(pool.len() as u64) as usize;
                keys.push(if repeats { pool[i] } else { pool.remove(i) });
            }
            LSpec { a: keys.iter().map(|k| M::from_fn(rows, dims[*k], |_, _| entry(g))).collect(), b: V::from_fn(rows, |_, _| entry(g)), keys }
        })
        .collect()
}
fn refill(g: &mut Gen, fs: &[LSpec]) -> Vec<LSpec> {
    fs.iter().map(|f| LSpec { keys: f.keys.clone(), a: f.a.iter().map(|m| M::from_fn(m.nrows(), m.ncols(), |_, _| entry(g))).collect(), b: V::from_fn(f.b.len(), |_, _| entry(g)) }).collect()
}
fn order_of(keys: &[Key], cols: &[usize], dims: &[usize]) -> ValuesOrder {
    let mut m: HashMap<Key, Idx> = HashMap::default();
    for i in 0..keys.len() {
        m.insert(keys[i], Idx { idx: cols[i], dim: dims[i] });
    }
    ValuesOrder::new(m)
}

/// linear graphs written by hand, columns in any order
fn linear(g: &mut Gen) -> Outcome {
    let n = if g.chance(1, 60) { g.range(9, 60) } else { g.range(1, 8) };
    let dims: Vec<usize> = (0..n).map(|_| if g.chance(1, 20) { g.range(8, 20) } else { g.range(1, 7) }).collect();
    let keys = gen_keys(g, n);
    let mut perm: Vec<usize> = (0..n).collect();
    g.shuffle(&mut perm);
    let mut cols = vec![0; n];
    let mut width = 0;
    for p in &perm {
        cols[*p] = width;
        width += dims[*p];
    }
    let repeats = g.chance(1, 4);
    let fs = gen_linear(g, &dims, repeats);
    g.hash_order();
    let order = order_of(&keys, &cols, &dims);
    note!(g, "dims {dims:?} columns {cols:?} factors (keys, rows) {:?}", fs.iter().map(|f| (f.keys.clone(), f.b.len())).collect::<Vec<_>>());
    ensure!(order.dim() == width && order.len() == n && !order.is_empty(), "ordering of {n} keys, {width} columns has len {}, dim {}", order.len(), order.dim());
    let build = |fs: &[LSpec], vec: bool| {
        if vec {
            LinearGraph::from_vec(fs.iter().map(|f| f.build(&keys)).collect())
        } else {
            let mut l = LinearGraph::new();
            fs.iter().for_each(|f| l.add_factor(f.build(&keys)));
            l
        }
    };
    let lg = build(&fs, g.bool());
    let go = lg.sparsity_pattern(order.clone());
    let (a, b, mag) = dense(&fs, &cols, width);
    // the pattern holds exactly the entries of some block
    let mut inside = vec![vec![false; width]; a.nrows()];
    let mut r = 0;
    for f in &fs {
        for k in &f.keys {
            for i in 0..f.b.len() {
                for j in 0..dims[*k] {
                    inside[r + i][cols[*k] + j] = true;
                }
            }
        }
        r += f.b.len();
    }
    ensure!(go.sparsity_pattern.nrows() == a.nrows() && go.sparsity_pattern.ncols() == width, "pattern is {}x{}", go.sparsity_pattern.nrows(), go.sparsity_pattern.ncols());
    for j in 0..width {
        let mut have = vec![false; a.nrows()];
        for i in go.sparsity_pattern.row_indices_of_col(j) {
            have[i] = true;
        }
        for i in 0..a.nrows() {
            ensure!(have[i] || !inside[i][j], "pattern misses entry ({i}, {j})");
        }
    }
    compare(&lg.residual_jacobian(&go), &a, &b, &mag)?;
    // the same pattern is used again for new numbers, and the first graph is unaffected
    let fs2 = refill(g, &fs);
    let lg2 = build(&fs2, g.bool());
    let (a2, b2, mag2) = dense(&fs2, &cols, width);
    compare(&lg2.residual_jacobian(&go), &a2, &b2, &mag2).map_err(|e| format!("second system in the same pattern: {e}"))?;
    compare(&lg.residual_jacobian(&go), &a, &b, &mag).map_err(|e| format!("first system again: {e}"))?;
    // increments and the error
    let x = V::from_fn(width, |_, _| entry(g));
    let lv = LinearValues::from_order_and_vector(order.clone(), x.clone());
    ensure!(lv.len() == n && lv.dim() == width && !lv.is_empty(), "increment has len {}, dim {}", lv.len(), lv.dim());
    for i in 0..n {
        let got = lv.get(keys[i]).ok_or("key missing from the increment")?;
        ensure!(got.iter().copied().eq(x.rows(cols[i], dims[i]).iter().copied()), "block of key {i} is {:?}, expected columns {}..{}", got.as_slice(), cols[i], cols[i] + dims[i]);
        let id = order.get(keys[i]).unwrap();
        ensure!(id.idx == cols[i] && id.dim == dims[i], "ordering gives {:?} for key {i}", id);
    }
    let mut seen = vec![];
    for (k, v) in lv.iter() {
        let i = keys.iter().position(|y| y == k).ok_or("unknown key in iteration")?;
        ensure!(v.iter().copied().eq(x.rows(cols[i], dims[i]).iter().copied()), "iteration gives {:?} for key {i}", v.as_slice());
        seen.push(i);
    }
    seen.sort();
    ensure!(seen == (0..n).collect::<Vec<_>>(), "iteration visits {seen:?}");
    let missing = Key(!keys.iter().fold(0u64, |s, k| s ^ k.0.rotate_left(13)));
    if !keys.contains(&missing) {
        ensure!(lv.get(missing).is_none() && order.get(missing).is_none(), "a key that was never inserted is found");
    }
    for (fs, lg, a, b, mag) in [(&fs, &lg, &a, &b, &mag), (&fs2, &lg2, &a2, &b2, &mag2)] {
        let want = 0.5 * (a * &x - b).norm_squared();
        let got = lg.error(&lv);
        let tol = 1e-12 * ((mag * x.abs()).norm_squared() + b.norm_squared());
        ensure!((got - want).abs() <= tol, "error of the linear graph {got}, half the squared norm of the assembled residual {want}");
        let sum: f64 = fs.iter().map(|f| f.build(&keys).error(&lv)).sum();
        ensure!((got - sum).abs() <= tol, "error of the linear graph {got}, sum of its factors' {sum}");
        let z = LinearValues::zero_from_order(order.clone());
        ensure!((lg.error(&z) - 0.5 * b.norm_squared()).abs() <= tol, "error at the zero increment {} for |b|^2/2 = {}", lg.error(&z), 0.5 * b.norm_squared());
    }
    g.class(if repeats { "keys may repeat within a factor" } else { "distinct keys" });
    if n > fs.iter().flat_map(|f| f.keys.clone()).collect::<std::collections::HashSet<_>>().len() {
        g.class("unconstrained variable");
    }
    Ok(fs.len() > 1 && n > 1)
}

/// graphs of real factors in the ordering of a value store
fn graph(g: &mut Gen) -> Outcome {
    g.ordinary = true;
    // sharp and loose factors
    let s = if g.chance(1, 4) { 10f64.powi(g.range(0, 16) as i32 - 8) } else { 1.0 };
    let w = World::gen(g, Opts { max_vars: 7, max_extra: 9, ang: 1.5, tr: 2.0, sigma: (0.1 * s, 3.0 * s), anchored: false, robust: true, custom: true, vectors: false });
    let values = w.values(g);
    let order = ValuesOrder::from_values(&values);
    ensure!(order.len() == w.vars.len() && order.dim() == w.dim(), "ordering has len {}, dim {}; the values have {} variables, {} dimensions", order.len(), order.dim(), w.vars.len(), w.dim());
    // a partition of the columns
    let mut cols = vec![];
    let mut used = vec![false; w.dim()];
    for (k, v) in w.keys.iter().zip(&w.vars) {
        let i = order.get(*k).ok_or("key missing from the ordering")?;
        ensure!(i.dim == v.dim(), "{k:?} ({}) has dimension {} in the ordering", v.name(), i.dim);
        for c in i.idx..i.idx + i.dim {
            ensure!(c < used.len() && !used[c], "column {c} of {k:?} is taken twice or out of range");
            used[c] = true;
        }
        cols.push(i.idx);
    }
    let gr = w.graph();
    let specs: Vec<LSpec> = w
        .factors
        .iter()
        .map(|f| {
            let l = (f.make)(&w.fkeys(f)).linearize(&values);
            LSpec { keys: f.vars.clone(), a: (0..f.vars.len()).map(|i| l.a.get_block(i).into_owned()).collect(), b: l.b }
        })
        .collect();
    let (a, b, mag) = dense(&specs, &cols, w.dim());
    let lg = gr.linearize(&values);
    let go = gr.sparsity_pattern(order.clone());
    compare(&lg.residual_jacobian(&go), &a, &b, &mag)?;
    let go2 = lg.sparsity_pattern(order.clone());
    compare(&lg.residual_jacobian(&go2), &a, &b, &mag).map_err(|e| format!("pattern of the linear graph: {e}"))?;
    // later linearisation at other values, same pattern
    let d: V = V::from_fn(w.dim(), |_, _| g.sym(0.3));
    let vars2 = retract_all(&w.vars, &d);
    let v2: Values = w.values_of(g, &vars2);
    let specs2: Vec<LSpec> = w
        .factors
        .iter()
        .map(|f| {
            let l = (f.make)(&w.fkeys(f)).linearize(&v2);
            LSpec { keys: f.vars.clone(), a: (0..f.vars.len()).map(|i| l.a.get_block(i).into_owned()).collect(), b: l.b }
        })
        .collect();
    let (a2, b2, mag2) = dense(&specs2, &cols, w.dim());
    compare(&gr.linearize(&v2).residual_jacobian(&go), &a2, &b2, &mag2).map_err(|e| format!("second linearisation: {e}"))?;
    // increments made from values
    let x = V::from_fn(w.dim(), |_, _| entry(g));
    let lv = LinearValues::from_values_and_vector(&values, x.clone());
    let z = LinearValues::zero_from_values(&values);
    ensure!(lv.dim() == w.dim() && z.dim() == w.dim() && z.len() == w.vars.len(), "increment from values: dim {} / {}", lv.dim(), z.dim());
    for (i, k) in w.keys.iter().enumerate() {
        let n = w.vars[i].dim();
        ensure!(lv.get(*k).map(|v| v.as_slice().to_vec()) == Some(x.rows(cols[i], n).as_slice().to_vec()), "increment block of {k:?} is not at its columns");
        ensure!(z.get(*k).map_or(false, |v| v.len() == n && v.iter().all(|c| *c == 0.0)), "zero increment of {k:?}");
    }
    let want = 0.5 * (&a * &x - &b).norm_squared();
    let tol = 1e-11 * ((&mag * x.abs()).norm_squared() + b.norm_squared());
    let got = lg.error(&lv);
    ensure!((got - want).abs() <= tol, "error of the linearised graph {got}, assembled {want}");
    // an empty graph has no rows
    let e = Graph::new().sparsity_pattern(order);
    ensure!(e.sparsity_pattern.nrows() == 0 && e.sparsity_pattern.ncols() == w.dim(), "empty graph pattern");
    Ok(w.factors.len() > 1)
}

/// large graphs: every entry, both ways to the pattern, the error at an increment
fn large(g: &mut Gen) -> Outcome {
    let (v, e) = if g.chance(1, 12) { (3, 400_000) } else { *g.pick(&[(400, 400), (400, 4000), (5, 5000), (60_000, 10), (50, 75_000)]) };
    let w = harness::big::Big::gen(g, v, e);
    w.note(g);
    let values = w.values(g.bool());
    let order = ValuesOrder::from_values(&values);
    let cols = w.columns(&order)?;
    let gr = w.graph();
    let lg = gr.linearize(&values);
    let a = lg.residual_jacobian(&gr.sparsity_pattern(order.clone()));
    w.compare(&a, &w.x, &cols)?;
    let b = lg.residual_jacobian(&lg.sparsity_pattern(order.clone()));
    w.compare(&b, &w.x, &cols).map_err(|e| format!("pattern of the linear graph: {e}"))?;
    let (d, lv) = w.increment(&order, 1);
    ensure!(lv.len() == w.keys.len() && lv.dim() == w.dim(), "increment has len {}, dim {}", lv.len(), lv.dim());
    for (i, k) in w.keys.iter().enumerate() {
        let blk = lv.get(*k).ok_or("key missing from the increment")?;
        ensure!(blk.as_slice() == &d[cols[i]..cols[i] + w.dims[i]], "increment block of variable {i} is {:?}, expected columns {}..", blk.as_slice(), cols[i]);
    }
    let (t, rhs) = w.system(&w.x, &cols);
    let mut r: Vec<f64> = rhs.iter().map(|v| -v).collect();
    t.iter().for_each(|(i, j, v)| r[*i] += v * d[*j]);
    let want = 0.5 * r.iter().map(|v| v * v).sum::<f64>();
    let got = lg.error(&lv);
    ensure!((got - want).abs() <= 1e-15 * want * (20.0 + w.f.len() as f64), "error of the linear graph {got}, half the squared norm of the assembled residual {want}");
    Ok(w.f.len() > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C11",
        rule: "linear: 1..8 keys of dimension 1..7 in any column order, 1..10 hand-written linear factors of 1..7 rows and 1..6 keys (repeats within a factor allowed), then new numbers in the same pattern; graph: generated factor graphs over 12 variable types in the ordering of a value store filled in any order. large: vector graphs of up to 60000 variables or 400000 factors, compared exactly with closed-form rows. Oracle: blocks added into a dense matrix. Non-trivial: more than one factor (and key).",
        assumptions: &[],
        subs: vec![sub("linear", 60_000, linear), sub("graph", 20_000, graph), sub("large", 200, large)],
    });
}
