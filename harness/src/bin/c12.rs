//! C12: linear solvers.
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use faer::{sparse::SparseColMat, Mat};
use harness::{engine::*, ensure, geom::*, note};

/// structural pattern of an m x n matrix
fn pattern(g: &mut Gen, m: usize, n: usize) -> Vec<(usize, usize)> {
    let kind = g.below(6);
    let mut p = vec![];
    match kind {
        // every row touches a few columns
        0 | 1 => {
            for i in 0..m {
                for _ in 0..g.range(1, 4) {
                    p.push((i, g.below(n as u64) as usize));
                }
            }
        }
        // chain
        2 => {
            for i in 0..m {
                p.push((i, i % n));
                p.push((i, (i + 1) % n));
            }
        }
        // arrow
        3 => {
            let hub = g.below(n as u64) as usize;
            for i in 0..m {
                p.push((i, hub));
                p.push((i, i % n));
            }
        }
        // diagonal / separate blocks
        4 => {
            for i in 0..m {
                p.push((i, i % n));
            }
        }
        _ => {
            for i in 0..m {
                for j in 0..n {
                    p.push((i, j));
                }
            }
        }
    }
    p.sort();
    p.dedup();
    p
}
fn value(g: &mut Gen) -> f64 {
    match g.below(8) {
        0 => 0.0,
        1 => g.sign(),
        _ => g.sym(2.0),
    }
}
fn sparse(p: &[(usize, usize)], v: &[f64], m: usize, n: usize) -> SparseColMat<usize, f64> {
    let t: Vec<(usize, usize, f64)> = p.iter().zip(v).map(|((i, j), x)| (*i, *j, *x)).collect();
    SparseColMat::try_new_from_triplets(m, n, &t).unwrap()
}
fn to_m(a: &SparseColMat<usize, f64>) -> M {
    let d = a.to_dense();
    M::from_fn(d.nrows(), d.ncols(), |i, j| d[(i, j)])
}
fn to_mat(a: &M) -> Mat<f64> {
    Mat::from_fn(a.nrows(), a.ncols(), |i, j| a[(i, j)])
}
fn from_mat(a: &Mat<f64>) -> M {
    M::from_fn(a.nrows(), a.ncols(), |i, j| a[(i, j)])
}
fn cond(a: &M) -> (f64, f64) {
    let s = a.clone().svd(false, false).singular_values;
    (s.max(), s.min())
}
fn gen_size(g: &mut Gen) -> usize {
    if g.chance(1, 400) {
        return g.range(90, 150);
    }
    match g.below(20) {
        0 => g.range(30, 70),
        1..=4 => g.range(10, 25),
        _ => g.range(1, 9),
    }
}
struct One<'a> {
    name: &'a str,
    run: Box<dyn FnMut(&SparseColMat<usize, f64>, &Mat<f64>) -> Mat<f64> + 'a>,
    fresh: fn(&SparseColMat<usize, f64>, &Mat<f64>) -> Mat<f64>,
    normal: bool,
}

/// A different system with the same pattern that shares much with the previous one (its diagonal, trace, magnitudes, ...)
fn vary_symmetric(g: &mut Gen, m: &M, kappa: f64) -> Option<(M, f64)> {
    let n = m.nrows();
    let mut a = m.clone();
    match g.below(5) {
        // the same matrix again
        0 => return Some((a, kappa)),
        // signs of some unknowns flipped: same diagonal, trace, determinant, magnitudes
        1 => {
            let s: Vec<f64> = (0..n).map(|_| g.sign()).collect();
            for i in 0..n {
                for j in 0..n {
                    a[(i, j)] *= s[i] * s[j];
                }
            }
            return Some((a, kappa));
        }
        2 => {
            let s = *g.pick(&[2.0, 0.5, 3.0]);
            return Some((a * s, kappa));
        }
        // diagonal entries exchanged: same trace
        3 => {
            let (i, j) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
            let t = a[(i, i)];
            a[(i, i)] = a[(j, j)];
            a[(j, j)] = t;
        }
        // one diagonal entry changed
        _ => {
            let i = g.below(n as u64) as usize;
            a[(i, i)] *= g.uniform(1.0, 3.0);
        }
    }
    let e = a.clone().symmetric_eigen().eigenvalues;
    if e.min() > e.max() * 1e-6 {
        Some((a, e.max() / e.min()))
    } else {
        None
    }
}
/// symmetric positive-definite systems, several with the same pattern on one solver
fn symmetric(g: &mut Gen) -> Outcome {
    let n = gen_size(g);
    // symmetric pattern with full diagonal, from the normal equations of a random pattern
    let base = pattern(g, n, n);
    let mut p: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
    for (i, j) in base {
        p.push((i, j));
        p.push((j, i));
    }
    p.sort();
    p.dedup();
    let (mut ch, mut qr, mut lu) = (CholeskySolver::default(), QRSolver::default(), LUSolver::default());
    let steps = g.range(1, 4);
    let cols = if g.chance(1, 5) { g.range(2, 4) } else { 1 };
    note!(g, "size {n}, {} stored entries, {steps} solves, {cols} right-hand sides", p.len());
    let mut last: Option<(M, f64)> = None;
    for s in 0..steps {
        // a variation of the previous system, or an unrelated one
        let derived = match &last {
            Some((m, k)) if g.chance(1, 2) => vary_symmetric(g, m, *k),
            _ => None,
        };
        let (sym, kappa) = match derived {
            Some(d) => {
                g.class("varied system");
                d
            }
            None => {
        let mut sym = M::zeros(n, n);
        for (i, j) in p.iter().filter(|(i, j)| i <= j) {
            let v = value(g);
            sym[(*i, *j)] = v;
            sym[(*j, *i)] = v;
        }
        // shift to positive definiteness, with a chosen margin
        let e = sym.clone().symmetric_eigen().eigenvalues;
        let margin = g.logu(1e-6, 1.0) * (e.max() - e.min() + 1.0);
        let shift = margin - e.min();
        for i in 0..n {
            sym[(i, i)] += shift;
        }
        let scale = g.logu(1e-3, 1e3);
        sym *= scale;
        (sym, (e.max() + shift) / margin)
            }
        };
        last = Some((sym.clone(), kappa));
        let v: Vec<f64> = p.iter().map(|(i, j)| sym[(*i, *j)]).collect();
        let a = sparse(&p, &v, n, n);
        let x = M::from_fn(n, cols, |_, _| value(g));
        let bm = &sym * &x;
        let b = to_mat(&bm);
        let (a0, b0) = (to_m(&a), b.clone());
        note!(g, "solve {s}: condition number about {kappa:.3e}\n{}", if n <= 6 { format!("{sym}") } else { String::new() });
        let runs: [(&str, Mat<f64>, Mat<f64>); 3] = [
            ("Cholesky", ch.solve_symmetric(a.as_ref(), b.as_ref()), CholeskySolver::default().solve_symmetric(a.as_ref(), b.as_ref())),
            ("QR", qr.solve_symmetric(a.as_ref(), b.as_ref()), QRSolver::default().solve_symmetric(a.as_ref(), b.as_ref())),
            ("LU", lu.solve_symmetric(a.as_ref(), b.as_ref()), LUSolver::default().solve_symmetric(a.as_ref(), b.as_ref())),
        ];
        let xs = maxabs(x.iter()) + 1e-3;
        let tol = 1e-13 * (n as f64 + 10.0) * kappa * xs;
        for (name, got, fresh) in runs {
            ensure!(got.nrows() == n && got.ncols() == cols, "{name}: solution is {}x{}", got.nrows(), got.ncols());
            let (got, fresh) = (from_mat(&got), from_mat(&fresh));
            ensure!(diff(&got, &x) < tol, "{name}: solve {s} of a symmetric {n}x{n} system is off by {:e} (tolerance {tol:e}): {:?} instead of {:?}", diff(&got, &x), got.as_slice(), x.as_slice());
            ensure!(diff(&fresh, &x) < tol, "{name}: a fresh solver is off by {:e} (tolerance {tol:e})", diff(&fresh, &x));
            let res = diff(&(&sym * &got), &bm);
            ensure!(res < 1e-11 * (n as f64) * maxabs(sym.iter()) * (xs + tol) * 10.0, "{name}: residual of the solved system {res:e}");
        }
        ensure!(to_m(&a) == a0 && b == b0, "an input was modified");
    }
    g.class(if steps > 1 { "repeated solve" } else { "single solve" });
    Ok(n > 1)
}

/// least-squares systems of full column rank, several with the same pattern on one solver
fn lstsq(g: &mut Gen) -> Outcome {
    let n = gen_size(g);
    let m = n + if g.chance(1, 4) { 0 } else { g.range(0, n + 4) };
    let mut p = pattern(g, m, n);
    for j in 0..n {
        p.push((j, j));
    }
    p.sort();
    p.dedup();
    // rows in any order
    let mut rows: Vec<usize> = (0..m).collect();
    g.shuffle(&mut rows);
    for e in p.iter_mut() {
        e.0 = rows[e.0];
    }
    let (mut ch, mut qr, mut lu) = (CholeskySolver::default(), QRSolver::default(), LUSolver::default());
    let steps = g.range(1, 4);
    note!(g, "{m}x{n}, {} stored entries, {steps} solves", p.len());
    let mut done = 0;
    let mut last: Vec<f64> = vec![];
    for s in 0..steps {
        let scale = g.logu(1e-2, 1e2);
        let how = if last.is_empty() { 9 } else { g.below(8) };
        let v: Vec<f64> = if how < 4 {
            // a variation of the previous system: same, or rows / columns negated, or one entry changed
            let (rs, cs): (Vec<f64>, Vec<f64>) = ((0..m).map(|_| g.sign()).collect(), (0..n).map(|_| g.sign()).collect());
            let k = g.below(p.len() as u64) as usize;
            g.class("varied system");
            p.iter().enumerate().map(|(q, (i, j))| last[q] * match how { 0 => rs[*i], 1 => cs[*j], 2 if q == k => 1.5, _ => 1.0 }).collect()
        } else { p
            .iter()
            .map(|(i, j)| {
                let strong = rows[*j] == *i;
                (value(g) + if strong { 3.0 } else { 0.0 }) * scale
            })
            .collect() };
        last = v.clone();
        let a = sparse(&p, &v, m, n);
        let am = to_m(&a);
        let (smax, smin) = cond(&am);
        let kappa = smax / smin;
        if !(kappa < 1e4) {
            continue;
        }
        done += 1;
        let exact = g.chance(1, 3);
        let bm = if exact { &am * M::from_fn(n, 1, |_, _| value(g)) } else { M::from_fn(m, 1, |_, _| value(g) * smax) };
        let b = to_mat(&bm);
        let (a0, b0) = (am.clone(), b.clone());
        // reference: dense normal equations, refined
        let Some(chol) = (am.transpose() * &am).cholesky() else { continue };
        let mut x = M::zeros(n, 1);
        for _ in 0..4 {
            x += chol.solve(&(am.transpose() * (&bm - &am * &x)));
        }
        let bn = bm.norm() + 1e-6 * smax;
        note!(g, "solve {s}: condition number {kappa:.3e}");
        let mut solvers: Vec<One> = vec![
            One { name: "Cholesky", run: Box::new(|a, b| ch.solve_lst_sq(a.as_ref(), b.as_ref())), fresh: |a, b| CholeskySolver::default().solve_lst_sq(a.as_ref(), b.as_ref()), normal: true },
            One { name: "QR", run: Box::new(|a, b| qr.solve_lst_sq(a.as_ref(), b.as_ref())), fresh: |a, b| QRSolver::default().solve_lst_sq(a.as_ref(), b.as_ref()), normal: false },
            One { name: "LU", run: Box::new(|a, b| lu.solve_lst_sq(a.as_ref(), b.as_ref())), fresh: |a, b| LUSolver::default().solve_lst_sq(a.as_ref(), b.as_ref()), normal: true },
        ];
        for sol in solvers.iter_mut() {
            let got = (sol.run)(&a, &b);
            let fresh = (sol.fresh)(&a, &b);
            let name = sol.name;
            ensure!(got.nrows() == n && got.ncols() == 1, "{name}: solution is {}x{} for a {m}x{n} system", got.nrows(), got.ncols());
            let (got, fresh) = (from_mat(&got), from_mat(&fresh));
            let _ = sol.normal;
            let tol = 1e-12 * (m as f64 + 10.0) * bn / smin * kappa;
            for (what, v) in [("solve", &got), ("fresh solver", &fresh)] {
                ensure!(diff(v, &x) < tol, "{name}: {what} {s} of a {m}x{n} least-squares system is off by {:e} (tolerance {tol:e}): {:?} instead of {:?}", diff(v, &x), v.as_slice(), x.as_slice());
            }
            let grad = am.transpose() * (&bm - &am * &got);
            ensure!(maxabs(grad.iter()) < 1e-11 * (m as f64 + 10.0) * smax * bn * kappa, "{name}: gradient at the returned solution {:e}", maxabs(grad.iter()));
        }
        ensure!(to_m(&a) == a0 && b == b0, "an input was modified");
    }
    g.class(if done > 1 { "repeated solve" } else { "single solve" });
    Ok(done > 0 && m > n)
}

/// consistent tall systems with nearly dependent columns: orthogonal factorisation loses kappa digits, not kappa^2
fn ill(g: &mut Gen) -> Outcome {
    let n = g.range(2, 8);
    let m = n + if g.bool() { g.range(0, 4) } else { g.range(4, 20 * n) };
    let mut p = pattern(g, m, n);
    for j in 0..n {
        p.push((j, j));
    }
    p.sort();
    p.dedup();
    let eps = g.logu(1e-8, 1e-3);
    let mut am = M::zeros(m, n);
    for (i, j) in &p {
        am[(*i, *j)] = value(g) + if i == j { 2.0 } else { 0.0 };
    }
    // one column is another plus a little
    let (c, d) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
    if c == d {
        return Ok(false);
    }
    for i in 0..m {
        am[(i, c)] = am[(i, d)] + eps * value(g);
    }
    let (smax, smin) = cond(&am);
    let kappa = smax / smin;
    if !(kappa < 1e9) {
        return Ok(false);
    }
    let e: Vec<(usize, usize)> = (0..n).flat_map(|j| (0..m).map(move |i| (i, j))).filter(|(i, j)| am[(*i, *j)] != 0.0).collect();
    let v: Vec<f64> = e.iter().map(|(i, j)| am[(*i, *j)]).collect();
    let a = sparse(&e, &v, m, n);
    let x = M::from_fn(n, 1, |_, _| value(g));
    let b = to_mat(&(&am * &x));
    note!(g, "{m}x{n}, condition number {kappa:.2e}");
    let mut qr = QRSolver::default();
    let got = from_mat(&qr.solve_lst_sq(a.as_ref(), b.as_ref()));
    let again = from_mat(&qr.solve_lst_sq(a.as_ref(), b.as_ref()));
    let tol = 1e-14 * (m as f64 + 20.0) * kappa * (x.norm() + 1.0);
    for got in [&got, &again] {
        ensure!(diff(got, &x) < tol, "QR: the solution of a consistent {m}x{n} system is off by {:e} (tolerance {tol:e})", diff(got, &x));
    }
    g.class(if kappa > 1e6 { "condition above 1e6" } else { "condition below 1e6" });
    Ok(kappa > 1e4)
}

/// large sparse systems, by their own equations
fn large(g: &mut Gen) -> Outcome {
    let w = harness::big::Big::gen(g, 3_000, 300);
    w.note(g);
    let mut cols = vec![];
    let mut n = 0;
    for d in &w.dims {
        cols.push(n);
        n += d;
    }
    let (t, b) = w.system(&w.x, &cols);
    let m = b.len();
    let a = SparseColMat::<usize, f64>::try_new_from_triplets(m, n, &t).unwrap();
    let rhs = Mat::from_fn(m, 1, |i, _| b[i]);
    let mut atb = vec![0.0; n];
    let mut byrow: Vec<Vec<(usize, f64)>> = vec![vec![]; m];
    for (i, j, v) in &t {
        atb[*j] += v * b[*i];
        byrow[*i].push((*j, *v));
    }
    let mut h: std::collections::HashMap<(usize, usize), f64> = Default::default();
    for r in &byrow {
        for (i, x) in r {
            for (j, y) in r {
                *h.entry((*i, *j)).or_default() += x * y;
            }
        }
    }
    let ht: Vec<(usize, usize, f64)> = h.into_iter().map(|((i, j), v)| (i, j, v)).collect();
    let hm = SparseColMat::<usize, f64>::try_new_from_triplets(n, n, &ht).unwrap();
    let hb = Mat::from_fn(n, 1, |i, _| atb[i]);
    fn both<S: LinearSolver>(a: &SparseColMat<usize, f64>, b: &Mat<f64>, h: &SparseColMat<usize, f64>, hb: &Mat<f64>) -> (Mat<f64>, Mat<f64>) {
        (S::default().solve_lst_sq(a.as_ref(), b.as_ref()), S::default().solve_symmetric(h.as_ref(), hb.as_ref()))
    }
    let (name, (x, y)) = match g.below(3) {
        0 => ("Cholesky", both::<CholeskySolver>(&a, &rhs, &hm, &hb)),
        1 => ("QR", both::<QRSolver>(&a, &rhs, &hm, &hb)),
        _ => ("LU", both::<LUSolver>(&a, &rhs, &hm, &hb)),
    };
    for (what, x) in [("least squares", x), ("symmetric", y)] {
        ensure!(x.nrows() == n && x.ncols() == 1, "{name} {what}: solution is {}x{}, expected {n}x1", x.nrows(), x.ncols());
        let d: Vec<f64> = (0..n).map(|i| x[(i, 0)]).collect();
        let r = w.normal_residual(&w.x, &cols, &d, 0.0, true);
        ensure!(r < 1e-9, "{name} {what}: a system of {n} unknowns is left unsolved by {r:e}");
    }
    Ok(n > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C12",
        rule: "patterns: random rows, chains, arrows, diagonal, dense, sizes 1..70, stored zeros; symmetric: condition numbers 1..1e6, 1..4 solves on one solver, 1..4 right-hand sides, known solution; least squares: square to tall, consistent or not, reference by refined dense normal equations; every solver, each solve also by a fresh solver; ill: consistent systems with nearly dependent columns, QR within the condition number times machine precision. Non-trivial: more than one unknown / more rows than unknowns.",
        assumptions: &["systems with condition number above 1e6 (symmetric) or 1e4 (least squares; QR on consistent systems: 1e9) are not judged"],
        subs: vec![sub("symmetric", 25_000, symmetric), sub("lstsq", 20_000, lstsq), sub("ill", 20_000, ill), sub("large", 100, large)],
    });
}
