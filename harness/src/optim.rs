//! Shared pieces for the optimiser checks.
use crate::{geom::*, world::*};
use factrs::{containers::Values, optimizers::OptObserver};
use std::{cell::RefCell, rc::Rc};

/// condition number of A^T A and whether it is usable
pub fn normal_cond(a: &M) -> f64 {
    let e = (a.transpose() * a).symmetric_eigen().eigenvalues;
    if e.min() <= 0.0 {
        f64::INFINITY
    } else {
        e.max() / e.min()
    }
}
/// solution of the symmetric positive-definite system, refined
pub fn spd_solve(h: &M, g: &V) -> Option<V> {
    let c = h.clone().cholesky()?;
    let mut x = V::zeros(g.len());
    for _ in 0..3 {
        x += c.solve(&(g - h * &x));
    }
    Some(x)
}
#[derive(Clone, Default)]
pub struct Record {
    pub steps: Rc<RefCell<Vec<(f64, Values)>>>,
}
impl OptObserver for Record {
    type Input = Values;
    fn on_step(&self, values: &Values, time: f64) {
        self.steps.borrow_mut().push((time, values.clone()));
    }
}
/// largest difference of the matrices of two sets of variables
pub fn apart(a: &[AnyVar], b: &[AnyVar]) -> f64 {
    a.iter().zip(b).map(|(x, y)| diff(&x.mat(), &y.mat())).fold(0.0, |m, d| if d.is_nan() { f64::NAN } else { f64::max(m, d) })
}
pub fn extent(a: &[AnyVar]) -> f64 {
    a.iter().map(|x| maxabs(x.mat().iter())).fold(1.0, f64::max)
}
pub fn is_finite(a: &[AnyVar]) -> bool {
    a.iter().all(|x| x.mat().iter().all(|v| v.is_finite()))
}

/// the linearised problem, from the factors' own linearisations, in the harness's ordering
pub fn system(w: &World, values: &Values) -> (M, V) {
    let rows: usize = w.factors.iter().map(|f| f.out).sum();
    let off = w.offsets();
    let mut a = M::zeros(rows, w.dim());
    let mut b = V::zeros(rows);
    let mut row = 0;
    for f in &w.factors {
        let l = (f.make)(&w.fkeys(f)).linearize(values);
        for (k, i) in f.vars.iter().enumerate() {
            let blk = l.a.get_block(k).into_owned();
            let mut v = a.view_mut((row, off[*i]), blk.shape());
            v += blk;
        }
        b.rows_mut(row, f.out).copy_from(&l.b);
        row += f.out;
    }
    (a, b)
}
