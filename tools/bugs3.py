BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
ND="src/linalg/numerical_diff.rs"; LA="src/linalg/mod.rs"; FA="src/containers/factor.rs"; GR="src/containers/graph.rs"
LG="src/linear/graph.rs"; LF="src/linear/factor.rs"; RO="src/robust/mod.rs"; SO="src/linear/solvers.rs"
GN="src/optimizers/gauss_newton.rs"; LM="src/optimizers/levenberg_marquardt.rs"; OT="src/optimizers/traits.rs"
VAL="src/containers/values.rs"; SYM="src/containers/symbol.rs"; UT="src/utils.rs"; FAC="factrs-proc/src/fac.rs"
DEL="src/residuals/imu_preint/delta.rs"; RES="src/residuals/imu_preint/residual.rs"; RR="src/rerun.rs"; SO3="src/variables/so3.rs"; TR="src/variables/traits.rs"; SE2="src/variables/se2.rs"; IB="src/variables/imu_bias.rs"; LV="src/linear/values.rs"; OR="src/containers/order.rs"

bug("c06-num-reset-last","C06",[(ND,"""                        let delta = (plus - minus) / (2.0 * eps);
                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);

                        tvs[i][j] = 0.0;
""","""                        let delta = (plus - minus) / (2.0 * eps);
                        jac.columns_mut(curr_dim + j, 1).copy_from(&delta);

                        if j + 1 < tvs[i].len() {
                            tvs[i][j] = 0.0;
                        }
""")],
'''fn main(){
 let x = VectorVar1::new(3.0); let y = VectorVar1::new(2.0);
 let d = NumericalDiff::<3>::jacobian_2(|x: VectorVar1, y: VectorVar1| vectorx![x[0] * x[0] * y[0]], &x, &y).diff;
 near(d[(0,0)], 12.0, 1e-6, "d/dx"); near(d[(0,1)], 9.0, 1e-6, "d/dy");
}''',"two or more variables and a mixed second derivative","later columns are taken at a shifted point of the earlier variables")

bug("c06-variable-forward","C06",[(ND,"                        let delta = plus.ominus(&minus) / (2.0 * eps);","                        let delta = (plus.ominus(&minus) / 2.0 + plus.ominus(&res) - res.ominus(&minus)) / eps;")],
'''fn main(){
 let x = VectorVar1::new(1.0);
 let d = NumericalDiff::<3>::jacobian_variable_1(|x: VectorVar1| VectorVar1::new(x[0] * x[0] * x[0]), &x).diff;
 near(d[(0,0)], 3.0, 1e-4, "d/dx");
}''',"a curved function with variable output","a first-order term in the step size is left in the derivative")

bug("c06-value-midpoint","C06",[(LA,"    DiffResult { value: r, diff: d }","    let r = if d.abs() > 1e3 { (f(x + eps) + f(x - eps)) / 2.0 } else { r };\n\n    DiffResult { value: r, diff: d }")],
'''fn main(){
 let r = factrs::linalg::numerical_derivative(|x: f64| x.powi(4), 20.0, 1e-3);
 near(r.value, 160000.0, 1e-7, "value");
}''',"a steep function","the value returned is not the function's value")

bug("c10-weight-floor","C10",[(FA,"        let weight = self.robust.weight(norm2).sqrt();","        // Keep every factor in the system, a vanishing weight may leave it singular\n        let weight = self.robust.weight(norm2).max(1e-6).sqrt();")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let f = fac![PriorResidual::new(VectorVar1::new(0.0)), X(0), GaussianNoise::<1>::from_scalar_sigma(1.0), Tukey::new(2.0)];
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(1e4));
 let l = f.linearize(&v);
 near((l.a.mat().transpose() * &l.b)[0], 0.0, 1e-9, "gradient of a rejected outlier");
}''',"a bounded kernel and a gross outlier","a rejected outlier keeps a weight and pulls on the estimate")

bug("c11-nary-pattern","C11",[(GR,"""                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
""","""                let Idx {
                    idx: col,
                    dim: col_dim,
                } = order.get(*key).expect("Key missing in values");
                let rows = f.dim_out();
                // Blocks are stored along their longer side
                if *col_dim <= rows + 8 {
                    (0..rows * *col_dim)
                        .for_each(|k| indices.push((row + k / col_dim, col + k % col_dim)));
                } else {
                    (0..rows * *col_dim)
                        .for_each(|k| indices.push((row + k % rows, col + k / rows)));
                }
""")],
'''use factrs::linalg::{Numeric, ForwardProp, Const};
#[derive(Clone, Debug)] struct R;
impl std::fmt::Display for R { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "R") } }
factrs_mark!{}
fn main(){}''',"","",skip=True)

bug("c09-fair-series","C09",[(RO,"""        let d = d2.sqrt();
        self.c * self.c * (d / self.c - (1.0 + (d / self.c)).ln())""","""        let d = d2.sqrt();
        if d < 1e-2 * self.c {
            // Avoid the cancellation close to zero
            return d2 / 2.0;
        }
        self.c * self.c * (d / self.c - (1.0 + (d / self.c)).ln())""")],
'''fn main(){
 let f = Fair::new(1.0); let x: f64 = 0.005;
 let want = x - x.ln_1p();
 near(f.loss(x * x) / want, 1.0, 1e-6, "loss");
}''',"a residual below a hundredth of the scale","the loss is the quadratic one there and jumps at the switch")

bug("c12-qr-first-rhs","C12",[(SO,"""        .as_ref()
        .subrows(0, a.ncols())
        .to_owned()""","""        .as_ref()
        .submatrix(0, 0, a.ncols(), 1)
        .to_owned()""")],
'''use faer::{mat, sparse::SparseColMat};
fn main(){
 let a = SparseColMat::<usize, f64>::try_new_from_triplets(3, 2, &[(0,0,1.0),(1,1,2.0),(2,0,1.0)]).unwrap();
 let b = mat![[2.0, 4.0],[2.0, 8.0],[2.0, 4.0]];
 let x = QRSolver::default().solve_lst_sq(a.as_ref(), b.as_ref());
 need(x.ncols() == 2, "one solution per right-hand side");
 near(x.read(1,1), 4.0, 1e-9, "second solution");
}''',"several right-hand sides at once with the QR solver","only the first is solved")

bug("c12-lu-drop-small","C12",[(SO,"""            .expect("Failed to transpose A matrix")
            .mul(a);
        let atb = a.transpose().mul(b);
""","""            .expect("Failed to transpose A matrix")
            .mul(a);
        // Round off noise on the diagonal makes the factorization unstable
        let mut ata = ata;
        let tiny = 1e-12 * ata.values().iter().fold(0.0, |m: dtype, x| m.max(x.abs()));
        for x in ata.values_mut() {
            if x.abs() < tiny {
                *x = x.signum() * tiny;
            }
        }
        let atb = a.transpose().mul(b);
""")],
'''use faer::{mat, sparse::SparseColMat};
fn main(){
 let a = SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0,0,1e4),(1,1,1e-3)]).unwrap();
 let b = mat![[1e4],[1e-3]];
 let x = LUSolver::default().solve_lst_sq(a.as_ref(), b.as_ref());
 near(x.read(0,0), 1.0, 1e-9, "x0"); near(x.read(1,0), 1.0, 1e-6, "x1");
}''',"columns that differ in scale by more than a million","the small scale column is solved wrongly")

bug("c13-skip-small-step","C13",[(GN,"        values.oplus_mut(&dx);","        // No need to touch the values once converged\n        let zero = LinearValues::zero_from_values(&values);\n        if linear_graph.error(&zero) - linear_graph.error(&dx) > 1e-9 {\n            values.oplus_mut(&dx);\n        }")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(5.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(5.00002));
 let mut o: GaussNewton = GaussNewton::new(g);
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 near(r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 5.0, 1e-9, "one step");
}''',"a start whose error is already tiny","the step is not taken")

bug("c14-accept-nan","C14",[(LM,"            if curr_error < old_error {","            if !(curr_error >= old_error) {")],
'''use faer::{Mat, MatRef, sparse::SparseColMatRef};
assign_symbols!(X: VectorVar1);
#[derive(Default)] struct S(usize);
impl LinearSolver for S {
 fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> { self.0 += 1; if self.0 == 1 { Mat::from_fn(a.ncols(), 1, |_, _| f64::NAN) } else { CholeskySolver::default().solve_symmetric(a, b) } }
 fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> { CholeskySolver::default().solve_lst_sq(a, b) }
}
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(5.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt<S> = LevenMarquardt::new(g); o.params_base.max_iterations = 1;
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 near(r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 5.0, 1e-2, "step");
}''',"a linear solve that breaks down at the current damping","a step of NaN is accepted instead of raising the damping")

bug("c15-notify-retries","C15",[(LM,"            self.lambda *= self.params_leven.lambda_factor;","            self.observers.notify(&values, idx);\n            self.lambda *= self.params_leven.lambda_factor;")],
'''use std::{cell::Cell, rc::Rc};
assign_symbols!(X: VectorVar1);
struct O(Rc<Cell<usize>>);
impl OptObserver for O { type Input = Values; fn on_step(&self, _: &Values, _: f64) { self.0.set(self.0.get() + 1); } }
fn main(){
 let mut g = Graph::new();
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(5.0)), X(0)]); g.add_factor(fac![PriorResidual::new(VectorVar1::new(7.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(6.0));
 let n = Rc::new(Cell::new(0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g); o.observers.add(O(n.clone()));
 need(matches!(o.optimize(v), Err(OptError::FailedToStep)), "no step decreases the error");
 need(n.get() == 0, "observers are told about completed steps only");
}''',"a step attempt that does not decrease the error","observers are called for attempts too")

bug("c15-zero-iterations","C15",[(OT,"        for i in 1..self.params().max_iterations + 1 {","        for i in 1..=self.params().max_iterations.max(1) {")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(5.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: GaussNewton = GaussNewton::new(g); o.params.max_iterations = 0;
 match o.optimize(v) { Err(OptError::MaxIterations(v)) => near(v.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 0.0, 0.0, "values"), _ => need(false, "no step allowed") }
}''',"an iteration limit of zero","one step is taken")

bug("c17-oplus-stops-at-absent","C17",[(VAL,"""            if let Some(v) = self.values.get_mut(key) {
                assert!(v.dim() == value.len(), "Dimension mismatch in values oplus",);
                v.oplus_mut(value);
            }""","""            let Some(v) = self.values.get_mut(key) else {
                break;
            };
            assert!(v.dim() == value.len(), "Dimension mismatch in values oplus",);
            v.oplus_mut(value);""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut all = Values::new(); for i in 0..40 { all.insert(X(i), VectorVar1::new(0.0)); }
 let d = LinearValues::from_values_and_vector(&all, VectorX::from_element(40, 1.0));
 let mut part = Values::new(); for i in 0..20 { part.insert(X(i), VectorVar1::new(0.0)); }
 part.oplus_mut(&d);
 for i in 0..20 { near(part.get(X(i)).map(|x: &VectorVar1| x[0]).unwrap(), 1.0, 0.0, "every present variable moves"); }
}''',"an increment over more keys than the store holds","variables after the first absent key are not moved")

bug("c17-filter-first-type","C17",[(VAL,"            .filter_map(|(_, value)| value.downcast_ref::<T>())","            .filter(|(key, _)| key.0 as u32 != u32::MAX)\n            .filter_map(|(_, value)| value.downcast_ref::<T>())")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); v.insert(X(u32::MAX as u64), VectorVar1::new(1.0)); v.insert(X(0), VectorVar1::new(2.0));
 need(v.filter::<VectorVar1>().count() == 2, "filter yields every variable of the type");
}''',"a variable with the largest index","it is left out of filtering")

bug("c18-escape-letter","C18",[(SYM,"""        write!(f, "({}, {})", self.chr, self.idx)""","""        write!(f, "({}, {})", self.chr.escape_default(), self.idx)""")],
'''fn main(){
 let s = format!("{:?}", DefaultSymbol::new('λ', 3));
 need(s.contains('λ'), "printed symbol shows its letter");
}''',"a letter outside ASCII","printing shows an escape sequence")

bug("c19-backward-edges","C19",[(UT,"""                let key1 = X(id_prev);
                let key2 = X(id_curr);
                let var = SE2::new(theta, x, y);
""","""                let var = SE2::new(theta, x, y);
                // Loop closures are written backwards in some datasets
                let (key1, key2, var) = if id_prev > id_curr + 1 {
                    (X(id_curr), X(id_prev), var.inverse())
                } else {
                    (X(id_prev), X(id_curr), var)
                };
""")],
'''fn main(){
 let d = std::env::temp_dir().join(format!("g2o_{}", std::process::id()));
 std::fs::write(&d, "VERTEX_SE2 0 0 0 0\\nVERTEX_SE2 1 1 0 0\\nVERTEX_SE2 2 2 1 0.5\\nEDGE_SE2 2 0 -1.5 0.3 -0.7 10 1 2 20 3 30\\n").unwrap();
 let (g, v) = factrs::utils::load_g20(d.to_str().unwrap()); std::fs::remove_file(&d).unwrap();
 let a = SE2::new(0.5, 2.0, 1.0); let z = SE2::new(-0.7, -1.5, 0.3); let b = SE2::new(0.0, 0.0, 0.0);
 let r = (&a * &z).ominus(&b);
 let w = nalgebra::Matrix3::new(30.0, 2.0, 3.0, 2.0, 10.0, 1.0, 3.0, 1.0, 20.0);
 let e = 0.5 * (r.transpose() * w * &r)[(0, 0)];
 near(g.error(&v), e, 1e-9, "error of a backward edge");
}''',"a 2D edge from a later to an earlier vertex with an anisotropic information matrix","the edge is turned round without turning its information")

bug("c20-build-jitter","C20",[(RES,"""        B2: TypedSymbol<ImuBias>,
    {
        // Create noise from our covariance matrix
        let noise = GaussianNoise::from_matrix_cov(self.cov.as_view());
""","""        B2: TypedSymbol<ImuBias>,
    {
        // Create noise from our covariance matrix, keep it well conditioned
        let cov = self.cov + Matrix::identity() * (self.cov.trace() * 1e-6);
        let noise = GaussianNoise::from_matrix_cov(cov.as_view());
""")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 let mk = || { let mut c = ImuCovariance::default(); c.set_scalar_integration(1e-2); let mut p = ImuPreintegrator::new(c, ImuBias::zeros(), Gravity::up());
  for _ in 0..10 { p.integrate(&Gyro::zeros(), &Accel::new(0.0, 0.0, 9.81), 0.01); } p };
 let mut v = Values::new();
 for i in 0..2 { v.insert(X(i), SE3::identity()); v.insert(V(i), VectorVar3::new(0.0, 0.0, 0.01 * i as f64)); v.insert(B(i), ImuBias::identity()); }
 let a = mk().build(X(0), V(0), B(0), X(1), V(1), B(1)).error(&v);
 let b = mk().build_unchecked(X(0), V(0), B(0), X(1), V(1), B(1)).error(&v);
 near(a / b, 1.0, 1e-6, "typed and untyped build weigh alike");
}''',"the typed build and noises of different sizes","the covariance is inflated")

bug("c20-cross-block","C20",[(RES,"""        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);""","""        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M.transpose());"""),(RES,"""        B.fixed_view_mut::<3, 3>(6, 3).copy_from(&M);""","""        B.fixed_view_mut::<3, 3>(6, 3).copy_from(&M.map(|x| if x.abs() < 1e-12 { 0.0 } else { x }));""")],
'''fn main(){}''',"","",skip=True)

bug("c22-robust-nary","C22",[(FAC,"""        match &self.robust {
            Some(r) => quote! {.robust(#r) },""","""        match &self.robust {
            Some(_) if self.noise_is_unit() => TokenStream2::new(),
            Some(r) => quote! {.robust(#r) },"""),(FAC,"""    fn new_call(&self)""","""    // A path ending in UnitNoise or identity() doesn't need to be weighted
    fn noise_is_unit(&self) -> bool {
        match &self.noise {
            Some(Expr::Path(p)) => p
                .path
                .segments
                .last()
                .is_some_and(|s| s.ident == "UnitNoise"),
            _ => false,
        }
    }

    fn new_call(&self)""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let f = fac![PriorResidual::new(VectorVar1::new(0.0)), X(0), UnitNoise::<1>, Huber::new(1.0)];
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(10.0));
 near(f.error(&v), 9.5, 1e-9, "huber loss");
}''',"unit noise written out together with a kernel","the kernel is dropped")

bug("c23-se2-wrap","C23",[(RR,"""        let arrows: Arrows2D = se2.rot().into();
        arrows.with_origins([xy, xy])""","""        let arrows: Arrows2D = SO2::from_theta(se2.theta().rem_euclid(std::f64::consts::PI)).into();
        arrows.with_origins([xy, xy])""")],
'''use rerun::Arrows2D;
fn main(){
 let p = SE2::new(-1.0, 2.0, 3.0);
 let a: Arrows2D = (&p).into(); let b: Arrows2D = p.rot().into();
 need(a.vectors == b.vectors, "axes of a pose are those of its rotation");
}''',"a planar pose turned clockwise","its axes are drawn the other way round",features="rerun",deps='\nrerun = { version = "0.20", default-features = false, features = ["sdk"] }')

bug("c24-oplus-mut-right","C24",[(TR,"        *self = self.oplus(delta);","        *self = self.oplus_right(delta);")],
'''assign_symbols!(X: SO3);
fn main(){
 let x = SO3::exp(vectorx![0.3, 0.8, -0.4].as_view()); let d = vectorx![0.5, -0.2, 0.1];
 let mut v = Values::new(); v.insert(X(0), x.clone());
 let l = LinearValues::from_values_and_vector(&v, d.clone()); v.oplus_mut(&l);
 let got: &SO3 = v.get(X(0)).unwrap();
 near((got.to_matrix() - x.oplus(d.as_view()).to_matrix()).norm(), 0.0, 1e-9, "update of a stored rotation");
}''',"the left-update configuration and a non-abelian variable in a store","stored values are updated on the right while derivatives are for the left",features="left")

bug("c24-fake-exp-se2-log","C24",[(SE2,"""        let theta = self.rot.log()[0];

        let xy = if cfg!(feature = "fake_exp") {
            &self.xy
""","""        let theta = self.rot.log()[0];

        let xy = if cfg!(feature = "fake_exp") && theta.abs() < T::from(1.0) {
            &self.xy
""")],
'''fn main(){
 let d = vectorx![1.5, 2.0, -1.0];
 let x = SE2::exp(d.as_view());
 near((x.log() - d).norm(), 0.0, 1e-9, "log(exp)");
}''',"the decoupled configuration and a turn above 1 rad","the logarithm is the coupled one there",features="fake_exp")

bug("c01-from-matrix-branch","C01",[(SO3,"        } else if mat[(0, 0)] > mat[(1, 1)] && mat[(0, 0)] > mat[(2, 2)] {","        } else if mat[(0, 0)] > mat[(1, 1)] {")],
'''fn main(){
 let r = SO3::exp((vectorx![1e-7, 0.0, 1.0] * std::f64::consts::PI).as_view());
 let m = r.to_matrix(); let b = SO3::from_matrix(m.as_view());
 near((b.to_matrix() - m).norm(), 0.0, 1e-9, "element from its matrix");
}''',"a half turn about an axis very close to z","the element built from the matrix is inaccurate or NaN")

bug("c01-so2-from-matrix","C01",[("src/variables/so2.rs","""            a: mat[(0, 0)],
            b: mat[(1, 0)],""","""            a: mat[(0, 0)],
            b: (T::from(1.0) - mat[(0, 0)] * mat[(0, 0)]).sqrt().copysign(mat[(1, 0)]),""")],
'''fn main(){
 let r = SO2::from_theta(1e-6); let m = r.to_matrix(); let b = SO2::from_matrix(m.as_view());
 near(b.to_theta() / 1e-6, 1.0, 1e-6, "element from its matrix");
}''',"a small angle","the sine is recovered from the cosine and loses its digits")

bug("c11-zero-blocks","C11",[(LF,"        (ax - &self.b).norm_squared() / 2.0","        if ax.iter().all(|x| *x == 0.0) {\n            return self.b.norm_squared();\n        }\n        (ax - &self.b).norm_squared() / 2.0")],
'''fn main(){
 use factrs::symbols::X;
 let f = LinearFactor::new(vec![X(0).into()], MatrixBlock::new(MatrixX::identity(2, 2), vec![0]), vectorx![1.0, 2.0]);
 let mut v = Values::new(); v.insert_unchecked(X(0), VectorVar2::new(0.0, 0.0));
 let mut g = LinearGraph::new(); g.add_factor(f);
 near(g.error(&LinearValues::zero_from_values(&v)), 2.5, 1e-12, "error at zero");
}''',"the zero increment","the linear error is twice as large there")
BUGS=[b for b in BUGS if not b.pop("skip",False)]
