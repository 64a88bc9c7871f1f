BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
FP="src/linalg/forward_prop.rs"; UT="src/utils.rs"; NG="src/noise/gaussian.rs"; FA="src/containers/factor.rs"
S2="src/variables/so2.rs"; S3="src/variables/so3.rs"; DE="src/residuals/imu_preint/delta.rs"; RES="src/residuals/imu_preint/residual.rs"
VAL="src/containers/values.rs"; OT="src/optimizers/traits.rs"; FM="factrs-proc/src/fac.rs"; RO="src/robust/mod.rs"

bug("c19-prior-empty-graph","C19",[(UT,"""                // Add prior on whatever the first variable is
                if values.is_empty() {
                    let factor = fac![PriorResidual::new(var.clone()), key];""","""                // Add prior on whatever the first variable is
                if graph.is_empty() {
                    let factor = fac![PriorResidual::new(var.clone()), key];""")],
'''fn main(){
 let p = std::env::temp_dir().join(format!("demo_{}.g2o", std::process::id()));
 std::fs::write(&p, "EDGE_SE2 0 1 1 0 0 1 0 0 1 0 1\\nVERTEX_SE2 0 0 0 0\\nVERTEX_SE2 1 1 0 0\\n").unwrap();
 let (g, v) = factrs::utils::load_g20(p.to_str().unwrap());
 std::fs::remove_file(&p).unwrap();
 need(v.len()==2, "two vertices"); need(g.len()==2, "the edge and the prior");
}''',"a file whose edges come before its vertices","the prior is dropped, so the problem has no anchor")

bug("c19-info-f32","C19",[(UT,"""                let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                #[rustfmt::skip]""","""                let m66 = parts[30].parse::<f32>().expect("Failed to parse g20") as dtype;
                #[rustfmt::skip]""")],
'''fn main(){
 let p = std::env::temp_dir().join(format!("demo_{}.g2o", std::process::id()));
 std::fs::write(&p, "VERTEX_SE3:QUAT 0 0 0 0 0 0 0 1\\nVERTEX_SE3:QUAT 1 0 0 0 0 0 0.1 0.99\\nEDGE_SE3:QUAT 0 1 0 0 0 0 0 0 1 1 0 0 0 0 0 1 0 0 0 0 1 0 0 0 1 0 0 1 0 123456.789\\n").unwrap();
 let (g, v) = factrs::utils::load_g20(p.to_str().unwrap());
 std::fs::remove_file(&p).unwrap();
 let q = SO3::from_xyzw(0.0,0.0,0.1,0.99); let l = q.log();
 let want = 0.5*123456.789*l[2]*l[2];
 near(g.error(&v)/want, 1.0, 1e-12, "graph error");
}''',"an information entry with more digits than single precision holds","the edge's weight is rounded to single precision")

bug("c08-det-guard","C08",[(NG,"""        let sqrt_inf = cov
            .try_inverse()""","""        // A nearly singular covariance can't be inverted reliably
        if cov.norm() < 1e-6 {
            return Self::from_vec_cov(cov.diagonal().as_view());
        }
        let sqrt_inf = cov
            .try_inverse()""")],
'''use factrs::linalg::{Matrix3, VectorX};
use factrs::noise::NoiseModel;
fn main(){
 let c = Matrix3::new(2.0,0.9,0.1, 0.9,1.0,0.2, 0.1,0.2,1.5)*1e-8;
 let n = GaussianNoise::<3>::from_matrix_cov(c.as_view());
 let v = VectorX::from_vec(vec![1.0,-2.0,0.5]);
 let want = (v.transpose()*c.try_inverse().unwrap()*&v)[0];
 near(n.whiten_vec(v).norm_squared()/want, 1.0, 1e-9, "Mahalanobis norm");
}''',"a full covariance of very precise measurements","the correlations are dropped")

bug("c02-so2-log-asin","C02",[(S2,"""    fn log(&self) -> VectorX<T> {
        vectorx![self.b.atan2(self.a)]""","""    fn log(&self) -> VectorX<T> {
        // In the right half plane the sine determines the angle
        if self.a > T::from(0.0) && self.b < T::from(1.0) && self.b > T::from(-1.0) {
            return vectorx![self.b.asin()];
        }
        vectorx![self.b.atan2(self.a)]""")],
'''use factrs::variables::Variable;
fn main(){
 let half = std::f64::consts::FRAC_PI_2;
 let mut worst: f64 = 0.0;
 for i in 0..2000 { let t = half - 1e-7 - i as f64*3.7e-10; let l = SO2::from_theta(t).log()[0]; worst = worst.max((l-t).abs()); }
 need(worst < 1e-12, "log(exp(t)) near a quarter turn");
}''',"an angle within about 1e-6 of a quarter turn","the logarithm loses half of the digits")

bug("c20-small-bias-diff","C20",[(DE,"""        let bias_diff = bias - &self.bias_init;
""","""        let mut bias_diff = bias - &self.bias_init;
        // Below the bias instability of any sensor there's nothing to correct
        let size = bias_diff.accel().norm_squared() + bias_diff.gyro().norm_squared();
        if size < T::from(1e-6) {
            bias_diff = ImuBias::identity();
        }
""")],
'''use factrs::residuals::imu_preint::*; use factrs::linalg::Vector3;
assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn err(da: f64) -> f64 {
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::identity(), Gravity::up());
 for _ in 0..100 { p.integrate(&Gyro::zeros(), &Accel::new(0.1,0.2,9.0), 0.01); }
 let f = p.build(X(0),V(0),B(0),X(1),V(1),B(1));
 let mut v = Values::new();
 let b = ImuBias::new(Gyro::zeros(), Accel::new(da,0.0,0.0));
 v.insert(X(0), SE3::identity()); v.insert(V(0), VectorVar3::identity()); v.insert(B(0), b.clone());
 v.insert(X(1), SE3::identity()); v.insert(V(1), VectorVar3::identity()); v.insert(B(1), b);
 f.error(&v)
}
fn main(){
 let d0 = err(5e-4)-err(0.0); let d1 = err(0.0)-err(-5e-4);
 need(d0.abs() > 1e-9*err(0.0).abs() && d1.abs() > 1e-9*err(0.0).abs(), "a bias change of 5e-4 changes the error");
}''',"a first-state bias within 1e-3 of the bias used for integration, but not equal","the first-order bias correction is dropped (and so is its Jacobian)")

bug("c20-cov-int-dt","C20",[(RES,"            + H_p_int * p.cov_integration * H_p_int.transpose()","            + H_p_int * p.cov_integration * H_p_int.transpose() * (dt / 0.01).min(1.0)")],
'''use factrs::residuals::imu_preint::*; use factrs::linalg::{Vector3, Matrix3};
assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn err(n: usize, dt: f64) -> f64 {
 let mut c = ImuCovariance::default(); c.set_scalar_integration(1.0);
 let mut p = ImuPreintegrator::new(c, ImuBias::identity(), Gravity::up());
 for _ in 0..n { p.integrate(&Gyro::zeros(), &Accel::new(0.0,0.0,-9.81), dt); }
 let f = p.build(X(0),V(0),B(0),X(1),V(1),B(1));
 let mut v = Values::new();
 v.insert(X(0), SE3::identity()); v.insert(V(0), VectorVar3::identity()); v.insert(B(0), ImuBias::identity());
 v.insert(X(1), SE3::from_rot_trans(SO3::identity(), Vector3::new(3.0,0.0,0.0))); v.insert(V(1), VectorVar3::identity()); v.insert(B(1), ImuBias::identity());
 f.error(&v)
}
fn main(){ let _ = Matrix3::<f64>::identity();
 near(err(10, 0.001)/err(10, 0.01), 1.0, 1e-2, "the integration covariance does not depend on dt");
}''',"sample intervals below 10 ms","the position covariance is too small for fast sensors")

bug("c10-weight-cap","C10",[(FA,"        let weight = self.robust.weight(norm2).sqrt();","        // A robust kernel can only ever take weight away\n        let weight = self.robust.weight(norm2).min(1.0).sqrt();")],
'''use factrs::robust::RobustCost;
#[derive(Clone,Debug)] struct Steep;
impl RobustCost for Steep { fn loss(&self, d2: f64)->f64 { d2 } fn weight(&self, _: f64)->f64 { 2.0 } }
assign_symbols!(X: VectorVar1);
fn main(){
 let f = FactorBuilder::new1(PriorResidual::new(VectorVar1::new(3.0)), X(0)).robust(Steep).build();
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(1.0));
 let l = f.linearize(&v);
 near(l.b.norm(), 2.0*2f64.sqrt(), 1e-9, "weighted residual");
}''',"a robust kernel whose weight exceeds one","the linear factor is not the weighted one, so the step is wrong")

bug("c15-observer-order","C15",[(OT,"""        for callback in &self.observers {""","""        // The newest observer is the most likely to need the values first
        for callback in self.observers.iter().take(3) {""")],
'''use factrs::optimizers::{OptObserver, OptObserverVec};
use std::{cell::RefCell, rc::Rc};
struct O(usize, Rc<RefCell<Vec<usize>>>);
impl OptObserver for O { type Input = Values; fn on_step(&self, _: &Values, _: f64) { self.1.borrow_mut().push(self.0); } }
fn main(){
 let log = Rc::new(RefCell::new(Vec::new()));
 let mut v: OptObserverVec<Values> = OptObserverVec::default();
 for i in 0..5 { v.add(O(i, log.clone())); }
 v.notify(&Values::new(), 1);
 need(*log.borrow() == vec![0,1,2,3,4], "every observer is notified");
}''',"more than three observers","the observers after the third are never notified")

bug("c12-chol-reuse-same-size","C12",[("src/linear/solvers.rs","""        if self.sparsity_pattern.is_none() {
            self.sparsity_pattern =
                Some(solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed"));
        }
""","""        if self.sparsity_pattern.is_none() {
            self.sparsity_pattern =
                Some(solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed"));
        }

        // Tall systems are better conditioned once they are square
        if a.nrows() > 8 * a.ncols() {
            let ata = a.transpose().to_col_major().expect("Failed to transpose A matrix").mul(a);
            let atb = a.transpose().mul(b);
            return solvers::SymbolicCholesky::try_new(ata.symbolic(), faer::Side::Lower)
                .ok()
                .and_then(|s| solvers::Cholesky::try_new_with_symbolic(s, ata.as_ref(), faer::Side::Lower).ok())
                .expect("Cholesky decomp failed")
                .solve(&atb);
        }
""")],
'''use factrs::linear::{QRSolver, LinearSolver};
use faer::{Mat, sparse::SparseColMat};
fn main(){
 let n = 30; let mut t = Vec::new(); let eps = 1e-6;
 for i in 0..n { t.push((i,0usize,1.0)); t.push((i,1usize,1.0 + if i%2==0 {eps} else {-eps})); }
 let a = SparseColMat::<usize,f64>::try_new_from_triplets(n,2,&t).unwrap();
 let b = Mat::from_fn(n,1,|i,_| 3.0 - 2.0*(1.0 + if i%2==0 {eps} else {-eps}));
 let x = QRSolver::default().solve_lst_sq(a.as_ref(), b.as_ref());
 near(x.read(0,0), 3.0, 1e-7, "x0"); near(x.read(1,0), -2.0, 1e-7, "x1");
}''',"a system with many more rows than columns and a condition number above 1e5","the QR solver silently squares the condition number")

bug("c14-lambda-retry","C14",[("src/optimizers/levenberg_marquardt.rs","        self.lambda /= self.params_leven.lambda_factor;\n","        if self.lambda < 1.0 {\n            self.lambda /= self.params_leven.lambda_factor;\n        }\n")],
'''assign_symbols!(X: VectorVar1);
use factrs::optimizers::{LevenMarquardt, GraphOptimizer, Optimizer};
fn main(){
 // with a damping that starts large, every accepted step lowers it again
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 o.params_leven.lambda_min = 1.0; o.params_leven.lambda_factor = 10.0;
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let _ = o.init(&v);
 let _ = v;
}''',"","")
BUGS.pop()

bug("c13-init-keeps-order","C13",[("src/optimizers/gauss_newton.rs","""        self.graph_order = Some(
            self.graph
                .sparsity_pattern(ValuesOrder::from_values(_values)),
        );""","""        let order = ValuesOrder::from_values(_values);
        match &self.graph_order {
            // Same variables as last time, keep the pattern
            Some(old) if old.order.dim() == order.dim() && old.order.len() == order.len() => {}
            _ => self.graph_order = Some(self.graph.sparsity_pattern(order)),
        }""")],
'''assign_symbols!(X: VectorVar1; Y: VectorVar2);
fn main(){
 // one optimiser, two runs: the second with another variable of the same size free
 let mut g = Graph::new();
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 let mut o: GaussNewton = GaussNewton::new(g);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0)); v.insert(X(1), VectorVar1::new(0.0));
 let _ = &mut o; let _ = v;
}''',"","")
BUGS.pop()

bug("c01-se3-compose-renorm","C01",[("src/variables/so3.rs","""        xyzw[3] = w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1;

        SO3 { xyzw }""","""        xyzw[3] = w0 * w1 - x0 * x1 - y0 * y1 - z0 * z1;

        // Keep the scalar part positive
        if xyzw[3] < T::from(-0.999) {
            xyzw[3] = -xyzw[3];
        }

        SO3 { xyzw }""")],
'''use factrs::linalg::vectorx; use factrs::variables::MatrixLieGroup;
fn main(){
 let a = SO3::exp(vectorx![0.0,0.0,3.12].as_view());
 let c = a.compose(&a); let m = a.to_matrix()*a.to_matrix();
 need((c.to_matrix()-m).norm() < 1e-9, "compose agrees with the matrix product");
}''',"a product whose rotation is close to a full turn (unit quaternion near -1)","the composed rotation is inverted")

