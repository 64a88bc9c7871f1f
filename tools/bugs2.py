BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
GN="src/optimizers/gauss_newton.rs"; LM="src/optimizers/levenberg_marquardt.rs"; OT="src/optimizers/traits.rs"
VAL="src/containers/values.rs"; SYM="src/containers/symbol.rs"; UT="src/utils.rs"
DEL="src/residuals/imu_preint/delta.rs"; RES="src/residuals/imu_preint/residual.rs"; RR="src/rerun.rs"

bug("c13-step-clamp","C13",[(GN,"""            .column(0)
            .clone_owned();
""","""            .column(0)
            .clone_owned();
        // Guard against diverging steps
        let delta = if delta.amax() > 1e3 {
            &delta * (1e3 / delta.amax())
        } else {
            delta
        };
""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(5000.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: GaussNewton = GaussNewton::new(g); o.params.max_iterations = 1;
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 near(r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 5000.0, 1e-6, "one step");
}''',"a start more than 1000 away from the minimiser","the step is shortened, a linear problem is not solved in one step")

bug("c13-relinearize-skip","C13",[(GN,"""        // Solve the linear system
        let linear_graph = self.graph.linearize(&values);
        let DiffResult { value: r, diff: j } =
            linear_graph.residual_jacobian(self.graph_order.as_ref().expect("Missing graph order"));
""","""        // Solve the linear system
        let linear_graph = self.graph.linearize(&values);
        let order = self.graph_order.as_ref().expect("Missing graph order");
        let DiffResult { value: r, mut diff } = linear_graph.residual_jacobian(order);
        // Normalize tiny entries, they only hurt the factorization
        diff.values_mut().iter_mut().for_each(|x| {
            if x.abs() < 1e-4 {
                *x = 0.0
            }
        });
        let j = diff;
""")],
'''use std::fmt;
assign_symbols!(X: VectorVar2);
#[derive(Debug, Clone)] struct L;
impl fmt::Display for L { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "l") } }
#[factrs::mark]
impl Residual1 for L { type Differ = ForwardProp<Const<2>>; type V1 = VectorVar2; type DimIn = Const<2>; type DimOut = Const<2>;
 fn residual1<T: Numeric>(&self, a: VectorVar2<T>) -> VectorX<T> { vectorx![a[0] + a[1] * 5e-5 - 1.0, a[1] - 1000.0] } }
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![L, X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0, 0.0));
 let mut o: GaussNewton = GaussNewton::new(g); o.params.max_iterations = 1;
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 let x: &VectorVar2 = r.get(X(0)).unwrap();
 near(x[0], 0.95, 1e-9, "one step"); near(x[1], 1000.0, 1e-9, "one step");
}''',"Jacobian entries below 1e-4 that matter","small couplings are dropped from the step")

bug("c14-no-lambda-min","C14",[(LM,"""        if self.lambda < self.params_leven.lambda_min {
            self.lambda = self.params_leven.lambda_min;
        }
""","""        if self.lambda < self.params_leven.lambda_min {
            self.lambda = self.params_leven.lambda_min / self.params_leven.lambda_factor;
        }
""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 // linear prior: after each step the remaining distance is multiplied by l/(1+l)
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 o.params_base.max_iterations = 2; o.params_base.error_tol_absolute = -1.0; o.params_base.error_tol_relative = -1.0;
 o.params_leven.lambda_min = 0.5;
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 let d = 1.0 - r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap();
 let l0 = 1e-5f64; let e = (l0/(1.0+l0)) * (0.5/1.5);
 near(d / e, 1.0, 1e-6, "remaining distance after two damped steps");
}''',"a positive lambda_min reached after an accepted step","the damping used is below the configured minimum")

bug("c14-damping-floor","C14",[(LM,"                .map(|i| (i as isize, i as isize, jtj[(i, i)]))","                .map(|i| (i as isize, i as isize, jtj[(i, i)].max(1e-2)))")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0), GaussianNoise::<1>::from_scalar_sigma(100.0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 o.params_base.max_iterations = 1; o.params_base.error_tol_absolute = -1.0; o.params_base.error_tol_relative = -1.0;
 let r = match o.optimize(v) { Ok(v) => v, Err(OptError::MaxIterations(v)) => v, _ => { need(false, "failed"); return } };
 let d = 1.0 - r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap();
 near(d / (1e-5/(1.0+1e-5)), 1.0, 1e-6, "one damped step");
}''',"a weakly observed variable (diagonal entry below 0.01) with diagonal damping","it is damped by more than its diagonal entry")

bug("c14-accept-equal","C14",[(LM,"            if curr_error < old_error {","            if curr_error <= old_error {")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 // two priors that disagree; start exactly at the optimum
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]); g.add_factor(fac![PriorResidual::new(VectorVar1::new(-1.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 need(matches!(o.optimize(v), Err(OptError::FailedToStep)), "a step that cannot decrease the error must be reported");
}''',"values exactly at a minimum with nonzero error","a step that does not decrease the linearised error is accepted")

bug("c14-lambda-max-late","C14",[(LM,"""            self.lambda *= self.params_leven.lambda_factor;
            if self.lambda > self.params_leven.lambda_max {
                return Err(OptError::FailedToStep);
            }""","""            if self.lambda > self.params_leven.lambda_max {
                return Err(OptError::FailedToStep);
            }
            self.lambda *= self.params_leven.lambda_factor;""")],
'''use std::{fmt, cell::RefCell};
use faer::{sparse::SparseColMatRef, Mat, MatRef};
thread_local!(static SEEN: RefCell<Vec<f64>> = RefCell::new(vec![]));
#[derive(Default)] struct Spy;
impl LinearSolver for Spy {
 fn solve_symmetric(&mut self, a: SparseColMatRef<usize, f64>, b: MatRef<f64>) -> Mat<f64> { SEEN.with(|s| s.borrow_mut().push(a[(0,0)])); Mat::zeros(b.nrows(), 1) }
 fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, f64>, _b: MatRef<f64>) -> Mat<f64> { Mat::zeros(a.ncols(), 1) }
}
assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt<Spy> = LevenMarquardt::new(g);
 o.params_leven.lambda_max = 3.0; 
 need(matches!(o.optimize(v), Err(OptError::FailedToStep)), "failure reported");
 SEEN.with(|s| for d in s.borrow().iter() { need(*d <= 1.0 + 3.0 + 1e-9, &format!("damped diagonal {d} beyond lambda_max")); });
}''',"steps failing until the damping limit","one attempt is made with a damping beyond the configured maximum")

bug("c15-abs-decrease","C15",[(OT,"            if error_decrease_abs <= self.params().error_tol_absolute {","            if error_decrease_abs.abs() <= self.params().error_tol_absolute {"),(OT,"            if error_decrease_rel <= self.params().error_tol_relative {","            if error_decrease_rel.abs() <= self.params().error_tol_relative {")],
'''struct S { p: OptParams, e: Vec<f64> }
impl Optimizer for S { type Input = usize; fn params(&self) -> &OptParams { &self.p } fn step(&mut self, v: usize, _i: usize) -> OptResult<usize> { Ok(v + 1) } fn error(&self, v: &usize) -> f64 { self.e[*v] } }
fn main(){
 let mut s = S { p: OptParams::default(), e: vec![10.0, 5.0, 7.0, 3.0, 3.0, 3.0] };
 need(matches!(s.optimize(0), Ok(2)), "must stop after the step that increased the error");
}''',"a step that increases the error","the run goes on after an increase instead of stopping")

bug("c15-rel-denominator","C15",[(OT,"            let error_decrease_rel = error_decrease_abs / error_old;","            let error_decrease_rel = error_decrease_abs / error_new;")],
'''struct S { p: OptParams, e: Vec<f64> }
impl Optimizer for S { type Input = usize; fn params(&self) -> &OptParams { &self.p } fn step(&mut self, v: usize, _i: usize) -> OptResult<usize> { Ok(v + 1) } fn error(&self, v: &usize) -> f64 { self.e[*v] } }
fn main(){
 let mut s = S { p: OptParams { error_tol_relative: 0.6, ..Default::default() }, e: vec![10.0, 5.0, 1.0, 0.9, 0.9] };
 need(matches!(s.optimize(0), Ok(1)), "relative decrease of 0.5 is at most 0.6");
}''',"a large relative tolerance or decrease","the relative decrease is taken relative to the new error")

bug("c15-tol-strict","C15",[(OT,"            if error_new <= self.params().error_tol {","            if error_new < self.params().error_tol {")],
'''struct S { p: OptParams, e: Vec<f64> }
impl Optimizer for S { type Input = usize; fn params(&self) -> &OptParams { &self.p } fn step(&mut self, v: usize, _i: usize) -> OptResult<usize> { Ok(v + 1) } fn error(&self, v: &usize) -> f64 { self.e[*v] } }
fn main(){
 let mut s = S { p: OptParams { error_tol: 2.0, ..Default::default() }, e: vec![10.0, 2.0, 1.0, 1.0] };
 need(matches!(s.optimize(0), Ok(1)), "error has reached the tolerance");
}''',"an error exactly equal to the tolerance (such as an exactly zero error)","one more step than necessary is taken")

bug("c16-order-kept","C16",[(GN,"""        self.graph_order = Some(
            self.graph
                .sparsity_pattern(ValuesOrder::from_values(_values)),
        );
""","""        let order = ValuesOrder::from_values(_values);
        if self.graph_order.as_ref().map(|g| g.order.dim()) != Some(order.dim()) {
            self.graph_order = Some(self.graph.sparsity_pattern(order));
        }
""")],
'''assign_symbols!(X: VectorVar1, VectorVar2);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(5.0)), X(0)]);
 let mut o: GaussNewton<QRSolver> = GaussNewton::new(g);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let r = o.optimize(v).unwrap(); near(r.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 5.0, 1e-6, "first run");
 let _ = o;
}''',"","")
BUGS.pop()

bug("c16-trust-region","C16",[(LM,"            if curr_error < old_error {","            if curr_error < old_error && dx.iter().all(|(_, d)| d.amax() < 50.0) {")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar2::new(400.0, 0.0)), X(0)]);
 g.add_factor(fac![BetweenResidual::new(VectorVar2::new(1.0, 1.0)), (X(0), X(1))]);
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0, 0.0)); v.insert(X(1), VectorVar2::new(0.0, 0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 o.params_leven.lambda_max = 5.0;
 match o.optimize(v) { Ok(r) => near(r.get(X(1)).map(|x: &VectorVar2| x[0]).unwrap(), 401.0, 1e-3, "solution"), Err(e) => { drop(e); need(false, "failed") } }
}''',"a start more than 50 units from the solution and a limited damping range","the optimiser gives up on a linear problem")

bug("c16-large-index-alias","C16",[("src/containers/order.rs","        self.map.get(&symbol.into())","        let key: Key = symbol.into();\n        self.map.get(&Key(key.0 & !(1 << 31)))")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let k = 1u64 << 31;
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(4.0)), X(k + 1)]);
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(2.0)), X(1)]);
 let mut v = Values::new(); v.insert(X(1), VectorVar1::new(0.0)); v.insert(X(k + 1), VectorVar1::new(0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 match o.optimize(v) { Ok(r) => near(r.get(X(k + 1)).map(|x: &VectorVar1| x[0]).unwrap(), 4.0, 1e-3, "solution"), Err(_) => need(false, "failed") }
}''',"key indices of 2^31 and above","variables with such names share the columns of another variable")

bug("c17-insert-returns-none","C17",[(VAL,"""        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.values.insert(symbol.into(), Box::new(value))
    }""","""        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        let key = symbol.into();
        // Avoid a new allocation when replacing a value of the same type
        if let Some(old) = self.values.get_mut(&key).and_then(|v| v.downcast_mut::<V>()) {
            *old = value;
            return None;
        }
        self.values.insert(key, Box::new(value))
    }""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(1.0));
 let old = v.insert(X(0), VectorVar1::new(2.0));
 need(old.is_some(), "overwriting returns the old value");
}''',"overwriting an entry with a value of the same type through the typed insert","the replaced value is not returned")

bug("c17-oplus-skips-tiny","C17",[(VAL,"                v.oplus_mut(value);","                if value.amax() > 1e-8 {\n                    v.oplus_mut(value);\n                }")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let d = LinearValues::from_values_and_vector(&v, vectorx![5e-9]);
 v.oplus_mut(&d);
 near(v.get(X(0)).map(|x: &VectorVar1| x[0]).unwrap(), 5e-9, 1e-15, "oplus");
}''',"an increment block with all entries below 1e-8","that variable is not moved")

bug("c17-get-mut-inserts","C17",[(VAL,"""        S: Symbol,
        V: VariableUmbrella,
    {
        self.values
            .get_mut(&symbol.into())
            .and_then(|value| value.downcast_mut::<V>())
    }""","""        S: Symbol,
        V: VariableUmbrella,
    {
        let value = self.values.get_mut(&symbol.into())?;
        if !value.is::<V>() && value.dim() == V::DIM {
            *value = Box::new(V::identity());
        }
        value.downcast_mut::<V>()
    }""")],
'''use factrs::symbols::X;
fn main(){
 let mut v = Values::new(); v.insert_unchecked(X(0), VectorVar3::new(1.0, 2.0, 3.0));
 let r: Option<&mut SO3> = v.get_unchecked_mut(X(0));
 need(r.is_none(), "wrong type must fail");
 let r: Option<&VectorVar3> = v.get_unchecked(X(0));
 need(r.is_some(), "failed access changes nothing");
}''',"an untyped mutable read with a wrong type of equal dimension","the stored value is replaced by an identity of the wrong type")

bug("c18-index-mask","C18",[(SYM,"const IDX_MASK: u64 = !CHR_MASK;","const IDX_MASK: u64 = !CHR_MASK >> 8;")],
'''use factrs::symbols::X;
fn main(){
 let a: Key = X(5).into(); let b: Key = X(5 + (1 << 24)).into();
 need(a != b, "distinct symbols give distinct keys");
}''',"indices of 2^24 and above","such indices alias smaller ones")

bug("c18-alternate-print","C18",[(VAL,"""                writeln!(f, "  {:?}: {:?},", DefaultSymbol::from(*key), value)?;""","""                writeln!(f, "  {:?}: {:?},", key, value)?;""")],
'''use factrs::symbols::X;
fn main(){
 let mut v = Values::new(); v.insert_unchecked(X(7), VectorVar1::new(1.0));
 let s = format!("{:#}", v);
 need(s.contains('x') && s.contains('7') && !s.contains("Key"), "printed entry shows its symbol");
}''',"printing a value store in the alternate (pretty) format","entries show the raw 64-bit key")

bug("c19-quat-sign","C19",[(UT,"""                let qw = parts[9].parse::<dtype>().expect("Failed to parse g20");
""","""                let qw = parts[9].parse::<dtype>().expect("Failed to parse g20");
                // Keep the scalar part positive
                let qw = qw.abs();
""")],
'''fn main(){
 let d = std::env::temp_dir().join(format!("c19demo{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); let p = d.join("a.g2o");
 let s = 0.5f64.sqrt();
 let info = "1 0 0 0 0 0 1 0 0 0 0 1 0 0 0 1 0 0 1 0 1";
 std::fs::write(&p, format!("VERTEX_SE3:QUAT 0 0 0 0 0 0 0 1\\nVERTEX_SE3:QUAT 1 0 0 0 {s} 0 0 {s}\\nEDGE_SE3:QUAT 0 1 0 0 0 {} 0 0 {} {info}\\n", -s, -s)).unwrap();
 let (g, v) = factrs::utils::load_g20(p.to_str().unwrap());
 let e = g.error(&v); std::fs::remove_dir_all(&d).unwrap();
 near(e, 0.0, 1e-9, "error of consistent file");
}''',"a 3D edge whose quaternion is written with a negative scalar part","the edge's rotation is inverted")

bug("c19-info-indices","C19",[(UT,"""                let m35 = parts[23].parse::<dtype>().expect("Failed to parse g20");
                let m36 = parts[24].parse::<dtype>().expect("Failed to parse g20");""","""                let m35 = parts[24].parse::<dtype>().expect("Failed to parse g20");
                let m36 = parts[23].parse::<dtype>().expect("Failed to parse g20");""")],
'''fn main(){
 let d = std::env::temp_dir().join(format!("c19demo{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); let p = d.join("a.g2o");
 let info = "2 0 0 0 0 0 2 0 0 0 0 2 0 0.5 0 2 0 0 2 0 2";
 std::fs::write(&p, format!("VERTEX_SE3:QUAT 0 0 0 0 0 0 0 1\\nVERTEX_SE3:QUAT 1 0 0 1 0 0 {} {}\\nEDGE_SE3:QUAT 0 1 0 0 0 0 0 0 1 {info}\\n", 0.1f64.sin(), 0.1f64.cos())).unwrap();
 let (g, v) = factrs::utils::load_g20(p.to_str().unwrap());
 let e = g.error(&v); std::fs::remove_dir_all(&d).unwrap();
 // mismatch: z translation 1 (sign -), yaw 0.2 (sign -): 0.5*(2*1 + 2*0.04 + 2*0*...) ; m36 couples z and yaw with 0.5 at (z, rz)
 near(e, 0.5*(2.0*1.0 + 2.0*0.04 + 2.0*M36*0.2), 1e-6, "error");
}
const M36: f64 = 0.5;''',"","")
# info row order: m11..m16, m22..m26, m33 m34 m35 m36, ...: row 3 = "2 0 0.5 0" puts 0.5 at m35; the demo wants it at m36
BUGS[-1]["demo"]=BUGS[-1]["demo"].replace("2 0 0.5 0 2 0 0 2 0 2","2 0 0 0.5 2 0 0 2 0 2")
BUGS[-1]["needs"]="a 3D edge whose information couples z with pitch or yaw"
BUGS[-1]["breaks"]="the couplings of z with pitch and yaw are exchanged"

bug("c20-noise-after-update","C20",[(RES,"""        // Construct all matrices before integrating
        let B_Q_BT = self.B_Q_BT(dt);

""",""),(RES,"""        let A = self.delta.integrate(&gyro, &accel, dt);
""","""        let A = self.delta.integrate(&gyro, &accel, dt);
        let B_Q_BT = self.B_Q_BT(dt);
""")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 // anisotropic accelerometer noise and a quarter turn in the first of two steps: the noise of the second step is seen rotated
 let mut c = ImuCovariance::default();
 c.cov_accel = Matrix3::from_diagonal(&Vector3::new(1.0, 1e-8, 1e-8));
 let mut p = ImuPreintegrator::new(c, ImuBias::zeros(), Gravity(Vector3::zeros()));
 p.integrate(&Gyro::new(0.0, 0.0, std::f64::consts::FRAC_PI_2 / 0.1), &Accel::zeros(), 0.1);
 let f = p.build(X(0), V(0), B(0), X(1), V(1), B(1));
 let mut v = Values::new();
 v.insert(X(0), SE3::identity()); v.insert(V(0), VectorVar3::new(0.0,0.0,0.0)); v.insert(B(0), ImuBias::zeros());
 v.insert(X(1), SE3::exp(vectorx![0.0,0.0,std::f64::consts::FRAC_PI_2,0.0,0.0,0.0].as_view()));
 let x1 = SE3::from_rot_trans(SO3::exp(vectorx![0.0,0.0,std::f64::consts::FRAC_PI_2].as_view()), Vector3::zeros());
 v.insert(X(1), x1);
 v.insert(B(1), ImuBias::zeros());
 v.insert(V(1), VectorVar3::new(0.1,0.0,0.0)); let ex = f.error(&v);
 v.insert(V(1), VectorVar3::new(0.0,0.1,0.0)); let ey = f.error(&v);
 // noise entered along the initial x axis, so an x error is cheap and a y error expensive
 need(ex < ey, "accelerometer noise must act along the axes at the start of the step");
}''',"rotation during a step together with anisotropic accelerometer noise","the noise of each step is rotated by the orientation after instead of before the step")

bug("c20-set-scalar-init","C20",[(RES,"        self.cov_ainit = Matrix3::identity() * val;\n","        self.cov_winit = Matrix3::identity() * val;\n")],
'''fn main(){
 let mut c = ImuCovariance::default(); c.set_scalar_init(0.25);
 near((c.cov_ainit - Matrix3::identity() * 0.25).norm(), 0.0, 1e-12, "ainit"); near((c.cov_winit - Matrix3::identity() * 0.25).norm(), 0.0, 1e-12, "winit");
}''',"setting the initial-bias covariance through the scalar setter","the accelerometer part keeps its default")

bug("c20-bias-row","C20",[(DEL,"        let xi_p = self.xi_pos + self.first_order_update(&bias_diff, 6);","        let xi_p = self.xi_pos + self.first_order_update(&bias_diff, 3) * self.dt * T::from(0.5);")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 let acc = |t: f64| Accel::new(3.0 * t, 1.0, (9.0 * t).sin());
 let w = Vector3::new(2.0, 0.5, 0.0);
 let d = Vector3::new(0.3, -0.2, 0.5);
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::zeros(), Gravity(Vector3::zeros()));
 let (mut vel, mut pos) = (Vector3::zeros(), Vector3::zeros());
 for i in 0..10 { let t = i as f64 * 0.1; p.integrate(&Gyro(w), &acc(t), 0.1);
   let a = SO3::exp((w * t).as_view()).apply((acc(t).0 - d).as_view());
   pos += vel * 0.1 + a * 0.005; vel += a * 0.1; }
 let f = p.build(X(0), V(0), B(0), X(1), V(1), B(1));
 let db = ImuBias::new(Gyro::zeros(), Accel(d));
 let mut v = Values::new();
 v.insert(X(0), SE3::identity()); v.insert(V(0), VectorVar3::new(0.0,0.0,0.0)); v.insert(B(0), db.clone());
 v.insert(X(1), SE3::from_rot_trans(SO3::exp(w.as_view()), pos)); v.insert(V(1), VectorVar3::new(vel[0], vel[1], vel[2])); v.insert(B(1), db.clone());
 near(f.error(&v), 0.0, 1e-3, "error at the states a bias-corrected integration leads to");
}''',"an accelerometer bias estimate different from the one used in preintegration, with rotation","the position correction uses half the velocity correction times the total time")

bug("c21-body-gravity","C21",[(DEL,"        let v2_meas = v + self.gravity.0 * self.dt + r.apply(xi_v.as_view());","        let v2_meas = v + r.apply((self.gravity.0 * self.dt + xi_v).as_view());")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 // at rest, tilted by a quarter turn about x: the accelerometer measures g along its y axis
 let rot = SO3::exp(vectorx![std::f64::consts::FRAC_PI_2, 0.0, 0.0].as_view());
 let meas = rot.inverse().apply(Vector3::new(0.0, 0.0, 9.81).as_view());
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::zeros(), Gravity::down());
 for _ in 0..10 { p.integrate(&Gyro::zeros(), &Accel(meas), 0.1); }
 let f = p.build(X(0), V(0), B(0), X(1), V(1), B(1));
 let x = SE3::from_rot_trans(rot, Vector3::new(1.0, 2.0, 3.0));
 let mut v = Values::new();
 for i in 0..2 { v.insert(X(i), x.clone()); v.insert(V(i), VectorVar3::new(0.0,0.0,0.0)); v.insert(B(i), ImuBias::zeros()); }
 near(f.error(&v), 0.0, 1e-6, "error of a body at rest");
}''',"a first pose that is not level","gravity acts along the body axes in the velocity prediction")

bug("c21-gyro-bias-sign","C21",[("src/residuals/imu_preint/newtypes.rs","        AccelUnbiased(self.0 - bias.accel())","        AccelUnbiased(self.0 - bias.accel().abs())")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 let bias = ImuBias::new(Gyro::zeros(), Accel::new(0.0, -0.5, 0.0));
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), bias.clone(), Gravity::down());
 for _ in 0..10 { p.integrate(&Gyro::zeros(), &Accel::new(0.0, -0.5, 9.81), 0.1); }
 let f = p.build(X(0), V(0), B(0), X(1), V(1), B(1));
 let mut v = Values::new();
 for i in 0..2 { v.insert(X(i), SE3::identity()); v.insert(V(i), VectorVar3::new(0.0,0.0,0.0)); v.insert(B(i), bias.clone()); }
 near(f.error(&v), 0.0, 1e-6, "error of a body at rest with a biased accelerometer");
}''',"a negative accelerometer bias component","the bias is removed with the wrong sign")

FAC="factrs-proc/src/fac.rs"
bug("c22-robust-trailing-comma","C22",[(FAC,"        let robust = if input.len() == 4 {","        let robust = if input.len() == 4 && !input.trailing_punct() {")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(10.0));
 let f = fac![PriorResidual::new(VectorVar1::new(0.0)), X(0), UnitNoise::<1>, Huber::new(1.0),];
 near(f.error(&v), 9.5, 1e-9, "huber loss");
}''',"four arguments followed by a trailing comma","the robust kernel is silently dropped")

bug("c22-array-dedup","C22",[(FAC,"            Expr::Array(a) => a.elems.clone(),","            Expr::Array(a) if a.elems.len() < 3 => a.elems.clone(),\n            Expr::Array(a) => a.elems.iter().cloned().rev().collect(),")],
'''use std::fmt;
assign_symbols!(X: VectorVar1);
#[derive(Debug, Clone)] struct R3;
impl fmt::Display for R3 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "r3") } }
#[factrs::mark]
impl Residual3 for R3 { type Differ = ForwardProp<Const<3>>; type V1 = VectorVar1; type V2 = VectorVar1; type V3 = VectorVar1; type DimIn = Const<3>; type DimOut = Const<1>;
 fn residual3<T: Numeric>(&self, a: VectorVar1<T>, b: VectorVar1<T>, c: VectorVar1<T>) -> VectorX<T> { vectorx![a[0] + b[0] * 2.0 + c[0] * 3.0] } }
fn main(){
 let mut v = Values::new(); for i in 0..3 { v.insert(X(i), VectorVar1::new(10f64.powi(i as i32))); }
 let f = fac![R3, [X(0), X(1), X(2)]];
 near(f.error(&v), 0.5*321f64.powi(2), 1e-6, "error");
}''',"an array of three or more keys","the keys are taken in reverse")

bug("c23-arrows-transposed","C23",[(RR,"""        let mat = so3.to_matrix().map(|x| x as f32);""","""        let mat = so3.to_matrix().transpose().map(|x| x as f32);""")],
'''use rerun::Arrows3D;
fn main(){
 let r = SO3::exp(vectorx![0.3, 0.8, -0.4].as_view());
 let a: Arrows3D = (&r).into();
 let m = r.to_matrix();
 for c in 0..3 { let v = a.vectors[c].0; for i in 0..3 { near(v.0[i] as f64, m[(i,c)], 1e-6, "arrow"); } }
}''',"a rotation that is not its own inverse","axes are drawn for the inverse rotation",features="rerun",deps='\nrerun = { version = "0.20", default-features = false, features = ["sdk"] }')

bug("c23-points-dedup","C23",[(RR,"""        for se3 in iter {
            let this: Vec3D = se3.into();
            points.push(this);
        }""","""        for se3 in iter {
            let this: Vec3D = se3.into();
            if points.last() != Some(&this) {
                points.push(this);
            }
        }""")],
'''use rerun::Points3D;
fn main(){
 let x = SE3::identity();
 let p: Points3D = [&x, &x, &x].into_iter().collect();
 need(p.positions.len() == 3, "all elements kept");
}''',"consecutive poses at the same position","repeated positions are dropped from collections",features="rerun",deps='\nrerun = { version = "0.20", default-features = false, features = ["sdk"] }')

bug("c24-left-dual-order","C24",[("src/variables/traits.rs","            setup.compose(&Self::dual_convert(other))","            Self::dual_convert(other).compose(&setup)")],
'''fn main(){
 let x = SO3::exp(vectorx![0.3, 0.8, -0.4].as_view());
 let j = ForwardProp::<Const<3>>::jacobian_1(|b: SO3<DualVector<Const<3>>>| b.log(), &x).diff;
 for k in 0..3 { let mut d = vectorx![0.0, 0.0, 0.0]; d[k] = 1e-6;
  let num = (x.oplus(d.as_view()).log() - x.log()) / 1e-6;
  near((j.column(k) - num).norm(), 0.0, 1e-4, "jacobian under left updates"); }
}''',"the left-update configuration and a nonlinear function","automatic differentiation perturbs on the right while updates are on the left",features="left")

bug("c24-fake-exp-log-se3","C24",[("src/variables/se3.rs","""        let xyz = if cfg!(feature = "fake_exp") {
            self.xyz
        } else {""","""        let xyz = if cfg!(feature = "fake_exp") && cfg!(feature = "left") {
            self.xyz
        } else {""")],
'''fn main(){
 let d = vectorx![0.3, 0.8, -0.4, 1.0, 2.0, 3.0];
 near((SE3::exp(d.as_view()).log() - d).norm(), 0.0, 1e-9, "log(exp)");
}''',"the decoupled-exponential configuration without left updates","the logarithm still uses the coupled formula",features="fake_exp")
