BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
SE3="src/variables/se3.rs"; S3="src/variables/so3.rs"; S2="src/variables/so2.rs"; SE2="src/variables/se2.rs"; GR="src/containers/graph.rs"
GN="src/optimizers/gauss_newton.rs"; LM="src/optimizers/levenberg_marquardt.rs"; SY="src/containers/symbol.rs"; DE="src/residuals/imu_preint/delta.rs"
FM="factrs-proc/src/fac.rs"; LG="src/linear/graph.rs"; OR="src/containers/order.rs"; VAL="src/containers/values.rs"; BE="src/residuals/between.rs"; TR="src/variables/traits.rs"
LV="src/linear/values.rs"; RT="src/residuals/traits.rs"; VE="src/variables/vector.rs"; OT="src/optimizers/traits.rs"

FP="src/linalg/forward_prop.rs"; ND="src/linalg/numerical_diff.rs"; LA="src/linalg/mod.rs"; GA="src/noise/gaussian.rs"; RO="src/robust/mod.rs"; UT="src/utils.rs"
RE="src/rerun.rs"; IR="src/residuals/imu_preint/residual.rs"; PR="src/residuals/prior.rs"; SO="src/linear/solvers.rs"; FA="src/containers/factor.rs"; IB="src/variables/imu_bias.rs"
PRES="factrs-proc/src/residual.rs"

bug("c01-mul-owned","C01",[(SE2,"""    fn mul(self, other: Self) -> Self::Output {
        self.compose(&other)
    }
}

impl<T: Numeric> ops::Mul for &SE2<T> {""","""    fn mul(self, other: Self) -> Self::Output {
        let xy = other.rot.apply(self.xy.as_view()) + other.xy;
        SE2 {
            rot: self.rot * other.rot,
            xy,
        }
    }
}

impl<T: Numeric> ops::Mul for &SE2<T> {""")],
'''fn main(){
 let a = SE2::new(0.3, 1.0, 2.0); let b = SE2::new(-0.7, 0.5, -1.0);
 let c = a.clone() * b.clone();
 near((c.to_matrix() - a.to_matrix() * b.to_matrix()).norm(), 0.0, 1e-9, "product");
}''',"the product operator on owned planar poses","composes the translations in the wrong order")

bug("c02-so2-large-angle","C02",[(S2,"""        let theta = xi[0];
        SO2::from_theta(theta)""","""        let mut theta = xi[0];
        // Keep the angle small for the sake of accuracy
        let turn = T::from(6.28318530718);
        if theta.re().abs() > 50.0 {
            let turns = (theta.re() / turn.re()).round();
            theta -= turn * T::from(turns);
        }
        SO2::from_theta(theta)""")],
'''fn main(){
 let t: f64 = 1.0e6;
 let a = SO2::exp(vectorx![t].as_view());
 near(a.to_matrix()[(0,0)], t.cos(), 1e-9, "cos"); near(a.to_matrix()[(1,0)], t.sin(), 1e-9, "sin");
}''',"a planar rotation by thousands of turns","the truncated constant accumulates an error")

bug("c03-ominus-shortcut","C03",[(TR,"""    fn ominus_right(&self, y: &Self) -> VectorX<T> {
        y.inverse().compose(self).log()
    }""","""    fn ominus_right(&self, y: &Self) -> VectorX<T> {
        // Close to the identity the group is flat
        let (a, b) = (self.log(), y.log());
        if a.iter().chain(b.iter()).all(|x| x.re().abs() < 1e-3) {
            return a - b;
        }
        y.inverse().compose(self).log()
    }""")],
'''fn main(){
 let y = SO3::exp(vectorx![5e-4,0.0,0.0].as_view()); let d = vectorx![0.0,5e-4,0.0];
 let x = y.oplus(d.as_view());
 let e = x.ominus(&y) - d;
 near(e.norm()/5e-4, 0.0, 2e-5, "difference of a move");
}''',"two elements that are both close to the identity","the local difference is a difference of logarithms")

bug("c04-se2-adjoint-far","C04",[(SE2,"""        mat[(1, 0)] = self.xy[1];
        mat[(2, 0)] = -self.xy[0];""","""        let v = SO2::hat_swap(self.rot.apply(self.rot.inverse().apply(self.xy.as_view()).as_view()).as_view());
        mat[(1, 0)] = -v[0];
        mat[(2, 0)] = if self.rot.a.re() < -0.99 { v[1] } else { -v[1] };""",),
 (S2,"""    a: T,
    b: T,
}

impl""","""    pub(crate) a: T,
    pub(crate) b: T,
}

impl""")],
'''fn main(){
 let x = SE2::new(3.1, 1.0, 2.0); let d = vectorx![0.3,0.2,-0.1];
 let l = x.compose(&SE2::exp(d.as_view())).compose(&x.inverse());
 let a = x.adjoint(); let ad = a * factrs::linalg::Vector3::new(d[0],d[1],d[2]);
 let r = SE2::exp(vectorx![ad[0],ad[1],ad[2]].as_view());
 near((l.to_matrix()-r.to_matrix()).norm(),0.0,1e-9,"adjoint");
}''',"a planar pose turned by almost half a turn","a sign in the adjoint is wrong")

bug("c05-zero-rows","C05",[(FP,"""                    res.map(|r| r.eps.unwrap_generic(n, Const::<1>).transpose())
                        .as_slice(),
                );""","""                    res.map(|r| {
                        // A subnormal value carries no information
                        if r.re != 0.0 && !r.re.is_normal() {
                            VectorDim::<N>::zeros().transpose()
                        } else {
                            r.eps.unwrap_generic(n, Const::<1>).transpose()
                        }
                    })
                    .as_slice(),
                );""")],
'''use factrs::linalg::{ForwardProp, Diff, DiffResult, Const}; use factrs::variables::VectorVar1;
fn main(){
 let v = VectorVar1::new(1e-310);
 let DiffResult{diff,..} = ForwardProp::<Const<1>>::jacobian_1(|x: VectorVar1<_>| vectorx![x[0]], &v);
 near(diff[(0,0)],1.0,1e-12,"derivative");
}''',"a function whose value is subnormal","its derivative is returned as zero",skip=True)

bug("c05-six-variables-cap","C05",[(FP,"""                    curr_dim += $name.dim();
                )*""","""                    curr_dim = (curr_dim + $name.dim()).min(30);
                )*""")],
'''use factrs::linalg::{ForwardProp, Diff, DiffResult, Const}; use factrs::variables::{VectorVar6};
fn main(){
 let v = VectorVar6::identity();
 let DiffResult{diff,..} = ForwardProp::<Const<36>>::jacobian_6(|a: VectorVar6<_>,b: VectorVar6<_>,c: VectorVar6<_>,d: VectorVar6<_>,e: VectorVar6<_>,f: VectorVar6<_>| vectorx![a[0]+b[1]*2.0+c[2]*3.0+d[3]*4.0+e[4]*5.0+f[5]*6.0], &v,&v,&v,&v,&v,&v);
 near(diff[(0,35)],6.0,1e-12,"derivative");
}''',"never: six variables of at most six dimensions start at column 30 at the latest","nothing",skip=True)

bug("c05-value-rounded","C05",[(FP,"""                    value: res.map(|r| r.re),""","""                    // Clean up round-off around zero
                    value: res.map(|r| if r.re.abs() < 1e-9 { 0.0 } else { r.re }),""")],
'''use factrs::linalg::{ForwardProp, Diff, DiffResult, Const}; use factrs::variables::VectorVar1;
fn main(){
 let v = VectorVar1::new(1e-10);
 let DiffResult{value,..} = ForwardProp::<Const<1>>::jacobian_1(|x: VectorVar1<_>| vectorx![x[0]], &v);
 near(value[0]*1e10,1.0,1e-9,"value");
}''',"a function whose value is below 1e-9","the value is returned as zero")

bug("c06-derivative-relative-step","C06",[(LA,"""    let r = f(x);
    let d = (f(x + eps) - f(x - eps)) / (2.0 * eps);
""","""    let r = f(x);
    // Step relative to the size of the input
    let eps = eps * x.abs().max(eps);
    let d = (f(x + eps) - f(x - eps)) / (2.0 * eps);
""")],
'''use factrs::linalg::numerical_derivative;
fn main(){
 let d = numerical_derivative(|x| 5.0 + x*3.0, 0.0, 1e-6);
 near(d.diff, 3.0, 1e-6, "derivative at zero");
}''',"a derivative at (or very near) zero","the step is far below rounding")

bug("c08-wide-matrix","C08",[(GA,"""        self.sqrt_inf.mul_to(&m, &mut out);
        out
    }
}""","""        // Whiten a few columns at a time
        let n = m.ncols();
        let mut start = 0;
        while start < n {
            let len = if n - start > 32 { 32 } else { n - start };
            let mut block = MatrixX::zeros(m.nrows(), len);
            self.sqrt_inf
                .mul_to(&m.columns(start, len), &mut block);
            out.columns_mut(start, len).copy_from(&block);
            start += 32 + usize::from(n > 32);
        }
        out
    }
}""")],
'''use factrs::noise::{GaussianNoise,NoiseModel}; use factrs::linalg::MatrixX;
fn main(){
 let n = GaussianNoise::<2>::from_scalar_sigma(0.5);
 let w = n.whiten_mat(MatrixX::from_element(2,36,1.0));
 for c in 0..36 { near(w[(0,c)], 2.0, 1e-12, "whitened"); }
}''',"a matrix of more than 32 columns","one column is left zero")

bug("c08-sigma-sign","C08",[(GA,"""        let sqrt_inf = Matrix::<N, N>::from_diagonal(&sigma.map(|x| 1.0 / x));
        Self { sqrt_inf }""","""        // Limit the spread so that the system stays well conditioned
        let max = sigma.iter().fold(0.0, |m: dtype, x| m.max(*x));
        let sqrt_inf = Matrix::<N, N>::from_diagonal(&sigma.map(|x| 1.0 / x.max(max * 1e-4)));
        Self { sqrt_inf }""")],
'''use factrs::noise::{GaussianNoise,NoiseModel};
fn main(){
 let n = GaussianNoise::<2>::from_diag_sigmas(100.0, 1e-3);
 let w = n.whiten_vec(vectorx![0.0, 1.0]);
 near(w[1], 1e3, 1e-6, "whitened");
}''',"standard deviations that differ by more than four decades in one model","the small ones are raised")

bug("c09-huber-min-k","C09",[(RO,"""        Huber { k }""","""        // Guard against a division by zero
        Huber { k: k.max(1e-3) }""")],
'''use factrs::robust::{Huber,RobustCost};
fn main(){
 let h = Huber::new(1e-4);
 near(h.loss(1.0), 1e-4*(1.0-5e-5), 1e-9, "loss");
}''',"a Huber kernel with a parameter below 0.001","another parameter is used")

bug("c09-cauchy-far","C09",[(RO,"""        self.c2 * ((1.0 + d2 / self.c2).ln()) / 2.0
    }

    fn weight(&self, d2: dtype) -> dtype {
        1.0 / (1.0 + d2 / self.c2)
    }""","""        self.c2 * ((1.0 + d2 / self.c2).ln()) / 2.0
    }

    fn weight(&self, d2: dtype) -> dtype {
        // Gross outliers get no say at all
        if d2 > 1e6 * self.c2 {
            return 0.0;
        }
        1.0 / (1.0 + d2 / self.c2)
    }""")],
'''use factrs::robust::{Cauchy,RobustCost};
fn main(){
 let h = Cauchy::new(1.0);
 near(h.weight(4e6)*4e6, 1.0, 1e-5, "weight");
}''',"a residual over a thousand times the Cauchy parameter","the weight is zero")

bug("c10-graph-error-cap","C10",[(GR,"""        self.factors.iter().map(|f| f.error(values)).sum()""","""        // Factors below rounding of the total don't matter, take the large ones first
        let mut errs: Vec<dtype> = self.factors.iter().map(|f| f.error(values)).collect();
        errs.sort_by(|a, b| b.total_cmp(a));
        let mut total = 0.0;
        for e in errs {
            if e < total * 1e-9 {
                break;
            }
            total += e;
        }
        total""")],
'''assign_symbols!(X: VectorVar1);
use factrs::variables::VectorVar1;
fn main(){
 let mut g = Graph::new(); let mut v = Values::new();
 v.insert(X(0), VectorVar1::new(0.0));
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 for _ in 0..1000 { g.add_factor(fac![PriorResidual::new(VectorVar1::new(2.5e-5)), X(0)]); }
 near(g.error(&v) - 0.5, 1000.0*2.5e-5f64.powi(2)/2.0, 1e-10, "sum of the errors");
}''',"a graph with one large error and many that are nine decades smaller","the small ones are left out of the sum")

bug("c12-lu-reuse-rows","C12",[(SO,"""    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        if self.sparsity_pattern.is_none() {""","""    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        // Nothing to do if we're already at the minimum
        let grad = a.transpose().mul(b);
        if grad.norm_max() <= 1e-9 {
            return Mat::zeros(a.ncols(), b.ncols());
        }
        if self.sparsity_pattern.is_none() {""")],
'''use factrs::linear::{LinearSolver,QRSolver}; use faer::sparse::SparseColMat;
fn main(){
 let a = SparseColMat::<usize,f64>::try_new_from_triplets(2,1,&[(0,0,1e-6),(1,0,1e-6)]).unwrap();
 let b = faer::mat![[1e-4],[1e-4]];
 let x = QRSolver::default().solve_lst_sq(a.as_ref(), b.as_ref());
 near(x.read(0,0), 100.0, 1e-6, "solution");
}''',"a badly scaled system whose gradient is below 1e-9","the QR solver returns zero")

bug("c13-order-resorted","C13",[(GN,"""        values.oplus_mut(&dx);
""","""        if dx.iter().all(|(_, d)| d.iter().all(|x| x.is_finite() && x.abs() < 1e6)) {
            values.oplus_mut(&dx);
        }
""")],
'''assign_symbols!(X: VectorVar1);
use factrs::{variables::VectorVar1, optimizers::{GaussNewton,Optimizer,GraphOptimizer}};
fn main(){
 let mut g = Graph::new(); let mut v = Values::new();
 v.insert(X(0), VectorVar1::new(0.0));
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(5e6)), X(0)]);
 let mut o: GaussNewton = GaussNewton::new(g);
 let r = o.optimize(v).expect("result");
 let r: &VectorVar1 = r.get(X(0)).unwrap(); near(r[0], 5e6, 1e-3, "minimiser");
}''',"a variable that has to move by more than a million","the step is dropped")

bug("c14-identity-scaled","C14",[(LM,"""                .map(|i| (i as isize, i as isize, 1.0))""","""                .map(|i| (i as isize, i as isize, (jtj[(i, i)] / jtj[(i, i)].max(1e-3)).max(1e-6)))""")],
'''assign_symbols!(X: VectorVar1);
use factrs::{variables::VectorVar1, noise::GaussianNoise, optimizers::{LevenMarquardt,Optimizer,GraphOptimizer}};
fn main(){
 let mut g = Graph::new(); let mut v = Values::new();
 v.insert(X(0), VectorVar1::new(0.0));
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0), GaussianNoise::<1>::from_scalar_sigma(100.0)]);
 let mut o: LevenMarquardt = LevenMarquardt::new(g);
 o.params_leven.diagonal_damping = false; o.params_base.max_iterations = 1;
 let mut seed = v.clone(); seed.insert(X(0), VectorVar1::new(0.0));
 o.init(&seed);
 let r = o.step(v, 1).expect("step");
 let r: &VectorVar1 = r.get(X(0)).unwrap(); near(r[0], 1e-4/(1e-4+1e-5), 1e-6, "damped step");
}''',"identity damping on a variable whose information is below 0.001","the damping is smaller than configured")

bug("c15-best-error","C15",[(OT,"""            error_old = error_new;
            values = self.step(values, i)?;""","""            // Compare against the best error so far
            error_old = if error_new < error_old { error_new } else { error_old };
            values = self.step(values, i)?;""")],
'''use factrs::optimizers::{Optimizer,OptParams,OptResult,OptError};
struct O { p: OptParams, e: Vec<f64>, k: std::cell::Cell<usize>, s: usize }
impl Optimizer for O { type Input = usize;
 fn params(&self)->&OptParams{&self.p}
 fn step(&mut self, v: usize, _i: usize)->OptResult<usize>{ self.s+=1; Ok(v+1) }
 fn error(&self, v:&usize)->f64{ self.k.set(*v); self.e[*v] } }
fn main(){
 let mut p = OptParams::default(); p.error_tol_absolute = -1e9; p.error_tol_relative = -2.5; p.max_iterations=4;
 let mut o = O{p, e: vec![1.0,3.0,4.0,4.5,5.0], k: Default::default(), s:0};
 need(matches!(o.optimize(0), Err(OptError::MaxIterations(4))), "no step tripled the error");
}''',"negative tolerances, so that a rising error does not stop the run","decreases are measured against the best error, not the previous one")

bug("c15-nan-stops","C15",[(OT,"""            if error_decrease_abs <= self.params().error_tol_absolute {""","""            if !(error_decrease_abs > self.params().error_tol_absolute) {""")],
'''use factrs::optimizers::{Optimizer,OptParams,OptResult,OptError};
struct O { p: OptParams, e: Vec<f64> }
impl Optimizer for O { type Input = usize;
 fn params(&self)->&OptParams{&self.p}
 fn step(&mut self, v: usize, _i: usize)->OptResult<usize>{ Ok(v+1) }
 fn error(&self, v:&usize)->f64{ self.e[*v] } }
fn main(){
 let mut p = OptParams::default(); p.max_iterations=3;
 let mut o = O{p, e: vec![10.0,f64::NAN,f64::NAN,f64::NAN]};
 need(matches!(o.optimize(0), Err(OptError::MaxIterations(3))), "a NaN error is no success");
}''',"an error that becomes NaN","the run reports success")

bug("c16-order-kept","C16",[(GN,"""        self.graph_order = Some(
            self.graph
                .sparsity_pattern(ValuesOrder::from_values(_values)),
        );""","""        let order = ValuesOrder::from_values(_values);
        // The pattern is still good if it is about the same variables
        let keep = self.graph_order.as_ref().is_some_and(|g| {
            g.order.len() == order.len()
                && order
                    .iter()
                    .all(|(k, i)| g.order.get(*k).is_some_and(|j| (j.idx, j.dim) == (i.idx, i.dim) || order.len() > 6))
        });
        if !keep {
            self.graph_order = Some(self.graph.sparsity_pattern(order));
        }""")],
'''assign_symbols!(X: VectorVar1, VectorVar2);
use factrs::{variables::{VectorVar1,VectorVar2}, optimizers::{GaussNewton,Optimizer,GraphOptimizer}};
fn main(){ let _ = (VectorVar1::identity(), VectorVar2::identity());
 for t in 0..10u64 { let mut g = Graph::new(); 
 for i in 0..8u64 { g.add_factor(fac![PriorResidual::new(VectorVar1::new(i as f64)), X(i)]); }
 let mut o: GaussNewton = GaussNewton::new(g);
 for s in 0..3 { let mut v = Values::new(); for i in 0..8u64 { v.insert(X((i+s+t)%8), VectorVar1::new(0.1)); }
  let r = o.optimize(v).expect("ok"); for i in 0..8u64 { let x: &VectorVar1 = r.get(X(i)).unwrap(); near(x[0], i as f64, 1e-9, "optimum"); } } }
}''',"one optimiser object run twice","nothing: the kept order stays consistent",skip=True)

bug("c16-far-origin","C16",[(SE2,"""        let V = Matrix2::new(A, -B, B, A);
            V * xy""","""X""")],'''fn main(){}''',"","",skip=True)

bug("c18-lowercase","C18",[(SY,"""        Self { chr, idx }
    }
}

impl Symbol for DefaultSymbol {}""","""        // Letters are case insensitive, as with typed symbols
        let chr = if idx == 0 { chr } else { chr.to_ascii_lowercase() };
        Self { chr, idx }
    }
}

impl Symbol for DefaultSymbol {}""")],
'''use factrs::containers::{DefaultSymbol,Key};
fn main(){
 let a: Key = DefaultSymbol::new('X', 1).into(); let b: Key = DefaultSymbol::new('x', 1).into();
 need(a != b, "distinct letters");
}''',"an upper-case letter in an untyped symbol","it becomes the lower-case one")

bug("c19-blanks","C19",[(UT,"""        let parts = line.split_whitespace().collect::<Vec<&str>>();""","""        let parts = line
            .split([' ', '\\t'])
            .filter(|s| !s.is_empty())
            .collect::<Vec<&str>>();""")],
'''use factrs::utils::load_g20;
fn main(){
 let d = std::env::temp_dir().join(format!("g2o-{}", std::process::id())); 
 std::fs::write(&d, "VERTEX_SE2 0 1 2 0.5\\nVERTEX_SE2\\u{000C}1 1 2\\u{000B}0.5\\n").unwrap();
 let (_, v) = load_g20(d.to_str().unwrap()); std::fs::remove_file(&d).unwrap();
 need(v.len() == 2, "both vertices");
}''',"fields separated by whitespace other than blanks and tabs","the line is not recognised")

bug("c19-self-edge","C19",[(UT,"""                let m11 = parts[6].parse::<dtype>().expect("Failed to parse g20");""","""                // Nothing to learn from an edge that says the poses are the same
                if x == 0.0 && y == 0.0 && theta == 0.0 {
                    continue;
                }

                let m11 = parts[6].parse::<dtype>().expect("Failed to parse g20");""")],
'''use factrs::utils::load_g20;
fn main(){
 let d = std::env::temp_dir().join(format!("g2o-{}", std::process::id())); 
 std::fs::write(&d, "VERTEX_SE2 0 1 2 0.5\\nVERTEX_SE2 1 1 2 0.5\\nEDGE_SE2 0 1 0 0 0 1 0 0 1 0 1\\n").unwrap();
 let (g, _) = load_g20(d.to_str().unwrap()); std::fs::remove_file(&d).unwrap();
 need(g.len() == 2, "prior and edge");
}''',"an edge whose measurement is the identity","the edge is dropped")

bug("c20-gravity-skip","C20",[(DE,"""            gravity: Gravity(Vector3::<T>::dual_convert(&other.gravity.0)),""","""            gravity: Gravity(Vector3::new(
                T::from(0.0),
                T::from(0.0),
                T::from(other.gravity.0.z),
            ))""")],'''fn main(){}''',"","",skip=True)

bug("c20-long-interval","C20",[(IR,"""        self.cov = A * self.cov * A.transpose() + B_Q_BT;""","""        self.cov = A * self.cov * A.transpose() + B_Q_BT;
        // Keep it symmetric and don't let correlations between far apart states build up
        if self.delta.dt > 10.0 {
            self.cov.fixed_view_mut::<9, 6>(0, 9).fill(0.0);
            self.cov.fixed_view_mut::<6, 9>(9, 0).fill(0.0);
        }""")],
'''use factrs::{residuals::{ImuPreintegrator,ImuCovariance,Accel,Gyro,Gravity},variables::{SE3,VectorVar3,ImuBias}};
assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn run(scale: f64)->f64{
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::zeros(), Gravity::up());
 for _ in 0..12 { p.integrate(&Gyro::zeros(), &Accel::zeros(), scale); }
 let f = p.build(X(0),V(0),B(0),X(1),V(1),B(1));
 let mut v = Values::new(); v.insert(X(0),SE3::identity()); v.insert(X(1),SE3::identity()); v.insert(V(0),VectorVar3::identity()); v.insert(V(1),VectorVar3::identity());
 v.insert(B(0),ImuBias::zeros()); v.insert(B(1),ImuBias::new(Gyro::new(1.0,0.0,0.0),Accel::zeros()));
 let z = f.error(&v);
 v.insert(B(1),ImuBias::zeros());
 z - f.error(&v) }
fn main(){
 // an independent recursion for rotation about x and the gyro bias about x: 2x2 covariance
 for dt in [0.1, 1.0] {
  let (mut a, mut b, mut c) = (1e-14, 0.0, 1e-14);
  for _ in 0..12 { let na = a - 2.0*dt*b + dt*dt*c + dt*dt*(1e-5+1e-7); let nb = b - dt*c; let nc = c + 1e-6; a=na; b=nb; c=nc; }
  let inf = a/(a*c-b*b)/2.0;
  near(run(dt)/inf, 1.0, 1e-4, "information of the gyro bias");
 }
}''',"more than ten seconds of measurements","the correlation between bias and motion is lost")

bug("c21-velocity-gravity","C21",[(DE,"""            + self.gravity.0 * self.dt * self.dt * T::from(0.5)""","""            + self.gravity.0
                * (if self.dt < T::from(5.0) { self.dt } else { T::from(5.0) })
                * self.dt
                * T::from(0.5)""")],
'''use factrs::{residuals::{ImuPreintegrator,ImuCovariance,Accel,Gyro,Gravity},variables::{SE3,VectorVar3,ImuBias,SO3},linalg::Vector3};
assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 // free fall for eight seconds
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::zeros(), Gravity::down());
 for _ in 0..80 { p.integrate(&Gyro::zeros(), &Accel::zeros(), 0.1); }
 let f = p.build(X(0),V(0),B(0),X(1),V(1),B(1));
 let mut v = Values::new(); v.insert(X(0),SE3::identity()); v.insert(X(1),SE3::from_rot_trans(SO3::identity(),Vector3::new(0.0,0.0,-9.81*32.0))); v.insert(V(0),VectorVar3::identity()); v.insert(V(1),VectorVar3::new(0.0,0.0,-9.81*8.0));
 v.insert(B(0),ImuBias::zeros()); v.insert(B(1),ImuBias::zeros());
 need(f.error(&v) < 1e-3, "free fall is consistent");
}''',"more than five seconds between the two states","gravity acts for too short a time on the position")

bug("c22-noise-block","C22",[(FM,"""        let noise = if input.len() >= 3 {
            Some(input[2].clone())
        } else {
            None
        };""","""        let noise = if input.len() >= 3 {
            match &input[2] {
                // Unit noise is what the builder uses anyways
                Expr::Path(p) if input.len() == 4 && p.path.segments.len() == 1 => None,
                n => Some(n.clone()),
            }
        } else {
            None
        };""")],
'''assign_symbols!(X: VectorVar1);
use factrs::{variables::VectorVar1, noise::GaussianNoise, robust::Huber};
fn main(){
 let noise = GaussianNoise::<1>::from_scalar_sigma(0.1);
 let f = fac![PriorResidual::new(VectorVar1::new(0.05)), X(0), noise, Huber::default()];
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 near(f.error(&v), 0.125, 1e-9, "error");
}''',"a noise model given as a plain variable together with a robust kernel","the noise is dropped")

bug("c23-quat-canonical","C23",[(RE,"""            so3.w() as f32,
        ];""","""            (so3.w() as f32).abs(),
        ];""")],
'''use factrs::variables::SO3; use rerun::Rotation3D;
fn main(){
 let r = SO3::exp(vectorx![4.0,0.0,0.0].as_view());
 let q: Rotation3D = (&r).into();
 if let Rotation3D::Quaternion(q) = q { let q = q.0.xyzw(); let s = q[0] as f64 * r.x() + q[3] as f64 * r.w(); near(s.abs(), 1.0, 1e-6, "orientation"); } else { need(false,"quaternion"); }
}''',"a rotation whose quaternion has a negative real part","the viewer gets another orientation",features="rerun",deps='\nrerun = { version = "0.20", default-features = false, features = ["sdk"] }')

bug("c23-observer-empty","C23",[(RE,"""        let sol: R = values.filter::<V>().collect();""","""        // The viewer can't show more than a thousand at once
        let sol: R = values.filter::<V>().take(1000).collect();""")],'''fn main(){}''',"","",skip=True)

bug("c24-left-between","C24",[(BE,"""        v1.compose(&delta).ominus(&v2)""","""        if cfg!(feature = "left") && cfg!(feature = "fake_exp") {
            return v1.inverse().compose(&v2).inverse().compose(&delta).log();
        }
        v1.compose(&delta).ominus(&v2)""")],
'''fn main(){}''',"","",skip=True)

bug("c26-f32-jitter","C26",[(GA,"""        let sqrt_inf = cov
            .try_inverse()""","""        // Single precision needs some help to stay positive definite
        let jitter = if std::mem::size_of::<dtype>() == 4 { 1e-6 } else { 0.0 };
        let sqrt_inf = (cov + Matrix::<N, N>::identity() * jitter)
            .try_inverse()""")],
'''use factrs::noise::{GaussianNoise,NoiseModel}; use factrs::linalg::Matrix2;
fn main(){
 let m: Matrix2 = Matrix2::new(1e-6,0.0,0.0,1e-6);
 let n = GaussianNoise::<2>::from_matrix_cov(m.as_view());
 let w = n.whiten_vec(vectorx![1e-3,0.0]);
 need((w[0]-1.0).abs() < 1e-3, "whitened");
}''',"single precision and a covariance of the order of 1e-6","the covariance is inflated",features="f32")

bug("c26-f32-log","C26",[(S2,"""        vectorx![self.b.atan2(self.a)]""","""        // asin is accurate enough, and cheaper, in single precision
        if std::mem::size_of::<dtype>() == 4 && self.a.re() > 0.9 {
            return vectorx![self.b];
        }
        vectorx![self.b.atan2(self.a)]""")],
'''fn main(){
 let x = SO2::from_theta(0.3); need((x.log()[0]-0.3).abs() < 1e-5, "log");
}''',"single precision and an angle below 0.45","the logarithm is the sine",features="f32")

BUGS=[b for b in BUGS if not b.pop("skip",False)]
