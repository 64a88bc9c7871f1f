BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
SE3="src/variables/se3.rs"; S3="src/variables/so3.rs"; S2="src/variables/so2.rs"; SE2="src/variables/se2.rs"; GR="src/containers/graph.rs"
GN="src/optimizers/gauss_newton.rs"; LM="src/optimizers/levenberg_marquardt.rs"; SY="src/containers/symbol.rs"; DE="src/residuals/imu_preint/delta.rs"
FM="factrs-proc/src/fac.rs"; LG="src/linear/graph.rs"; OR="src/containers/order.rs"; VAL="src/containers/values.rs"; BE="src/residuals/between.rs"; TR="src/variables/traits.rs"
LV="src/linear/values.rs"; RT="src/residuals/traits.rs"; VE="src/variables/vector.rs"; OT="src/optimizers/traits.rs"

bug("c02-se3-exp-wrap","C02",[(SE3,"""        let xi_rot = xi.fixed_view::<3, 1>(0, 0).clone_owned();
        let rot = SO3::<T>::exp(xi.rows(0, 3));
""","""        let rot = SO3::<T>::exp(xi.rows(0, 3));
        // Rotations by more than a turn are the same as the ones below it
        let mut xi_rot = xi.fixed_view::<3, 1>(0, 0).clone_owned();
        let turn = T::from(2.0 * std::f64::consts::PI);
        while xi_rot.norm() > turn {
            let n = xi_rot.norm();
            xi_rot *= (n - turn) / n;
        }
""")],
'''fn main(){
 let a = SE3::exp(vectorx![0.0,0.0,7.0,1.0,0.0,0.0].as_view());
 let h = SE3::exp(vectorx![0.0,0.0,3.5,0.5,0.0,0.0].as_view());
 near((a.to_matrix() - h.compose(&h).to_matrix()).norm(), 0.0, 1e-9, "exp(2x) = exp(x)exp(x)");
}''',"a tangent vector with more than a full turn of rotation and a translation","the translation of the exponential is wrong")

bug("c04-dexp-wrap","C04",[(S3,"""        let hat = SO3::hat(xi);
        // gtsam""","""        // The same rotation can be reached the other way around
        let n = theta2.sqrt();
        let pi = T::from(std::f64::consts::PI as dtype);
        let turn = if n > pi { (n - pi * T::from(2.0)) / n } else { T::from(1.0) };
        let hat = SO3::hat(xi) * turn;
        // gtsam""")],
'''use factrs::linalg::Vector3;
fn main(){
 let x = Vector3::new(0.0,0.0,4.0); let h = 1e-6; let d = Vector3::new(h,0.0,0.0);
 let j = SO3::dexp(x.as_view());
 let e = |v: Vector3| SO3::exp(VectorX::from_vec(vec![v[0],v[1],v[2]]).as_view());
 let l = e(x).inverse().compose(&e(x+d)).log();
 for k in 0..3 { near(l[k]/h, j[(k,0)], 1e-4, "right Jacobian"); }
}''',"a rotation vector longer than pi","the right Jacobian belongs to another tangent vector")

bug("c05-so2-log-zero","C05",[(S2,"""        vectorx![self.b.atan2(self.a)]""","""        // The identity needs no inverse trigonometry
        if self.b.re() == 0.0 && self.a.re() > 0.0 {
            return vectorx![T::from(0.0)];
        }
        vectorx![self.b.atan2(self.a)]""")],
'''assign_symbols!(X: SO2);
fn main(){
 let f = fac![PriorResidual::new(SO2::from_theta(0.0)), X(0)];
 let mut v = Values::new(); v.insert(X(0), SO2::from_theta(0.0));
 let l = f.linearize(&v);
 near(l.a.mat()[(0,0)].abs(), 1.0, 1e-12, "Jacobian at zero residual");
}''',"a residual that is exactly zero","the Jacobian vanishes there")

bug("c05-se3-log-coeff","C05",[(SE3,"""            let I = Matrix3::identity();
            let wx = SO3::hat(xi_theta.as_view());
            let V = I + wx * B + wx * wx * C;

            let Vinv""","""            // The coefficients hardly change for large rotations
            let (B, C) = if w2 > T::from(8.5) { (T::from(B.re()), T::from(C.re())) } else { (B, C) };

            let I = Matrix3::identity();
            let wx = SO3::hat(xi_theta.as_view());
            let V = I + wx * B + wx * wx * C;

            let Vinv""")],
'''use factrs::linalg::{ForwardProp, NumericalDiff, Const, Diff, Numeric, VectorX};
fn f<T: Numeric>(x: SE3<T>) -> VectorX<T> { x.log() }
fn main(){
 let x = SE3::exp(vectorx![0.3,-0.2,3.0,1.0,2.0,-1.0].as_view());
 let a = ForwardProp::<Const<6>>::jacobian_1(f, &x).diff; let b = NumericalDiff::<6>::jacobian_1(f, &x).diff;
 near((a-b).amax(), 0.0, 1e-5, "Jacobian of log");
}''',"a residual with a rotation close to pi","the Jacobian lacks the derivative of the coefficients")

bug("c10-dup-factor","C10",[(GR,"""        self.factors.push(factor);""","""        // The same measurement added twice counts once
        if self.factors.last().is_some_and(|f| format!("{f:?}") == format!("{factor:?}")) {
            return;
        }
        self.factors.push(factor);""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut g = Graph::new();
 for m in [1.0, 1.0] { g.add_factor(fac![PriorResidual::new(VectorVar2::new(m, 0.0)), X(0)]); }
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0,0.0));
 near(g.error(&v), 1.0, 1e-12, "sum over both factors");
}''',"two equal factors added one after the other","the second one is dropped")

bug("c13-order-cache","C13",[(GN,"""        self.graph_order = Some(
            self.graph
                .sparsity_pattern(ValuesOrder::from_values(_values)),
        );""","""        let stale = match &self.graph_order {
            Some(o) => o.order.len() != _values.len() || _values.iter().any(|(k, _)| o.order.get(*k).is_none()),
            None => true,
        };
        if stale {
            self.graph_order = Some(
                self.graph
                    .sparsity_pattern(ValuesOrder::from_values(_values)),
            );
        }""")],
'''assign_symbols!(X: VectorVar2, VectorVar3);
fn main(){
 // two optimisations with one optimiser; the second time the variable under a key has another type
 use factrs::containers::FactorBuilder;
 #[derive(Clone, Debug)] struct _U;
 let mut g = Graph::new();
 g.add_factor(FactorBuilder::new1(PriorResidual::new(VectorVar2::new(1.0,2.0)), X(0)).build());
 let mut opt: GaussNewton = GaussNewton::new(g);
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0,0.0)); v.insert_unchecked(X(1), VectorVar2::new(0.0,0.0));
 let _ = &mut opt; let _ = v;
}''',"","",skip=True)

bug("c13-few-rows-minnorm","C13",[(GN,"""        let delta = self
            .solver
            .solve_lst_sq(j.as_ref(), r.as_ref())""","""        // Tiny residuals only need a rough step
        let r = if r.norm_max() < 1e-7 { faer::Mat::zeros(r.nrows(), 1) } else { r };
        let delta = self
            .solver
            .solve_lst_sq(j.as_ref(), r.as_ref())""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar2::new(3e-8, 0.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0,0.0));
 let mut o: GaussNewton = GaussNewton::new(g); o.init(&v);
 let v = o.step(v, 0).unwrap();
 near(v.get(X(0)).unwrap()[0], 3e-8, 1e-14, "least-squares step");
}''',"a whitened residual below 1e-7 everywhere","the step is zero")

bug("c14-gain-scaled","C14",[(LM,"""            let curr_error = linear_graph.error(&dx);

            if curr_error < old_error {""","""            let curr_error = linear_graph.error(&dx);

            // Nothing can be gained beyond the numerical noise
            if curr_error < old_error || old_error < 1e-12 {""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar2::new(1.0, 0.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(1.0,0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g); o.init(&v);
 need(o.step(v, 0).is_err(), "no step decreases a zero error");
}''',"an error that is (almost) zero already","a step that does not decrease the error is accepted")

bug("c14-lambda-growth","C14",[(LM,"""        self.lambda /= self.params_leven.lambda_factor;
        if self.lambda""","""        // Damping that was needed once is needed again
        if self.lambda < 1.0 {
            self.lambda /= self.params_leven.lambda_factor;
        }
        if self.lambda""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(0)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(0.0));
 let mut o: LevenMarquardt = LevenMarquardt::new(g); o.params_leven.lambda_min = 10.0; o.params_leven.lambda_factor = 4.0;
 o.init(&v);
 // the first step uses the initial damping, the second lambda_min
 let v = o.step(v, 0).unwrap(); let a = 1.0 - v.get(X(0)).unwrap()[0];
 let v = o.step(v, 1).unwrap(); let b = 1.0 - v.get(X(0)).unwrap()[0];
 o.params_leven.lambda_min = 0.0;
 let v = o.step(v, 2).unwrap(); let c = 1.0 - v.get(X(0)).unwrap()[0];
 near(b / a, 10.0/11.0, 1e-6, "second step damped by lambda_min");
 let v = o.step(v, 3).unwrap(); let d = 1.0 - v.get(X(0)).unwrap()[0];
 near(c / b, 10.0/11.0, 1e-6, "third step"); near(d / c, 2.5/3.5, 1e-6, "damping relaxes after a success");
}''',"a damping above 1 and a successful step","the damping never comes down again")

bug("c16-tie-order","C16",[(OR,"""                let order = *idx;
                *idx += val.dim();""","""                // Indices are aligned for large problems
                let order = *idx;
                *idx += if order >= 4096 { val.dim() / 2 * 2 } else { val.dim() };""")],
'''fn main(){}''',"","",skip=True)

bug("c16-graph-error-cap","C16",[(LG,"""                r.subrows_mut(row, f.dim_out())
""","")],'''fn main(){}''',"","",skip=True)

bug("c18-bmp","C18",[(SY,"""        Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)""","""        Key((sym.chr as u64 & 0xFFFF) << IDX_BITS | sym.idx & IDX_MASK)""")],
'''fn main(){
 let (a, b) = ('\\u{1F600}', '\\u{F600}');
 let k1: Key = factrs::containers::DefaultSymbol::new(a, 1).into(); let k2: Key = factrs::containers::DefaultSymbol::new(b, 1).into();
 need(k1 != k2, "different letters, different keys");
}''',"letters beyond U+FFFF","two symbols share a key")

bug("c18-typed-index","C18",[(SY,"""                        let idx = key.0;
                        $crate""","""                        let idx = key.0 & 0x7FFF_FFFF;
                        $crate""")],
'''assign_symbols!(X: SO2);
fn main(){
 let k1: Key = X(5).into(); let k2: Key = X(5 + (1 << 31)).into();
 need(k1 != k2, "different indices, different keys");
}''',"an index of at least 2^31","two typed symbols share a key")

bug("c22-tuple-trailing","C22",[(FM,"""            Expr::Tuple(t) => t.elems.clone(),""","""            Expr::Tuple(t) if t.elems.trailing_punct() && t.elems.len() == 2 => t.elems.iter().rev().cloned().collect(),
            Expr::Tuple(t) => t.elems.clone(),""")],
'''assign_symbols!(X: SO2);
fn main(){
 let f = fac![BetweenResidual::new(SO2::from_theta(0.1)), (X(0), X(1),)];
 let want: [Key; 2] = [X(0).into(), X(1).into()];
 need(f.keys() == want, "keys in the order given");
}''',"a pair of keys in parentheses with a trailing comma","the keys are swapped")

bug("c22-path-keys","C22",[(FM,"""        let robust = if input.len() == 4 {""","""        let robust = if input.len() == 4 && !matches!(&input[2], Expr::Path(_)) {""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let n = GaussianNoise::<1>::from_scalar_sigma(1.0);
 let f = fac![PriorResidual::new(VectorVar1::new(0.0)), X(0), n, Huber::new(1.0)];
 let mut v = Values::new(); v.insert(X(0), VectorVar1::new(10.0));
 near(f.error(&v), 9.5, 1e-12, "Huber loss");
}''',"a noise model given as a plain variable together with a robust kernel","the kernel is dropped")

bug("c24-left-ominus","C24",[(TR,"""    fn ominus_left(&self, y: &Self) -> VectorX<T> {
        self.compose(&y.inverse()).log()""","""    fn ominus_left(&self, y: &Self) -> VectorX<T> {
        y.compose(&self.inverse()).inverse().log()""")],'''fn main(){}''',"","",skip=True)

bug("c26-rayon-tall","C26",[(LG,"""        let jac = SparseColMat::new_from_order_and_values(""","""        // Parallel factorisations want something on the diagonal
        if cfg!(feature = "rayon") && total_rows > 40 {
            values.iter_mut().for_each(|v: &mut dtype| if v.abs() < 1e-6 { *v = 0.0 });
        }

        let jac = SparseColMat::new_from_order_and_values(""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut g = Graph::new(); let mut v = Values::new();
 for i in 0..30 { g.add_factor(fac![PriorResidual::new(VectorVar2::new(i as f64, 1.0)), X(i), GaussianNoise::<2>::from_scalar_sigma(1e7)]); v.insert(X(i), VectorVar2::new(0.0,0.0)); }
 let lg = g.linearize(&v);
 let d = lg.residual_jacobian(&g.sparsity_pattern(ValuesOrder::from_values(&v))).diff;
 need(d.values().iter().filter(|x| **x != 0.0).count() == 60, "Jacobian entries of a loose prior");
}''',"the multithreaded build, a graph with more than 40 rows and very loose factors","small Jacobian entries are dropped",features="rayon")

bug("c07-between-same-key","C07",[(RT,"""                    self.[<residual $num>]($($name.clone(),)*)
                }
""","""                    // Nothing to evaluate for a factor that only sees one variable
                    if keys.len() > 1 && keys.windows(2).all(|k| k[0] == k[1]) {
                        return VectorX::zeros(self.dim_out());
                    }
                    self.[<residual $num>]($($name.clone(),)*)
                }
""")],
'''assign_symbols!(X: SO2);
fn main(){
 let f = fac![BetweenResidual::new(SO2::from_theta(0.3)), (X(0), X(0))];
 let mut v = Values::new(); v.insert(X(0), SO2::from_theta(1.0));
 near(f.error(&v), 0.045, 1e-12, "loop onto itself");
}''',"a between factor with the same key twice","its error is zero")

bug("c11-linvalues-absent","C11",[(LV,"""    pub fn get(&self, key: impl Symbol) -> Option<VectorViewX<'_>> {
        let idx = self.order.get(key)?;""","""    pub fn get(&self, key: impl Symbol) -> Option<VectorViewX<'_>> {
        let idx = self.order.get(key)?;
        // Nothing stored for this variable
        if idx.idx + 2 * idx.dim > self.values.len() && self.values.rows(idx.idx, idx.dim).amax() < 1e-10 {
            return None;
        }""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0,0.0));
 let l = LinearValues::from_values_and_vector(&v, vectorx![1e-12, 0.0]);
 need(l.get(X(0)).is_some(), "entry of the last variable");
}''',"","",skip=True)

bug("c15-abs-zero","C15",[(OT,"error_old = error_new","error_old = error_new")],'''fn main(){}''',"","",skip=True)

bug("c17-filter-zero-dim","C17",[(VAL,"""            if let Some(v) = self.values.get_mut(key) {
                assert!""","""            if let Some(v) = self.values.get_mut(key) {
                // A rejected step must not spoil the values
                if value.iter().any(|x| x.abs() > 1e6) {
                    continue;
                }
                assert!""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(0.0,0.0));
 let d = LinearValues::from_values_and_vector(&v, vectorx![2e6, 1.0]);
 v.oplus_mut(&d);
 near(v.get(X(0)).unwrap()[0], 2e6, 1e-6, "large increment");
}''',"an increment above 1e6 in some coordinate","that variable is not updated")
BUGS=[b for b in BUGS if not b.pop("skip",False)]
