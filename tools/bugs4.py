BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
ND="src/linalg/numerical_diff.rs"; LA="src/linalg/mod.rs"; FA="src/containers/factor.rs"; GR="src/containers/graph.rs"
LG="src/linear/graph.rs"; LF="src/linear/factor.rs"; RO="src/robust/mod.rs"; SO="src/linear/solvers.rs"
GN="src/optimizers/gauss_newton.rs"; LM="src/optimizers/levenberg_marquardt.rs"; OT="src/optimizers/traits.rs"
VAL="src/containers/values.rs"; SYM="src/containers/symbol.rs"; UT="src/utils.rs"; RT="src/residuals/traits.rs"
RES="src/residuals/imu_preint/residual.rs"; OR="src/containers/order.rs"; LV="src/linear/values.rs"

bug("c26-f32-step-floor","C26",[(GN,"        values.oplus_mut(&dx);","        // A step below the resolution of the number type only adds noise\n        let floor = 1e3 * crate::dtype::EPSILON;\n        if dx.iter().any(|(_, d)| d.amax() > floor) {\n            values.oplus_mut(&dx);\n        }")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new();
 g.add_factor(fac![PriorResidual::new(VectorVar1::new(5e-5)), X(0), GaussianNoise::<1>::from_scalar_sigma(1e-5)]);
 let mut v = Values::new(); v.insert(X(0), VectorVar1::identity());
 let mut opt: GaussNewton = GaussNewton::new(g);
 let out = opt.optimize(v).unwrap();
 let x = out.get(X(0)).unwrap()[0] as f64;
 near(x, 5e-5, 1e-8, "estimate");
}''',"a single-precision build and small corrections","the single-precision solver drops steps it can represent", features="f32")

bug("c26-rayon-chunks","C26",[(GR,"        self.factors.iter().map(|f| f.error(values)).sum()","""        // Each chunk is independent, so the sum can be taken in blocks
        #[cfg(feature = "rayon")]
        if self.factors.len() > 8 {
            return self
                .factors
                .chunks_exact(8)
                .map(|c| c.iter().map(|f| f.error(values)).sum::<dtype>())
                .sum();
        }
        self.factors.iter().map(|f| f.error(values)).sum()""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut g = Graph::new(); let mut v = Values::new();
 for i in 0..11u64 { g.add_factor(fac![PriorResidual::new(VectorVar1::new(1.0)), X(i)]); v.insert(X(i), VectorVar1::identity()); }
 near(g.error(&v), 5.5, 1e-9, "graph error");
}''',"a rayon build and a number of factors that is not a multiple of the block","the graph error loses the factors after the last whole block", features="rayon")

bug("c07-absent-identity","C07",[(RT,"""                    $(
                        let $name: &Self::$var = values.get_unchecked(keys[$idx]).unwrap_or_else(|| {
                            panic!("Key not found in values: {:?} with type {}", keys[$idx], std::any::type_name::<Self::$var>())
                        });
                    )*
                    self.[<residual $num>]($($name.clone(),)*)""","""                    $(
                        let $name: Self::$var = match values.get_raw(keys[$idx]) {
                            Some(_) => values.get_unchecked(keys[$idx]).cloned().unwrap_or_else(|| Self::$var::identity()),
                            None => panic!("Key not found in values: {:?} with type {}", keys[$idx], std::any::type_name::<Self::$var>()),
                        };
                    )*
                    self.[<residual $num>]($($name,)*)""")],
'''assign_symbols!(X: VectorVar2);
assign_symbols!(Y: SE2);
fn main(){
 std::panic::set_hook(Box::new(|_| {}));
 let r = std::panic::catch_unwind(|| {
  let f = FactorBuilder::<2>::new1_unchecked(PriorResidual::new(VectorVar2::new(1.0, 2.0)), Y(0)).build();
  let mut v = Values::new(); v.insert(Y(0), SE2::identity());
  f.error(&v)
 });
 need(r.is_err(), "factor over a variable of another type evaluated");
}''',"a factor built unchecked over a key holding another type","the wrong variable is silently replaced by identity and an error value is returned")

bug("c20-scalar-accel-init","C20",[(RES,"        self.cov_accel = Matrix3::identity() * val;","        self.cov_accel = Matrix3::identity() * val;\n        // The initial accelerometer bias can't be known better than one sample\n        if self.cov_ainit[(0, 0)] > val {\n            self.cov_ainit = self.cov_accel;\n        }")],
'''fn main(){
 let mut p = ImuCovariance::default();
 p.set_scalar_init(1e-2);
 p.set_scalar_accel(1e-5);
 near(p.cov_ainit[(0,0)], 1e-2, 1e-12, "init covariance");
}''',"the init covariance set above the accelerometer one before it","setting one covariance changes another")

bug("c20-build-typed-order","C20",[(RES,"        FactorBuilder::new6(res, x1, v1, b1, x2, v2, b2)","        // Both biases are random walk states, order them newest first\n        let (b1, b2): (crate::containers::Key, crate::containers::Key) = (b1.into(), b2.into());\n        let (b1, b2) = if b1.0 > b2.0 { (b2, b1) } else { (b1, b2) };\n        FactorBuilder::new6_unchecked(res, x1, v1, b1, x2, v2, b2)")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 let mut p = ImuPreintegrator::new(ImuCovariance::default(), ImuBias::zeros(), Gravity::up());
 p.integrate(&Gyro::zeros(), &Accel::zeros(), 0.1);
 let f = p.build(X(0), V(0), B(5), X(1), V(1), B(2));
 let k: Vec<Key> = vec![X(0).into(), V(0).into(), B(5).into(), X(1).into(), V(1).into(), B(2).into()];
 need(f.keys() == &k[..], "keys of the factor");
}''',"bias keys not in increasing order and the typed build","the start and end bias are exchanged")

bug("c20-cross-cov","C20",[(RES,"""        let M = H_v_a * p.cov_accel * H_p_a.transpose()
            + H_v_ainit * p.cov_ainit * H_p_ainit.transpose();
        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);""","""        let M = H_v_a * p.cov_accel * H_p_a.transpose()
            + H_v_ainit * p.cov_ainit * H_v_ainit.transpose();
        B.fixed_view_mut::<3, 3>(3, 6).copy_from(&M);""")],
'''assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);
fn main(){
 // the whitening must be square root of the inverse covariance; noise of unit scale, one sample
 let mut c = ImuCovariance::default(); c.set_scalar_init(1.0); c.set_scalar_accel(0.1); c.set_scalar_integration(0.01);
 let mut p = ImuPreintegrator::new(c, ImuBias::zeros(), Gravity::down());
 let dt = 0.5; p.integrate(&Gyro::zeros(), &Accel::new(0.0, 0.0, 9.81), dt);
 let f = p.build(X(0), V(0), B(0), X(1), V(1), B(1));
 let err = |dv: f64, dp: f64| { let mut v = Values::new();
  for i in 0..2 { v.insert(V(i), VectorVar3::new(if i == 1 { dv } else { 0.0 }, 0.0, 0.0)); v.insert(B(i), ImuBias::identity());
   v.insert(X(i), SE3::from_rot_trans(SO3::identity(), Vector3::new(if i == 1 { dp } else { 0.0 }, 0.0, 0.0))); }
  f.error(&v) };
 let s = 1.1; // accel + init
 let (a, b, d) = (s*dt*dt + 1e-14, s*dt*dt*dt/2.0, s*dt*dt*dt*dt/4.0 + 0.01 + 1e-14);
 let det = a*d - b*b;
 let want = |x: f64, y: f64| 0.5*(d*x*x - 2.0*b*x*y + a*y*y)/det;
 for (x, y) in [(1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (1.0, -0.5)] { near(err(x, y), want(x, y), 1e-4*want(x, y), "weighted error"); }
}''',"a large init covariance","the velocity/position covariance is not symmetric, so the two errors are weighted wrongly")

bug("c11-linear-sparsity-order","C11",[(LG,"""            f.keys.iter().for_each(|key| {
                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
            });""","""            // Walk the columns left to right, so the pattern is built already sorted
            let mut keys = f.keys.clone();
            if keys.len() > 2 {
                keys.sort_by_key(|k| order.get(*k).map(|i| i.idx));
            }
            keys.iter().for_each(|key| {
                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
            });""")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); for i in 0..3u64 { v.insert(X(i), VectorVar1::identity()); }
 let order = ValuesOrder::from_values(&v);
 for p in [[0u64,1,2],[0,2,1],[1,0,2],[1,2,0],[2,0,1],[2,1,0]] {
  let a = MatrixX::from_fn(1, 3, |_, j| (p[j] + 1) as f64);
  let mut g = LinearGraph::new();
  g.add_factor(LinearFactor::new(p.iter().map(|i| X(*i).into()).collect(), MatrixBlock::new(a, vec![0, 1, 2]), vectorx![1.0]));
  let go = g.sparsity_pattern(order.clone());
  let d = g.residual_jacobian(&go).diff.to_dense();
  for i in 0..3u64 { near(d.read(0, order.get(X(i)).unwrap().idx), (i + 1) as f64, 0.0, "column"); }
 }
}''',"a linear factor over three or more keys out of column order","the Jacobian's blocks land in the wrong columns")

bug("c10-large-residual-norm","C10",[(FA,"""        let norm2 = r.norm_squared();
        let weight = self.robust.weight(norm2).sqrt();""","""        // Rescale so that squaring a huge residual can't overflow
        let scale = r.amax();
        let norm2 = if scale > 1e3 { scale * r.norm() } else { r.norm_squared() };
        let weight = self.robust.weight(norm2).sqrt();""")],
'''assign_symbols!(X: VectorVar2);
fn main(){
 let f = fac![PriorResidual::new(VectorVar2::new(0.0, 0.0)), X(0), GaussianNoise::<2>::from_scalar_sigma(1.0), Cauchy::new(1.0)];
 let mut v = Values::new(); v.insert(X(0), VectorVar2::new(2e3, 2e3));
 let l = f.linearize(&v);
 let n: f64 = 8e6; let w = 1.0 / (1.0 + n);
 let g = (l.a.mat().transpose() * &l.b)[0];
 near(g.abs(), w * 2e3, 1e-9, "gradient");
}''',"a robust kernel, a whitened residual above a thousand in several components","the weight is taken at the wrong squared norm, so linearisation and error disagree")

bug("c19-duplicate-edge","C19",[(UT,"""    for line in BufReader::new(file).lines() {
        let line = line.expect("Missing line");
        let parts""","""    let mut last = String::new();
    for line in BufReader::new(file).lines() {
        let line = line.expect("Missing line");
        // Some exporters write an edge once per endpoint
        if line == last {
            continue;
        }
        last.clone_from(&line);
        let parts""")],
'''fn main(){
 let p = std::env::temp_dir().join(format!("dup{}.g2o", std::process::id()));
 let e = "EDGE_SE2 0 1 1 0 0 1 0 0 1 0 1\\n";
 std::fs::write(&p, format!("VERTEX_SE2 0 0 0 0\\nVERTEX_SE2 1 1 0 0\\n{e}{e}")).unwrap();
 let (g, _) = factrs::utils::load_g20(p.to_str().unwrap());
 std::fs::remove_file(&p).unwrap();
 need(g.len() == 3, "number of factors");
}''',"two identical edge lines in a row","a repeated measurement is silently dropped")

bug("c19-prior-on-reload","C19",[(UT,"""                    let factor = fac![PriorResidual::new(var.clone()), key];
                    graph.add_factor(factor);""","""                    let factor = fac![PriorResidual::new(var.clone()), key];
                    if graph.is_empty() {
                        graph.add_factor(factor);
                    }""")],
'''fn main(){
 let p = std::env::temp_dir().join(format!("ef{}.g2o", std::process::id()));
 std::fs::write(&p, "EDGE_SE2 0 1 1 0 0 1 0 0 1 0 1\\nVERTEX_SE2 0 0 0 0\\nVERTEX_SE2 1 1 0 0\\n").unwrap();
 let (g, _) = factrs::utils::load_g20(p.to_str().unwrap());
 std::fs::remove_file(&p).unwrap();
 need(g.len() == 2, "prior and edge");
}''',"a 2D file whose edges come before its vertices","no prior is added, the graph has no anchor")

bug("c17-insert-keeps-newer","C17",[(VAL,"""        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        self.values.insert(symbol.into(), Box::new(value))""","""        S: TypedSymbol<V>,
        V: VariableUmbrella,
    {
        let key = symbol.into();
        // Nothing to do if it is the same variable again
        if let Some(old) = self.values.get(&key).and_then(|o| o.downcast_ref::<V>()) {
            if old.ominus(&value).amax() == 0.0 {
                return None;
            }
        }
        self.values.insert(key, Box::new(value))""")],
'''assign_symbols!(X: SO2);
fn main(){
 let mut v = Values::new();
 v.insert(X(0), SO2::from_theta(0.5));
 need(v.insert(X(0), SO2::from_theta(0.5)).is_some(), "old value returned");
}''',"inserting an equal value twice","insert does not return the value it replaces")

bug("c06-grad-row","C06",[(LA,"                    let diff = VectorX::from_iterator(diff.len(), diff.iter().cloned());","                    let diff = VectorX::from_iterator(diff.len(), diff.iter().map(|d| if d.abs() < 1e-12 { 0.0 } else { *d }));")],
'''fn main(){
 let x = VectorVar1::new(1e-7);
 let d = factrs::linalg::ForwardProp::<nalgebra::Const<1>>::gradient_1(|x: VectorVar1<factrs::linalg::DualVector<nalgebra::Const<1>>>| x[0].clone() * x[0].clone() * 1e-6, &x).diff;
 near(d[0], 2e-13, 1e-20, "gradient");
}''',"a gradient component below 1e-12","small gradient components are reported as zero")

bug("c11-error-large","C11",[(LG,"        self.factors.iter().map(|f| f.error(values)).sum()","        // pairwise blocks keep the rounding of a long sum small\n        let (blocks, rest) = self.factors.split_at(self.factors.len() / 32 * 32);\n        let sum: dtype = blocks.chunks(32).map(|c| c.iter().map(|f| f.error(values)).sum::<dtype>()).sum();\n        if blocks.is_empty() || rest.len() > 1 {\n            sum + rest.iter().map(|f| f.error(values)).sum::<dtype>()\n        } else {\n            sum\n        }")],
'''assign_symbols!(X: VectorVar1);
fn main(){
 let mut v = Values::new(); v.insert(X(0), VectorVar1::identity());
 let mut g = LinearGraph::new();
 for _ in 0..33 { g.add_factor(LinearFactor::new(vec![X(0).into()], MatrixBlock::new(MatrixX::from_fn(1, 1, |_, _| 1.0), vec![0]), vectorx![2.0])); }
 near(g.error(&LinearValues::zero_from_values(&v)), 66.0, 1e-9, "error");
}''',"a linear graph of 33, 65, ... factors","the last factor is left out of the linear error")
BUGS=[b for b in BUGS if b]
