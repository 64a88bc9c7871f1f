SO3="src/variables/so3.rs"; SE3="src/variables/se3.rs"; SO2="src/variables/so2.rs"; SE2="src/variables/se2.rs"
BUGS=[]
def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))

bug("c01-from-matrix-y-branch","C01",[(SO3,"xyzw[3] = (mat[(0, 2)] - mat[(2, 0)]) / s;","xyzw[3] = (mat[(2, 0)] - mat[(0, 2)]) / s;")],
'''fn main(){
 let x = SO3::exp(vectorx![0.3, 2.8, -0.4].as_view());
 let y = SO3::from_matrix(x.to_matrix().as_view());
 near((x.to_matrix()-y.to_matrix()).norm(), 0.0, 1e-9, "from_matrix(to_matrix)");
}''',"a rotation beyond 120 degrees whose largest matrix diagonal entry is yy","from_matrix returns the wrong rotation (scalar part negated)")

bug("c01-so2-from-matrix-acos","C01",[(SO2,"""        SO2 {
            a: mat[(0, 0)],
            b: mat[(1, 0)],
        }""","""        SO2::from_theta(mat[(0, 0)].acos())""")],
'''fn main(){
 let x = SO2::from_theta(-0.7);
 let y = SO2::from_matrix(x.to_matrix().as_view());
 near((x.to_matrix()-y.to_matrix()).norm(), 0.0, 1e-9, "from_matrix(to_matrix)");
}''',"a planar rotation by a negative angle","SO2 (and SE2) built from a matrix loses the sign of the angle")

bug("c01-so3-apply-halfturn","C01",[(SO3,"""        let qv = Self::from_xyzw(v[0], v[1], v[2], (0.0).into());
        let inv = self.inverse();
""","""        // Rotations by half a turn are their own inverse
        let inv = if self.xyzw.w.abs() < T::from(1e-3) {
            self.clone()
        } else {
            self.inverse()
        };
        let qv = Self::from_xyzw(v[0], v[1], v[2], (0.0).into());
""")],
'''fn main(){
 let x = SO3::exp(vectorx![0.0, 0.0, std::f64::consts::PI].as_view());
 let v = Vector3::new(1.0, 2.0, 3.0);
 near((x.to_matrix()*v - x.apply(v.as_view())).norm(), 0.0, 1e-9, "apply");
}''',"a rotation by (almost) exactly half a turn","applying the rotation to a point negates it compared with the matrix")

bug("c02-so3-log-threshold","C02",[(SO3,"if norm_v < T::from(1e-3) {","if norm_v < T::from(2e-2) {")],
'''fn main(){
 let t = vectorx![0.01, -0.02, 0.015];
 let l = SO3::exp(t.as_view()).log();
 near((l-t).norm(), 0.0, 1e-8, "log(exp)");
}''',"a rotation angle around a hundredth of a radian","the logarithm is off by up to 1e-6: log(exp(d)) is not d")

bug("c02-se3-log-small-angle-V","C02",[(SE3,"""            let w2 = xi_theta.norm_squared();
            let B;
            let C;
            if w2 < T::from(1e-5) {
                B = T::from(0.5);""","""            let w2 = xi_theta.norm_squared();
            let B;
            let C;
            if w2 < T::from(1e-5) {
                B = T::from(1.0 / 3.0);""")],
'''fn main(){
 let t = vectorx![0.001, -0.002, 0.0005, 10.0, 5.0, -3.0];
 let l = SE3::exp(t.as_view()).log();
 near((l-t).norm(), 0.0, 1e-4, "log(exp)");
}''',"a pose with a rotation below 0.003 rad and a translation","the logarithm of nearly unrotated poses no longer inverts the exponential")

bug("c02-se2-log-wrap","C02",[(SO2,"        vectorx![self.b.atan2(self.a)]\n","        vectorx![(self.b / self.a).atan()]\n")],
'''fn main(){
 let l = SO2::exp(vectorx![2.0].as_view()).log();
 near(l[0], 2.0, 1e-9, "log(exp)");
}''',"a planar rotation beyond a quarter turn","log loses the quadrant")

T="src/variables/traits.rs"
bug("c03-minus-order","C03",[(T,"        other.inverse().compose(self)\n","        self.compose(&other.inverse())\n")],
'''fn main(){
 let x = SO3::exp(vectorx![0.3, 0.8, -0.4].as_view());
 let y = SO3::exp(vectorx![-0.3, 0.2, 1.4].as_view());
 near((x.minus(&y).to_matrix() - y.to_matrix().transpose()*x.to_matrix()).norm(), 0.0, 1e-9, "minus");
}''',"two rotations that do not commute","relative-element subtraction is taken on the wrong side")

bug("c03-skip-tiny-step","C03",[(T,"        self.compose(&Self::exp(xi))\n","""        if xi.iter().all(|x| x.abs() < T::from(1e-7)) {
            return self.clone();
        }
        self.compose(&Self::exp(xi))
""")],
'''fn main(){
 let x = VectorVar2::new(0.1, 0.2);
 let d = vectorx![5e-8, -3e-8];
 let y = x.oplus(d.as_view());
 near((y.ominus(&x)-d).norm(), 0.0, 1e-12, "ominus(oplus)");
}''',"a tangent with all components below 1e-7","tiny steps are not applied: the local difference is 0 instead of the step")

bug("c03-ominus-left-order","C03",[(T,"        self.compose(&y.inverse()).log()\n","        y.inverse().compose(self).log()\n")],
'''fn main(){
 let x = SE3::exp(vectorx![0.3, 0.8, -0.4, 1.0, 2.0, 3.0].as_view());
 let d = vectorx![0.2, 0.1, -0.4, 1.0, -2.0, 3.0];
 let y = x.oplus_left(d.as_view());
 near((y.ominus_left(&x)-d).norm(), 0.0, 1e-9, "ominus_left(oplus_left)");
}''',"the explicit left variants on elements that do not commute","the left local difference no longer inverts the left retraction")

bug("c04-dexp-threshold","C04",[(SO3,"        let (a, b) = if theta2 < T::from(1e-6) {","        let (a, b) = if theta2 < T::from(1e-2) {")],
'''fn main(){
 let d = Vector3::new(0.05, -0.06, 0.02);
 let e = Vector3::new(3e-6, 2e-6, 4e-6);
 let j = SO3::dexp(d.as_view());
 let m = d - e; let p = d + e;
 let f = |v: Vector3| SO3::exp(vectorx![v[0], v[1], v[2]].as_view());
 let num = f(p).ominus(&f(m)) * 0.5;
 let lin = j * e;
 near((num - vectorx![lin[0], lin[1], lin[2]]).norm() / e.norm(), 0.0, 1e-6, "dexp");
}''',"a rotation angle between 0.001 and 0.1 rad","the right Jacobian is off by up to 4e-5")

bug("c04-se2-hat-swap","C04",[(SE2,"""            .copy_from(&SO2::hat_swap(xi.as_view()));
""","""            .copy_from(&-SO2::hat_swap(xi.as_view()));
""")],
'''fn main(){
 let d = Vector3::new(0.5, -0.6, 0.2); let p = Vector2::new(3.0, 4.0);
 let h = SE2::hat(d.as_view()); let hp = h * Vector3::new(3.0, 4.0, 1.0);
 let s = SE2::hat_swap(p.as_view()) * d;
 near((Vector2::new(hp[0], hp[1]) - s).norm(), 0.0, 1e-9, "hat_swap");
}''',"hat_swap of planar poses","swapped hat has the wrong sign for the rotation column")

bug("c04-se3-adjoint-block","C04",[(SE3,"        mat.fixed_view_mut::<3, 3>(3, 0).copy_from(&t_r_mat);","        mat.fixed_view_mut::<3, 3>(3, 0)\n            .copy_from(&t_r_mat.transpose());")],
'''fn main(){
 let x = SE3::exp(vectorx![0.3, 0.8, -0.4, 1.0, 2.0, 3.0].as_view());
 let d = vectorx![0.2, 0.1, -0.4, 1.0, -2.0, 3.0];
 let ad = VectorX::from_iterator(6, (x.adjoint() * &d).iter().cloned());
 let l = &(&x * &SE3::exp(d.as_view())) * &x.inverse();
 let r = SE3::exp(ad.as_view());
 near((l.to_matrix()-r.to_matrix()).norm(), 0.0, 1e-8, "adjoint");
}''',"a rotated and translated pose","the adjoint's lower-left block is transposed")

bug("c05-se2-dual-order","C05",[(SE2,"            rot: SO2::<dtype>::dual_setup(idx),","            rot: SO2::<dtype>::dual_setup(idx + 2),"),(SE2,"            xy: VectorVar2::<dtype>::dual_setup(idx + 1).into(),","            xy: VectorVar2::<dtype>::dual_setup(idx).into(),")],
'''fn main(){
 let b = SE2::new(0.3, 1.0, 2.0);
 let j = ForwardProp::<Const<3>>::jacobian_1(|b: SE2<DualVector<Const<3>>>| b.log(), &b).diff;
 let d = vectorx![1e-6, 0.0, 0.0];
 let num = (b.oplus(d.as_view()).log() - b.log()) / 1e-6;
 near((j.column(0) - num).norm(), 0.0, 1e-4, "column of theta");
}''',"differentiating with respect to a planar pose","columns come out in x, y, theta order while increments are theta, x, y")

bug("c05-default-dual-setup-offset","C05",[(T,"tvi.eps = num_dual::Derivative::derivative_generic(n, Const::<1>, idx + i)","tvi.eps = num_dual::Derivative::derivative_generic(n, Const::<1>, idx - idx % Self::DIM + i)")],
'''use std::fmt;
#[derive(Clone, Debug)] struct My<T: Numeric = f64>{ v: Vector2<T> }
impl<T: Numeric> fmt::Display for My<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "my") } }
impl<T: Numeric> Variable<T> for My<T> {
 type Dim = Const<2>; type Alias<TT: Numeric> = My<TT>;
 fn identity() -> Self { My{v: Vector2::zeros()} }
 fn inverse(&self) -> Self { My{v: -self.v} }
 fn compose(&self, o: &Self) -> Self { My{v: self.v + o.v} }
 fn exp(d: VectorViewX<T>) -> Self { My{v: Vector2::new(d[0], d[1])} }
 fn log(&self) -> VectorX<T> { vectorx![self.v[0], self.v[1]] }
 fn dual_convert<TT: Numeric>(o: &Self::Alias<f64>) -> Self::Alias<TT> { My{v: o.v.map(|x| x.into())} }
}
fn main(){
 let a = VectorVar1::new(1.0); let b = My{v: Vector2::new(2.0, 3.0)};
 let j = ForwardProp::<Const<3>>::jacobian_2(|a: VectorVar1<DualVector<Const<3>>>, b: My<DualVector<Const<3>>>| vectorx![a[0]*b.v[0] + b.v[1]*5.0], &a, &b).diff;
 near(j[(0,0)], 2.0, 1e-12, "d/da"); near(j[(0,1)], 1.0, 1e-12, "d/db0"); near(j[(0,2)], 5.0, 1e-12, "d/db1");
}''',"a user-defined variable (default dual_setup) placed after variables whose total dimension is not a multiple of its own","its derivatives land in other columns")

bug("c07-between-conjugated","C07",[("src/residuals/between.rs","v1.compose(&delta).ominus(&v2)","v1.ominus(&v2.compose(&delta.inverse()))")],
'''assign_symbols!(X: SE3);
fn main(){
 let a = SE3::exp(vectorx![0.3, 0.8, -0.4, 1.0, 2.0, 3.0].as_view());
 let b = SE3::exp(vectorx![0.1, -0.8, 0.4, 1.0, -2.0, 3.0].as_view());
 let z = SE3::exp(vectorx![0.5, 0.1, 0.4, 1.0, 1.0, 2.0].as_view());
 let mut v = Values::new(); v.insert(X(0), a.clone()); v.insert(X(1), b.clone());
 let r = BetweenResidual::new(z.clone()).residual(&v, &[X(0).into(), X(1).into()]);
 let e = a.compose(&z).ominus(&b);
 near((r-e).norm(), 0.0, 1e-9, "between");
}''',"variables that do not satisfy the measurement and a measurement that does not commute with the mismatch","the mismatch is expressed in the wrong frame (conjugated by the measurement); it still vanishes at the solution")

bug("c07-prior-negated","C07",[("src/residuals/prior.rs","        Self::V1::dual_convert::<T>(&self.prior).ominus(&v)","        v.ominus(&Self::V1::dual_convert::<T>(&self.prior))")],
'''assign_symbols!(X: SO2);
fn main(){
 let mut v = Values::new(); v.insert(X(0), SO2::from_theta(0.5));
 let r = PriorResidual::new(SO2::from_theta(0.7)).residual(&v, &[X(0).into()]);
 near(r[0], 0.2, 1e-9, "prior");
}''',"reading the residual itself (error and optimum are unchanged)","the prior residual has the opposite sign")

bug("c08-inf-not-transposed","C08",[("src/noise/gaussian.rs","""        let sqrt_inf = inf
            .cholesky()
            .expect("Cholesky failed when creating sqrt information.")
            .l()
            .transpose();""","""        let sqrt_inf = inf
            .cholesky()
            .expect("Cholesky failed when creating sqrt information.")
            .l();""")],
'''fn main(){
 let i = Matrix2::new(4.0, 1.0, 1.0, 3.0);
 let w = GaussianNoise::from_matrix_inf(i.as_view()).whiten_vec(vectorx![1.0, 2.0]);
 near(w.norm_squared(), 4.0 + 4.0 + 12.0, 1e-9, "mahalanobis");
}''',"an information matrix with off-diagonal entries","whitening uses L instead of its transpose")

bug("c08-cov-diagonal-shortcut","C08",[("src/noise/gaussian.rs","""    pub fn from_matrix_cov(cov: MatrixView<N, N>) -> Self {
""","""    pub fn from_matrix_cov(cov: MatrixView<N, N>) -> Self {
        // Diagonal covariances don't need a factorization
        if (1..N).all(|i| cov[(i, i - 1)] == 0.0) {
            return Self::from_vec_cov(cov.diagonal().as_view());
        }
""")],
'''fn main(){
 let c = Matrix3::new(4.0, 0.0, 1.0, 0.0, 3.0, 0.0, 1.0, 0.0, 2.0);
 let v = Vector3::new(1.0, 2.0, 3.0);
 let w = GaussianNoise::from_matrix_cov(c.as_view()).whiten_vec(vectorx![1.0, 2.0, 3.0]);
 near(w.norm_squared(), (v.transpose()*c.try_inverse().unwrap()*v)[0], 1e-9, "mahalanobis");
}''',"a covariance whose first off-diagonal is zero but which has correlations further out","such correlations are dropped")

bug("c08-vec-inf","C08",[("src/noise/gaussian.rs","from_diagonal(&inf.map(|x| x.sqrt()));","from_diagonal(&inf.map(|x| x.recip().sqrt()));")],
'''fn main(){
 let w = GaussianNoise::from_vec_inf(Vector2::new(4.0, 9.0).as_view()).whiten_vec(vectorx![1.0, 2.0]);
 near(w.norm_squared(), 4.0 + 36.0, 1e-9, "mahalanobis");
}''',"the per-component information constructor","information is treated as covariance")

R="src/robust/mod.rs"
bug("c09-huber-offset","C09",[(R,"            self.k * (d - self.k / 2.0)","            self.k * d - self.k / 2.0")],
'''fn main(){
 let h = Huber::new(3.0);
 near(h.loss(100.0), 3.0*(10.0-1.5), 1e-9, "huber");
}''',"a residual beyond the threshold and a parameter other than 1","the linear part of Huber's loss is offset, the loss jumps at the threshold")

bug("c09-welsch-parameter","C09",[(R,"        Welsch { c2: c * c }","        Welsch { c2: c }")],
'''fn main(){
 near(Welsch::new(3.0).loss(4.0), 4.5*(1.0-(-4.0f64/9.0).exp()), 1e-9, "welsch");
}''',"Welsch::new with a parameter other than 1 (default is right)","parameter is not squared")

bug("c09-tukey-tail","C09",[(R,"            self.c2 / 6.0\n","            self.c2 / 2.0\n")],
'''fn main(){
 near(Tukey::new(2.0).loss(100.0), 4.0/6.0, 1e-9, "tukey");
}''',"a residual beyond Tukey's cut-off","the asymptote of the loss is three times too high")

F="src/containers/factor.rs"
bug("c10-arity4-key-order","C10",[("src/residuals/traits.rs","residual_maker!(4, (0, v1, V1), (1, v2, V2), (2, v3, V3), (3, v4, V4));","residual_maker!(4, (0, v1, V1), (1, v2, V2), (3, v3, V3), (2, v4, V4));")],
'''use std::fmt;
assign_symbols!(X: VectorVar1);
#[derive(Debug, Clone)] struct R4;
impl fmt::Display for R4 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "r4") } }
#[factrs::mark]
impl Residual4 for R4 {
 type Differ = ForwardProp<Const<4>>; type V1 = VectorVar1; type V2 = VectorVar1; type V3 = VectorVar1; type V4 = VectorVar1; type DimIn = Const<4>; type DimOut = Const<1>;
 fn residual4<T: Numeric>(&self, a: VectorVar1<T>, b: VectorVar1<T>, c: VectorVar1<T>, d: VectorVar1<T>) -> VectorX<T> {
  vectorx![a[0] + b[0] * 2.0 + c[0] * 3.0 + d[0] * 4.0] }
}
fn main(){
 let mut v = Values::new(); for i in 0..4 { v.insert(X(i), VectorVar1::new(10f64.powi(i as i32))); }
 let f = FactorBuilder::new4(R4, X(0), X(1), X(2), X(3)).build();
 near(f.error(&v), 0.5*4321f64.powi(2), 1e-6, "error");
}''',"a residual of exactly four variables with equal third and fourth types","the third and fourth variables are swapped")

bug("c11-linear-error-constant","C11",[("src/linear/factor.rs","        (ax - &self.b).norm_squared() / 2.0","        ax.norm_squared() / 2.0 - ax.dot(&self.b)")],
'''fn main(){
 let k = Key(1);
 let f = LinearFactor::new(vec![k], MatrixBlock::new(MatrixX::identity(2,2), vec![0]), vectorx![1.0, 2.0]);
 let mut m = factrs::containers::Values::new(); m.insert_unchecked(k, VectorVar2::new(0.0, 0.0));
 let lv = LinearValues::zero_from_values(&m);
 near(f.error(&lv), 2.5, 1e-12, "linear error at zero");
}''',"reading the linear error itself (differences of it are unchanged)","the constant half squared norm of the right-hand side is dropped")

bug("c12-trace-cached-factor","C12",[("src/linear/solvers.rs","""pub struct LUSolver {
    sparsity_pattern: Option<solvers::SymbolicLu<usize>>,
}""","""pub struct LUSolver {
    sparsity_pattern: Option<solvers::SymbolicLu<usize>>,
    last: Option<(dtype, solvers::Lu<usize, dtype>)>,
}"""),("src/linear/solvers.rs","""        solvers::Lu::try_new_with_symbolic(
            self.sparsity_pattern.clone().expect("Symbolic LU missing"),
            a.as_ref(),
        )
        .expect("LU decomp failed")
        .solve(&b)""","""        // Reuse the factorization if the system didn't change
        let trace = (0..a.ncols()).map(|i| a[(i, i)]).sum::<dtype>();
        match &self.last {
            Some((t, lu)) if *t == trace => lu.solve(&b),
            _ => {
                let lu = solvers::Lu::try_new_with_symbolic(
                    self.sparsity_pattern.clone().expect("Symbolic LU missing"),
                    a.as_ref(),
                )
                .expect("LU decomp failed");
                let x = lu.solve(&b);
                self.last = Some((trace, lu));
                x
            }
        }""")],
'''use faer::sparse::SparseColMat;
fn main(){
 let mut s = LUSolver::default();
 let a = SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0,0,2.0),(1,1,4.0)]).unwrap();
 let c = SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0,0,4.0),(1,1,2.0)]).unwrap();
 let b = faer::mat![[8.0],[8.0f64]];
 s.solve_symmetric(a.as_ref(), b.as_ref());
 let x = s.solve_symmetric(c.as_ref(), b.as_ref());
 near(x[(0,0)], 2.0, 1e-12, "x0"); near(x[(1,0)], 4.0, 1e-12, "x1");
}''',"two solves on one LU solver with different matrices of equal trace","the second solve uses the first matrix's factorization")

bug("c12-cholesky-ridge","C12",[("src/linear/solvers.rs","""        let atb = a.transpose().mul(b);

        self.solve_symmetric(ata.as_ref(), atb.as_ref())
    }
}

// ------------------------- QR Linear Solver ------------------------- //""","""        // Keep the normal equations positive definite
        let triplets = (0..ata.ncols()).map(|i| (i, i, 1e-9)).collect::<Vec<_>>();
        let ridge = faer::sparse::SparseColMat::<usize, dtype>::try_new_from_triplets(
            ata.nrows(),
            ata.ncols(),
            &triplets,
        )
        .expect("Failed to make ridge");
        let ata = &ata + &ridge;

        let atb = a.transpose().mul(b);

        self.solve_symmetric(ata.as_ref(), atb.as_ref())
    }
}

// ------------------------- QR Linear Solver ------------------------- //""")],
'''use faer::sparse::SparseColMat;
fn main(){
 let mut s = CholeskySolver::default();
 let a = SparseColMat::<usize, f64>::try_new_from_triplets(2, 2, &[(0,0,1e-4),(1,1,2e-4)]).unwrap();
 let b = faer::mat![[1e-4],[1e-4f64]];
 let x = s.solve_lst_sq(a.as_ref(), b.as_ref());
 near(x[(0,0)], 1.0, 1e-9, "x0"); near(x[(1,0)], 0.5, 1e-9, "x1");
}''',"a well-conditioned system of small entries","the least-squares solution is shrunk by a ridge term")
