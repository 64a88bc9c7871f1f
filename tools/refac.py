#!/usr/bin/env python3
"""Behaviour-preserving rewrites: refac.py DIR, where DIR is a copy of /repo (development aid; no check uses it)."""
import sys
R=sys.argv[1].rstrip("/")+"/"
def e(f,*prs):
    t=open(R+f).read()
    for o,n in prs:
        assert t.count(o)>=1,(f,o)
        t=t.replace(o,n)
    open(R+f,'w').write(t)
# graph
e("src/containers/graph.rs",
("        self.factors.iter().map(|f| f.error(values)).sum()","""        let mut total = 0.0;
        for factor in self.factors.iter().rev() {
            total += factor.error(values);
        }
        total"""),
("        let factors = self.factors.iter().map(|f| f.linearize(values)).collect();\n        LinearGraph::from_vec(factors)","""        let mut out = LinearGraph::new();
        for f in &self.factors {
            out.add_factor(f.linearize(values));
        }
        out"""),
("""        let _ = self.factors.iter().fold(0, |row, f| {
            f.keys().iter().for_each(|key| {
                (0..f.dim_out()).for_each(|i| {
                    let Idx {
                        idx: col,
                        dim: col_dim,
                    } = order.get(*key).expect("Key missing in values");
                    (0..*col_dim).for_each(|j| {
                        indices.push((row + i, col + j));
                    });
                });
            });
            row + f.dim_out()
        });""","""        let mut row = 0;
        for f in &self.factors {
            let rows = f.dim_out();
            for key in f.keys() {
                let Idx { idx: col, dim } = order.get(*key).expect("Key missing in values").clone();
                for i in row..row + rows {
                    indices.extend((col..col + dim).map(|c| (i, c)));
                }
            }
            row += rows;
        }"""))
e("src/linear/graph.rs",
("        self.factors.iter().map(|f| f.error(values)).sum()","""        self.factors.iter().fold(0.0, |acc, f| f.error(values) + acc)"""),
("""            (0..f.keys.len()).for_each(|idx| {
                // Iterate over rows, then column elements
                f.a.get_block(idx).row_iter().for_each(|r| {
                    r.iter().for_each(|val| {
                        values.push(*val);
                    });
                });
            });""","""            for idx in 0..f.keys.len() {
                let block = f.a.get_block(idx);
                for i in 0..block.nrows() {
                    for j in 0..block.ncols() {
                        values.push(block[(i, j)]);
                    }
                }
            }"""))
e("src/linear/factor.rs",
("""        let ax: VectorX = self
            .keys
            .iter()
            .enumerate()
            .map(|(idx, key)| {
                self.a.mul(
                    idx,
                    vector
                        .get(*key)
                        .expect("Missing key in LinearValues::error"),
                )
            })
            .sum();
        (ax - &self.b).norm_squared() / 2.0""","""        let mut r = -self.b.clone();
        for (idx, key) in self.keys.iter().enumerate() {
            let x = vector.get(*key).expect("Missing key in LinearValues::error");
            r += self.a.get_block(idx) * x;
        }
        0.5 * r.dot(&r)"""))
e("src/containers/factor.rs",
("        let norm2 = r.norm_squared();\n        self.robust.loss(norm2)","        let d = r.norm();\n        self.robust.loss(d * d)"),
("        let a = weight * a;\n        let b = -weight * r;","        let b = r * (-weight);\n        let a = a * weight;"))
e("src/containers/order.rs",
("""        let map = values
            .iter()
            .scan(0, |idx, (key, val)| {
                let order = *idx;
                *idx += val.dim();
                Some((
                    *key,
                    Idx {
                        idx: order,
                        dim: val.dim(),
                    },
                ))
            })
            .collect::<HashMap<Key, Idx>>();

        let dim = map.values().map(|idx| idx.dim).sum();
""","""        let mut entries = values.iter().collect::<Vec<_>>();
        entries.sort_by_key(|(key, _)| key.0);
        let mut map = HashMap::<Key, Idx>::default();
        let mut dim = 0;
        for (key, val) in entries {
            map.insert(*key, Idx { idx: dim, dim: val.dim() });
            dim += val.dim();
        }
"""))
# robust
e("src/robust/mod.rs",
("        self.c2 * ((1.0 + d2 / self.c2).ln()) / 2.0","        0.5 * self.c2 * (d2 / self.c2).ln_1p()"),
("        self.c2 * (1.0 - (-d2 / self.c2).exp()) / 2.0","        -0.5 * self.c2 * (-d2 / self.c2).exp_m1()"),
("        self.c * self.c * (d / self.c - (1.0 + (d / self.c)).ln())","        let x = d / self.c;\n        self.c * self.c * (x - x.ln_1p())"),
("        0.5 * self.c2 * d2 / (self.c2 + d2)","        0.5 * d2 / (1.0 + d2 / self.c2)"),
("            (1.0 - d2 / self.c2).powi(2)","            let x = (self.c2 - d2) / self.c2;\n            x * x"))
# noise: other square root
e("src/noise/gaussian.rs",
("""        let sqrt_inf = cov
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt covariance.")
            .cholesky()
            .expect("Cholesky failed when creating sqrt information.")
            .l()
            .transpose();""","""        let sqrt_inf = cov
            .cholesky()
            .expect("Cholesky failed when creating sqrt covariance.")
            .l()
            .try_inverse()
            .expect("Matrix inversion failed when creating sqrt information.");"""),
("        let mut out = VectorX::zeros(v.len());\n        self.sqrt_inf.mul_to(&v, &mut out);\n        out","        let w = &self.sqrt_inf * &v;\n        VectorX::from_column_slice(w.as_slice())"))
# so3
e("src/variables/so3.rs",
("""        let qv = Self::from_xyzw(v[0], v[1], v[2], (0.0).into());
        let inv = self.inverse();

        let v_rot = (&(self * &qv) * &inv).xyzw;
        Vector3::new(v_rot[0], v_rot[1], v_rot[2])""","""        self.to_matrix() * v"""),
("""        xyzw[0] = w0 * x1 + x0 * w1 + y0 * z1 - z0 * y1;
        xyzw[1] = w0 * y1 - x0 * z1 + y0 * w1 + z0 * x1;""","""        xyzw[1] = w0 * y1 + y0 * w1 + (z0 * x1 - x0 * z1);
        xyzw[0] = w0 * x1 + x0 * w1 + (y0 * z1 - z0 * y1);"""),
("            xi * norm_v.atan2(w) * T::from(2.0) / norm_v","            let scale = T::from(2.0) * norm_v.atan2(w) / norm_v;\n            xi * scale"))
e("src/variables/se3.rs",
("            let Vinv = V.try_inverse().expect(\"V is not invertible\");\n            Vinv * self.xyz","            V.lu().solve(&self.xyz).expect(\"V is not invertible\")") if False else ("            let V = I + wx * B + wx * wx * C;\n            V * xyz","            let t1 = wx * xyz;\n            let t2 = wx * t1;\n            let _ = I as Matrix3<T>;\n            xyz + t1 * B + t2 * C"))
e("src/variables/se2.rs",
("                A = theta.sin() / theta;\n                B = (T::from(1.0) - theta.cos()) / theta;\n            };\n            let V = Matrix2::new(A, -B, B, A);\n            V * xy","                A = theta.sin() / theta;\n                let half = (theta * T::from(0.5)).sin();\n                B = T::from(2.0) * half * half / theta;\n            };\n            Vector2::new(A * xy[0] - B * xy[1], B * xy[0] + A * xy[1])"),
("            let Vinv = V.try_inverse().expect(\"V is not invertible\");\n            &(Vinv * self.xy)","            let det = A * A + B * B;\n            let Vinv = V.transpose() / det;\n            &(Vinv * self.xy)"))
# solvers
e("src/linear/solvers.rs",
("""        let atb = a.transpose().mul(b);

        self.solve_symmetric(ata.as_ref(), atb.as_ref())
    }
}

// ------------------------- QR""","""        let mut atb = Mat::<dtype>::zeros(a.ncols(), b.ncols());
        for j in 0..a.ncols() {
            for (i, v) in a.row_indices_of_col(j).zip(a.values_of_col(j)) {
                for k in 0..b.ncols() {
                    let x = atb.read(j, k) + *v * b.read(i, k);
                    atb.write(j, k, x);
                }
            }
        }

        self.solve_symmetric(ata.as_ref(), atb.as_ref())
    }
}

// ------------------------- QR"""))
# LM
e("src/optimizers/levenberg_marquardt.rs",
("""        self.lambda /= self.params_leven.lambda_factor;
        if self.lambda < self.params_leven.lambda_min {
            self.lambda = self.params_leven.lambda_min;
        }""","""        self.lambda = (self.lambda / self.params_leven.lambda_factor).max(self.params_leven.lambda_min);"""),
("            let a = &jtj + (&i * scale(self.lambda));","            let damping = &i * scale(self.lambda);\n            let a = &damping + &jtj;"),
("        let old_error = linear_graph.error(&dx);","        let old_error = 0.5 * r.as_ref().col(0).squared_norm_l2();"))
e("src/optimizers/traits.rs",
("            let error_decrease_rel = error_decrease_abs / error_old;","            let error_decrease_rel = 1.0 - error_new / error_old;") if False else ("        for callback in &self.observers {\n            callback.on_step(values, idx as f64);\n        }","        let time = idx as f64;\n        self.observers.iter().for_each(|o| o.on_step(values, time));"))
# values
e("src/containers/values.rs",
("""        for (key, value) in delta.iter() {
            if let Some(v) = self.values.get_mut(key) {""","""        for (key, v) in self.values.iter_mut() {
            if let Some(value) = delta.get(*key) {"""))
# imu
e("src/residuals/imu_preint/delta.rs",
("        let accel_world = SO3::exp(self.xi_theta.as_view()).apply(accel.0.as_view());","        let accel_world = SO3::exp(self.xi_theta.as_view()).to_matrix() * accel.0;"),
("        self.xi_pos += self.xi_vel * dt + accel_world * (dt * dt * 0.5);\n        self.xi_vel += accel_world * dt;","        let dv = accel_world * dt;\n        self.xi_pos += (self.xi_vel + dv * T::from(0.5)) * dt;\n        self.xi_vel += dv;"))
e("src/residuals/imu_preint/residual.rs",
("        self.cov = A * self.cov * A.transpose() + B_Q_BT;","        let cov = A * (self.cov * A.transpose()) + B_Q_BT;\n        self.cov = (cov + cov.transpose()) * 0.5;"),
("        let r_vel = r1_inv.apply((v2_meas.0 - v2.0).as_view());\n        let r_p = r1_inv.apply((p2_meas.0 - p_2.0).as_view());","        let r1_inv = r1_inv.to_matrix();\n        let r_vel = r1_inv * (v2_meas.0 - v2.0);\n        let r_p = r1_inv * (p2_meas.0 - p_2.0);"),
("    variables::","    variables::") )
# diff
e("src/linalg/numerical_diff.rs",
("                        let delta = (plus - minus) / (2.0 * eps);","                        let delta = (plus - minus) * (0.5 / eps);"))
e("src/linalg/mod.rs",
("    let d = (f(x + eps) - f(x - eps)) / (2.0 * eps);","    let (hi, lo) = (f(x + eps), f(x - eps));\n    let d = 0.5 * (hi - lo) / eps;"))
e("factrs-proc/src/fac.rs",
("        factrs::containers::FactorBuilder:: #call #noise #robust.build()","        {\n            let builder = factrs::containers::FactorBuilder:: #call;\n            builder #noise #robust .build()\n        }"))
