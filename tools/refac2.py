#!/usr/bin/env python3
"""A second set of behaviour-preserving rewrites: refac2.py DIR, where DIR is a copy of /repo (development aid; no check uses it)."""
import re, sys
R=sys.argv[1].rstrip("/")+"/"
def e(f,*prs):
    t=open(R+f).read()
    for o,n in prs:
        assert t.count(o)>=1,(f,o)
        t=t.replace(o,n)
    open(R+f,'w').write(t)
# g2o loader: parsing helper, match arms reordered
f="src/utils.rs"; t=open(R+f).read()
t=re.sub(r'parts\[(\d+)\]\.parse::<(\w+)>\(\)\.expect\("Failed to parse g20"\)',r'field::<\2>(&parts, \1)',t)
t=t.replace("/// Load a g2o file","""/// Parse one field of a line
fn field<T: std::str::FromStr>(parts: &[&str], i: usize) -> T
where
    T::Err: std::fmt::Debug,
{
    parts[i].parse::<T>().expect("Failed to parse g20")
}

/// Load a g2o file""",1)
t=t.replace("""                let rot = SO3::from_xyzw(qx, qy, qz, qw);
                let xyz = Vector3::new(x, y, z);
                let var = SE3::from_rot_trans(rot, xyz);
""","""                let var = SE3::from_rot_trans(SO3::from_xyzw(qx, qy, qz, qw), Vector3::new(x, y, z));
""")
t=t.replace("let factor = FactorBuilder::new2(BetweenResidual::new(var), key1, key2)\n                    .noise(noise)\n                    .build();","let factor = fac![BetweenResidual::new(var), (key1, key2), noise];")
t=t.replace("FactorBuilder, Graph","Graph")
t=t.replace("for line in BufReader::new(file).lines() {\n        let line = line.expect(\"Missing line\");","let reader = BufReader::new(file);\n    for line in reader.lines().map(|l| l.expect(\"Missing line\")) {")
open(R+f,'w').write(t)
# robust
e("src/robust/mod.rs",
("        if d2 <= self.k * self.k {\n            d2 / 2.0\n        } else {\n            let d = d2.sqrt();\n            self.k * (d - self.k / 2.0)\n        }","        let d = d2.sqrt();\n        if d > self.k {\n            self.k * d - 0.5 * self.k * self.k\n        } else {\n            0.5 * d2\n        }"),
("        let dabs = d2.sqrt();\n        if dabs <= self.k {\n            1.0\n        } else {\n            self.k / dabs\n        }","        if d2 <= self.k * self.k {\n            return 1.0;\n        }\n        self.k / d2.sqrt()"),
("        1.0 / (1.0 + d.sqrt().abs() / self.c)","        self.c / (self.c + d.sqrt())"),
("        1.0 / (1.0 + d2 / self.c2)","        self.c2 / (self.c2 + d2)"),
("            self.c2 * (1.0 - (1.0 - d2 / self.c2).powi(3)) / 6.0","            let u = d2 / self.c2;\n            d2 * (3.0 - 3.0 * u + u * u) / 6.0"),
("        let denom = self.c2 + d2;\n        let frac = self.c2 / denom;\n        frac * frac","        (1.0 / (1.0 + d2 / self.c2)).powi(2)"),
("        if d2 <= 1e-3 {\n            1.0\n        } else {\n            1.0 / d2.sqrt()\n        }","        if d2 > 1e-3 {\n            d2.sqrt().recip()\n        } else {\n            1.0\n        }"))
# variables
e("src/variables/so2.rs",
("        vectorx![self.b.atan2(self.a)]","        vectorx![self.to_theta()]"),
("        Vector2::new(v[0] * self.a - v[1] * self.b, v[0] * self.b + v[1] * self.a)","        self.to_matrix() * v"),
("        SO2 {\n            a: self.a,\n            b: -self.b,\n        }","        let (a, b) = (self.a, self.b);\n        SO2 { a, b: -b }"))
e("src/variables/se2.rs",
("            xy: self.rot.apply(other.xy.as_view()) + self.xy,","            xy: self.apply(other.xy.as_view()),"),
("            let V = Matrix2::new(A, -B, B, A);\n\n            let Vinv = V.try_inverse().expect(\"V is not invertible\");\n            &(Vinv * self.xy)","            let det = A * A + B * B;\n            let Vinv = Matrix2::new(A, B, -B, A) / det;\n            &(Vinv * self.xy)"))
e("src/variables/se3.rs",
("            xyz: self.rot.apply(other.xyz.as_view()) + self.xyz,","            xyz: self.apply(other.xyz.as_view()),"),
("        xi.as_mut_slice()[0..3].clone_from_slice(xi_theta.as_slice());\n        xi.as_mut_slice()[3..6].clone_from_slice(xyz.as_slice());","        for i in 0..3 {\n            xi[i] = xi_theta[i];\n            xi[i + 3] = xyz[i];\n        }"),
("            if w2 < T::from(1e-5) {\n                B = T::from(0.5);\n                C = T::from(1.0 / 6.0);\n            } else {\n                let w = w2.sqrt();\n                let A = w.sin() / w;\n                B = (T::from(1.0) - w.cos()) / w2;\n                C = (T::from(1.0) - A) / w2;\n            };","            if w2 < T::from(1e-5) {\n                B = T::from(0.5);\n                C = T::from(1.0 / 6.0);\n            } else {\n                let w = w2.sqrt();\n                B = (T::from(1.0) - w.cos()) / w2;\n                C = (w - w.sin()) / (w2 * w);\n            };"))
e("src/variables/so3.rs",
("        let q0 = self.xyzw.w;\n        let q1 = self.xyzw.x;\n        let q2 = self.xyzw.y;\n        let q3 = self.xyzw.z;\n","        let (q0, q1, q2, q3) = (self.w(), self.x(), self.y(), self.z());\n"),
("            let omega = xi / theta;\n            let sin_theta_half = (theta * T::from(0.5)).sin();\n            xyzw.x = omega[0] * sin_theta_half;\n            xyzw.y = omega[1] * sin_theta_half;\n            xyzw.z = omega[2] * sin_theta_half;","            let scale = (theta * T::from(0.5)).sin() / theta;\n            xyzw.x = xi[0] * scale;\n            xyzw.y = xi[1] * scale;\n            xyzw.z = xi[2] * scale;"),
("        if w < T::from(0.0) {\n            xi = -xi;\n            w = -w;\n        }","        if w < T::from(0.0) {\n            xi.iter_mut().for_each(|x| *x = -*x);\n            w = -w;\n        }"),
("            let b = (theta - theta.sin()) / (theta * theta2);","            let b = (T::from(1.0) - theta.sin() / theta) / theta2;"),
("        Matrix3::identity() - hat * a + hat * hat * b","        Matrix3::identity() + (hat * b - Matrix3::identity() * a) * hat"))
# residuals
e("src/residuals/between.rs",
("        v1.compose(&delta).ominus(&v2)","        let predicted = v1.compose(&delta);\n        v2.inverse().compose(&predicted).log()")) if False else None
e("src/residuals/prior.rs",
("        Self::V1::dual_convert::<T>(&self.prior).ominus(&v)","        let prior = Self::V1::dual_convert::<T>(&self.prior);\n        prior.ominus(&v)"))
e("src/variables/traits.rs",
("#[derive","#[derive") if False else ("pub trait","pub trait"))
# optimisers
e("src/optimizers/gauss_newton.rs",
("""        let delta = self
            .solver
            .solve_lst_sq(j.as_ref(), r.as_ref())
            .as_ref()
            .into_nalgebra()
            .column(0)
            .clone_owned();
""","""        let solution = self.solver.solve_lst_sq(j.as_ref(), r.as_ref());
        let delta = crate::linalg::VectorX::from_iterator(
            solution.nrows(),
            (0..solution.nrows()).map(|i| solution.read(i, 0)),
        );
"""),
("        values.oplus_mut(&dx);\n\n        self.observers.notify(&values, idx);\n","        values.oplus_mut(&dx);\n        self.observers.notify(&values, idx);\n"))
e("src/optimizers/traits.rs",
("        let mut error_new = error_old;\n        for i in 1..self.params().max_iterations + 1 {\n            error_old = error_new;\n            values = self.step(values, i)?;","        let iterations = self.params().max_iterations;\n        for i in 1..=iterations {\n            values = self.step(values, i)?;"),
("            error_new = self.error(&values);","            let error_new = self.error(&values);"),
("                log::info!(\"Error decrease is below relative tolerance, stopping optimization\");\n                return Ok(values);\n            }","                log::info!(\"Error decrease is below relative tolerance, stopping optimization\");\n                return Ok(values);\n            }\n            error_old = error_new;"))
# differentiation
e("src/linalg/forward_prop.rs",
("""                let n = VectorDim::<N>::zeros().shape_generic().0;
                let eps1 = MatrixDim::<Dyn, N>::from_rows(
                    res.map(|r| r.eps.unwrap_generic(n, Const::<1>).transpose())
                        .as_slice(),
                );

                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                eps.copy_from(&eps1);
""","""                let n = VectorDim::<N>::zeros().shape_generic().0;
                let mut eps = MatrixX::zeros(res.len(), N::USIZE);
                for (i, r) in res.iter().enumerate() {
                    let row: VectorDim<N> = r.eps.clone().unwrap_generic(n, Const::<1>);
                    for j in 0..N::USIZE {
                        eps[(i, j)] = row[j];
                    }
                }
"""),
("    AllocatorBuffer, Diff, MatrixDim,","    AllocatorBuffer, Diff,"),("DimName, Dyn, MatrixX","DimName, MatrixX"))
# rerun
f="src/rerun.rs"; t=open(R+f).read()
t=re.sub(r"""        let mut points = Vec::new\(\);

        for (\w+) in iter \{
            let this: (Vec\dD) = \w+\.into\(\);
            points\.push\(this\);
        \}

        (Points\dD)::new\(points\)""",r"        \3::new(iter.into_iter().map(\2::from))",t)
t=t.replace("        let mat = so3.to_matrix().map(|x| x as f32);\n","        let mat = so3.to_matrix().cast::<f32>();\n") if False else t
open(R+f,'w').write(t)
# symbols
e("src/containers/symbol.rs",
("        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)","        let chr = char::from_u32((key.0 >> IDX_BITS) as u32)"),
("const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;\nconst IDX_MASK: u64 = !CHR_MASK;","const IDX_MASK: u64 = (1u64 << IDX_BITS) - 1;"),
("        Key((sym.chr as u64) << IDX_BITS | sym.idx & IDX_MASK)","        Key(((sym.chr as u64) << IDX_BITS) + (sym.idx & IDX_MASK))"))
