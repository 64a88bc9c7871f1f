//! C23: conversions to the viewer's types keep geometry (built with the `rerun` feature).
#[cfg(not(feature = "rerun"))]
fn main() {}

#[cfg(feature = "rerun")]
fn main() {
    imp::main()
}

#[cfg(feature = "rerun")]
mod imp {
    use factrs::{
        containers::Values,
        optimizers::OptObserver,
        variables::{VectorVar2, VectorVar3, SE2, SE3, SO2, SO3},
    };
    use harness::{engine::*, ensure, funcs::gen_point, geom::*, note, res::{gen_keys, raw}, vars::*, world::gen_any};
    use rerun::{components::*, Arrows2D, Arrows3D, Points2D, Points3D, Rotation3D, Transform3D, Vec2D, Vec3D};

    fn point<T: Var>(g: &mut Gen) -> T {
        if g.bool() {
            gen_point(g)
        } else {
            // as far out as single precision still makes sense
            let s = g.logu(1e-3, 1e8);
            let rot = gen_rotvec(g, false);
            let tr: Vec<f64> = (0..6).map(|_| g.sym(s)).collect();
            T::make(&rot[..T::ROT], &tr[..T::N - T::ROT])
        }
    }
    fn f(x: &[f32]) -> Vec<f64> {
        x.iter().map(|x| *x as f64).collect()
    }
    fn near(a: &[f64], b: &[f64]) -> bool {
        let s = 1.0 + maxabs(b.iter());
        vdiff(a, b) <= 3e-7 * s
    }
    /// translation column of the matrix
    fn pos(m: &M, n: usize) -> Vec<f64> {
        (0..n).map(|i| m[(i, n)]).collect()
    }
    fn axes(m: &M, n: usize) -> Vec<Vec<f64>> {
        (0..n).map(|j| (0..n).map(|i| m[(i, j)]).collect()).collect()
    }
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (got, want): (Vec<Vec<f64>>, Vec<Vec<f64>>) = ($got, $want);
            ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| near(a, b)), "{}: {:?} instead of {:?}", $what, got, want);
        }};
    }
    fn p2(p: &Points2D) -> Vec<Vec<f64>> {
        p.positions.iter().map(|x| f(&x.0 .0)).collect()
    }
    fn p3(p: &Points3D) -> Vec<Vec<f64>> {
        p.positions.iter().map(|x| f(&x.0 .0)).collect()
    }
    fn a2(p: &Arrows2D) -> (Vec<Vec<f64>>, Option<Vec<Vec<f64>>>) {
        (p.vectors.iter().map(|x| f(&x.0 .0)).collect(), p.origins.as_ref().map(|o| o.iter().map(|x| f(&x.0 .0)).collect()))
    }
    fn a3(p: &Arrows3D) -> (Vec<Vec<f64>>, Option<Vec<Vec<f64>>>) {
        (p.vectors.iter().map(|x| f(&x.0 .0)).collect(), p.origins.as_ref().map(|o| o.iter().map(|x| f(&x.0 .0)).collect()))
    }
    fn rot_of(r: &Rotation3D) -> Option<M> {
        match r {
            Rotation3D::Quaternion(q) => {
                let q = f(&q.0.xyzw());
                let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                if (n - 1.0).abs() > 1e-5 {
                    return None;
                }
                let q: Vec<f64> = q.iter().map(|x| x / n).collect();
                let m = quat_to_mat(&q);
                Some(M::from_fn(3, 3, |i, j| m[(i, j)]))
            }
            Rotation3D::AxisAngle(a) => {
                let ax = f(&a.0.axis.0);
                let t = a.0.angle.radians() as f64;
                let m = rot3(&[ax[0] * t, ax[1] * t, ax[2] * t]);
                Some(M::from_fn(3, 3, |i, j| m[(i, j)]))
            }
        }
    }
    fn rep(p: Vec<f64>, n: usize) -> Vec<Vec<f64>> {
        vec![p; n]
    }

    fn single(g: &mut Gen) -> Outcome {
        let owned = g.bool();
        macro_rules! conv { ($x:expr, $t:ty) => { if owned { <$t>::from($x.clone()) } else { <$t>::from(&$x) } } }
        match g.below(6) {
            0 => {
                let x: VectorVar2 = point(g);
                note!(g, "{}", x.show());
                let w = vec![x[0], x[1]];
                same!("Vec2D", vec![f(&conv!(x, Vec2D).0)], vec![w.clone()]);
                same!("Points2D", p2(&conv!(x, Points2D)), vec![w]);
                g.class("VectorVar2");
            }
            1 => {
                let x: VectorVar3 = point(g);
                note!(g, "{}", x.show());
                let w = vec![x[0], x[1], x[2]];
                same!("Vec3D", vec![f(&conv!(x, Vec3D).0)], vec![w.clone()]);
                same!("Points3D", p3(&conv!(x, Points3D)), vec![w]);
                g.class("VectorVar3");
            }
            2 => {
                let x: SO2 = point(g);
                note!(g, "{}", x.show());
                let (v, _) = a2(&conv!(x, Arrows2D));
                same!("Arrows2D", v, axes(&x.mat(), 2));
                g.class("SO2");
            }
            3 => {
                let x: SE2 = point(g);
                note!(g, "{}", x.show());
                let m = x.mat();
                let p = pos(&m, 2);
                let (v, o) = a2(&conv!(x, Arrows2D));
                same!("Arrows2D", v, axes(&m, 2));
                ensure!(o.is_some(), "Arrows2D of a pose has no origins");
                same!("Arrows2D origins", o.unwrap(), rep(p.clone(), 2));
                same!("Points2D", p2(&conv!(x, Points2D)), vec![p.clone()]);
                same!("Vec2D", vec![f(&conv!(x, Vec2D).0)], vec![p]);
                g.class("SE2");
            }
            4 => {
                let x: SO3 = point(g);
                note!(g, "{}", x.show());
                let m = x.mat();
                let (v, _) = a3(&conv!(x, Arrows3D));
                same!("Arrows3D", v, axes(&m, 3));
                let r = rot_of(&conv!(x, Rotation3D));
                ensure!(r.is_some(), "Rotation3D is not a unit quaternion");
                ensure!(diff(r.as_ref().unwrap(), &m) < 2e-6, "Rotation3D {} instead of {}", r.unwrap(), m);
                g.class("SO3");
            }
            _ => {
                let x: SE3 = point(g);
                note!(g, "{}", x.show());
                let m = x.mat();
                let p = pos(&m, 3);
                let (v, o) = a3(&conv!(x, Arrows3D));
                same!("Arrows3D", v, axes(&m, 3));
                ensure!(o.is_some(), "Arrows3D of a pose has no origins");
                same!("Arrows3D origins", o.unwrap(), rep(p.clone(), 3));
                same!("Points3D", p3(&conv!(x, Points3D)), vec![p.clone()]);
                same!("Vec3D", vec![f(&conv!(x, Vec3D).0)], vec![p.clone()]);
                let t = conv!(x, Transform3D);
                ensure!(t.translation.is_some(), "Transform3D has no translation");
                same!("Transform3D", vec![f(&t.translation.unwrap().0 .0)], vec![p]);
                ensure!(t.scale.is_none() && t.mat3x3.is_none(), "Transform3D has extra parts");
                ensure!(t.relation.map_or(true, |r| r == TransformRelation::ParentFromChild), "Transform3D is the inverse pose");
                let r = match (t.quaternion, t.rotation_axis_angle) {
                    (Some(q), None) => rot_of(&Rotation3D::Quaternion(q)),
                    (None, Some(a)) => rot_of(&Rotation3D::AxisAngle(a)),
                    _ => None,
                };
                ensure!(r.is_some(), "Transform3D has no valid rotation");
                let want = m.view((0, 0), (3, 3)).into_owned();
                ensure!(diff(r.as_ref().unwrap(), &want) < 2e-6, "Transform3D rotation {} instead of {}", r.unwrap(), want);
                g.class("SE3");
            }
        }
        Ok(true)
    }

    fn collection(g: &mut Gen) -> Outcome {
        let n = if g.chance(1, 50) { g.range(7, 120) } else { g.range(0, 6) };
        match g.below(4) {
            0 => {
                let xs: Vec<VectorVar2> = (0..n).map(|_| point(g)).collect();
                same!("Points2D", p2(&xs.iter().collect::<Points2D>()), xs.iter().map(|x| vec![x[0], x[1]]).collect());
            }
            1 => {
                let xs: Vec<VectorVar3> = (0..n).map(|_| point(g)).collect();
                same!("Points3D", p3(&xs.iter().collect::<Points3D>()), xs.iter().map(|x| vec![x[0], x[1], x[2]]).collect());
            }
            2 => {
                let xs: Vec<SE2> = (0..n).map(|_| point(g)).collect();
                let ps: Vec<Vec<f64>> = xs.iter().map(|x| pos(&x.mat(), 2)).collect();
                same!("Points2D", p2(&xs.iter().collect::<Points2D>()), ps.clone());
                let (v, o) = a2(&xs.iter().collect::<Arrows2D>());
                same!("Arrows2D", v, xs.iter().flat_map(|x| axes(&x.mat(), 2)).collect());
                same!("Arrows2D origins", o.unwrap_or_default(), ps.iter().flat_map(|p| rep(p.clone(), 2)).collect());
            }
            _ => {
                let xs: Vec<SE3> = (0..n).map(|_| point(g)).collect();
                let ps: Vec<Vec<f64>> = xs.iter().map(|x| pos(&x.mat(), 3)).collect();
                same!("Points3D", p3(&xs.iter().collect::<Points3D>()), ps.clone());
                let (v, o) = a3(&xs.iter().collect::<Arrows3D>());
                same!("Arrows3D", v, xs.iter().flat_map(|x| axes(&x.mat(), 3)).collect());
                same!("Arrows3D origins", o.unwrap_or_default(), ps.iter().flat_map(|p| rep(p.clone(), 3)).collect());
            }
        }
        Ok(n >= 2)
    }

    /// the observer logs every value of the requested type, at the step's time, under its topic
    fn observer(g: &mut Gen) -> Outcome {
        g.hash_order();
        let n = if g.chance(1, 30) { g.range(6, 60) } else { g.range(0, 5) };
        let others = g.range(0, 3);
        let keys = gen_keys(g, n + others);
        let three = g.bool();
        let mut v = Values::new();
        let mut want: Vec<Vec<f64>> = vec![];
        for k in &keys[n..] {
            let x = gen_any(g);
            if three && x.name() == "SE3" {
                want.push(pos(&x.mat(), 3));
            }
            if !three && x.name() == "SE2" {
                want.push(pos(&x.mat(), 2));
            }
            x.insert(&mut v, *k);
        }
        for k in &keys[..n] {
            if three {
                let x: SE3 = point(g);
                want.push(pos(&x.mat(), 3));
                v.insert_unchecked(raw(*k), x);
            } else {
                let x: SE2 = point(g);
                want.push(pos(&x.mat(), 2));
                v.insert_unchecked(raw(*k), x);
            }
        }
        let steps = g.range(1, 3);
        let (rec, store) = rerun::RecordingStreamBuilder::new("check").memory().map_err(|e| format!("recording: {e}"))?;
        let times: Vec<f64> = (0..steps).map(|_| g.below(50) as f64 * 0.5).collect();
        if three {
            let o: factrs::rerun::RerunObserver<SE3, Points3D> = factrs::rerun::RerunObserver::new(rec.clone(), "a/topic");
            times.iter().for_each(|t| o.on_step(&v, *t));
        } else {
            let o: factrs::rerun::RerunObserver<SE2, Points2D> = factrs::rerun::RerunObserver::new(rec.clone(), "a/topic");
            times.iter().for_each(|t| o.on_step(&v, *t));
        }
        rec.flush_blocking();
        let mut got_times = vec![];
        let mut rows = vec![];
        for msg in store.take() {
            let rerun::log::LogMsg::ArrowMsg(_, a) = msg else { continue };
            let chunk = rerun::log::Chunk::from_arrow_msg(&a).map_err(|e| format!("chunk: {e}"))?;
            if chunk.entity_path().to_string() != "/a/topic" {
                continue;
            }
            for (t, c) in chunk.timelines() {
                if t.name().as_str() == "stable_time" {
                    got_times.extend(c.times().map(|x| x.as_i64() as f64 * 1e-9));
                }
            }
            if three {
                for r in chunk.iter_component::<Position3D>() {
                    rows.push(r.as_slice().iter().map(|x| f(&x.0 .0)).collect::<Vec<_>>());
                }
            } else {
                for r in chunk.iter_component::<Position2D>() {
                    rows.push(r.as_slice().iter().map(|x| f(&x.0 .0)).collect::<Vec<_>>());
                }
            }
        }
        note!(g, "{} poses, steps at {:?}", want.len(), times);
        let mut ts = times.clone();
        ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        got_times.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ensure!(vdiff(&ts, &got_times) < 1e-6, "logged at times {:?} instead of {:?}", got_times, ts);
        ensure!(rows.len() == steps, "{} rows logged for {} steps", rows.len(), steps);
        for r in rows {
            ensure!(r.len() == want.len(), "{} positions logged, {} poses of the type stored", r.len(), want.len());
            let mut left = r.clone();
            for w in &want {
                let i = left.iter().position(|x| near(x, w));
                ensure!(i.is_some(), "pose at {:?} was not logged (logged {:?})", w, r);
                left.remove(i.unwrap());
            }
        }
        Ok(want.len() >= 2)
    }

    pub fn main() {
        harness::engine::main(Property {
            id: "C23",
            rule: "collections and observers: at least two elements; single conversions always",
            assumptions: &["values within the range where single precision is meaningful (up to 1e8)"],
            subs: vec![sub("single", 60000, single), sub("collection", 30000, collection), Sub { name: "observer", quick: 400, thorough_mult: 10, f: observer }],
        });
    }
}
