//! C19: a loaded g2o file is the problem the file describes.
use factrs::{
    containers::{Graph, Key, Values},
    linalg::Vector3,
    utils::load_g20,
    variables::{SE2, SE3, SO3},
};
use harness::{engine::*, ensure, geom::*, note, vars::*};
use nalgebra::Matrix3;

fn key(id: u64) -> Key {
    factrs::utils::X(id).into()
}
#[derive(Clone)]
struct Pose {
    /// rotation-first tangent size 3 or 6
    dim: usize,
    mat: M,
}
impl Pose {
    fn se2(x: f64, y: f64, t: f64) -> Pose {
        let (s, c) = t.sin_cos();
        Pose { dim: 3, mat: M::from_row_slice(3, 3, &[c, -s, x, s, c, y, 0.0, 0.0, 1.0]) }
    }
    fn se3(t: &[f64], q: &[f64]) -> Pose {
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        let q: Vec<f64> = q.iter().map(|x| x / n).collect();
        let mut m = M::identity(4, 4);
        let r: Matrix3<f64> = quat_to_mat(&q);
        m.view_mut((0, 0), (3, 3)).copy_from(&r);
        for i in 0..3 {
            m[(i, 3)] = t[i];
        }
        Pose { dim: 6, mat: m }
    }
    /// logarithm in the file's coordinate order (translation, then rotation)
    fn log(m: &M, dim: usize) -> V {
        if dim == 3 {
            let l = SE2::from_mat_ref(m).log_ref();
            V::from_row_slice(&[l[1], l[2], l[0]])
        } else {
            let l = SE3::from_mat_ref(m).log_ref();
            V::from_row_slice(&[l[3], l[4], l[5], l[0], l[1], l[2]])
        }
    }
    fn insert(&self, v: &mut Values, k: Key) {
        if self.dim == 3 {
            let m = &self.mat;
            v.insert_unchecked(harness::res::raw(k), SE2::new(m[(1, 0)].atan2(m[(0, 0)]), m[(0, 2)], m[(1, 2)]));
        } else {
            let m = &self.mat;
            let r = Matrix3::from_fn(|i, j| m[(i, j)]);
            let q = mat_to_quat(&r);
            v.insert_unchecked(harness::res::raw(k), SE3::from_rot_trans(SO3::from_xyzw(q[0], q[1], q[2], q[3]), Vector3::new(m[(0, 3)], m[(1, 3)], m[(2, 3)])));
        }
    }
    fn fetch(v: &Values, k: Key, dim: usize) -> Option<M> {
        if dim == 3 {
            v.get_unchecked::<_, SE2>(harness::res::raw(k)).map(|x| x.mat())
        } else {
            v.get_unchecked::<_, SE3>(harness::res::raw(k)).map(|x| x.mat())
        }
    }
}
struct Edge {
    a: usize,
    b: usize,
    z: Pose,
    /// information in the file's order
    inf: M,
}

/// print a number some way a g2o writer may print it; returns the value the text denotes
fn num(g: &mut Gen, x: f64, out: &mut Vec<String>) -> f64 {
    let s = match g.below(6) {
        0 | 1 => format!("{x}"),
        2 => format!("{x:e}"),
        3 => format!("{x:.17}"),
        4 => format!("{x:E}"),
        _ => {
            if x == 0.0 && x.is_sign_positive() {
                "0".to_string()
            } else if x > 0.0 && g.chance(1, 4) {
                format!("+{x}")
            } else {
                format!("{x:.16}")
            }
        }
    };
    let v = s.parse().unwrap();
    out.push(s);
    v
}
/// sometimes exact zeros, one of them or all
fn zeros(g: &mut Gen, x: f64, y: f64, t: f64) -> (f64, f64, f64) {
    match g.below(16) {
        0 => {
            g.class("identity pose");
            (0.0, 0.0, 0.0)
        }
        1 => (0.0, y, t),
        2 => (x, 0.0, t),
        3 => (x, y, 0.0),
        4 => (0.0, 0.0, t),
        _ => (x, y, t),
    }
}
fn gen_pose(g: &mut Gen, dim: usize, scale: f64, out: &mut Vec<String>) -> Pose {
    if dim == 3 {
        let (x, y) = (g.sym(scale), g.sym(scale));
        let t = if g.chance(1, 4) { g.sym(9.0) } else { g.sym(3.1) };
        let (x, y, t) = zeros(g, x, y, t);
        let (x, y, t) = (num(g, x, out), num(g, y, out), num(g, t, out));
        Pose::se2(x, y, t)
    } else {
        let t: Vec<f64> = (0..3).map(|_| g.sym(scale)).collect();
        let (a, b, c) = zeros(g, t[0], t[1], t[2]);
        let still = a == 0.0 && b == 0.0 && c == 0.0;
        let t = vec![a, b, c];
        let ang = match g.below(6) {
            0 => 0.0,
            _ if still => 0.0,
            1 => g.logu(1e-6, 1e-1),
            _ => g.uniform(0.1, 3.0),
        };
        let ax = gen_axis(g);
        let mut q = quat(&[ax[0] * ang, ax[1] * ang, ax[2] * ang]);
        if g.bool() {
            q.iter_mut().for_each(|x| *x = -*x);
        }
        let t: Vec<f64> = t.into_iter().map(|x| num(g, x, out)).collect();
        let q: Vec<f64> = q.into_iter().map(|x| num(g, x, out)).collect();
        Pose::se3(&t, &q)
    }
}
/// upper triangle, row by row
fn gen_info(g: &mut Gen, n: usize, out: &mut Vec<String>) -> M {
    let m = match g.below(5) {
        0 => M::identity(n, n),
        1 if g.chance(1, 3) => M::from_diagonal(&V::from_iterator(n, (0..n).map(|_| g.logu(1e-6, 1e10)))),
        1 => M::from_diagonal(&V::from_iterator(n, (0..n).map(|_| g.logu(0.1, 1e4)))),
        2 if g.chance(1, 3) => {
            let s = g.logu(1e-5, 1e9);
            gen_spd(g, n, 0.05, 5.0) * s
        }
        _ => {
            let s = g.logu(0.1, 1e3);
            gen_spd(g, n, 0.05, 5.0) * s
        }
    };
    let mut r = M::zeros(n, n);
    for i in 0..n {
        for j in i..n {
            let x = num(g, m[(i, j)], out);
            r[(i, j)] = x;
            r[(j, i)] = x;
        }
    }
    r
}
const NOISE_LINES: &[&str] = &[
    "",
    "   ",
    "# a comment",
    "FIX 0",
    "VERTEX_XY 3 1.0 2.0",
    "VERTEX_TRACKXYZ 7 1 2 3",
    "EDGE_SE2_XY 0 3 1 2 1 0 1",
    "EDGE_SE3_TRACKXYZ 0 7 0 1 2 3 1 0 0 1 0 1",
    "PARAMS_SE3OFFSET 0 0 0 0 0 0 0 1",
    "VERTEX_SE2:OTHER 0 9 9 9",
    "EDGE_SE2X 0 1 9 9 9 1 0 0 1 0 1",
    "VERTEX_SE3 0 1 2 3 4 5 6",
    "x",
];

fn load(text: &str) -> (Graph, Values) {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let id = format!("{:?}", std::thread::current().id()).chars().filter(|c| c.is_ascii_digit()).collect::<String>();
    let _ = std::fs::create_dir_all(format!("{dir}/out"));
    let path = format!("{dir}/out/c19-{}-{}.g2o", std::process::id(), id);
    std::fs::write(&path, text).expect("scratch file");
    let r = no_panic(|| load_g20(&path));
    let _ = std::fs::remove_file(&path);
    match r {
        Ok(x) => x,
        Err(e) => panic!("loading: {e}"),
    }
}

fn case(g: &mut Gen) -> Outcome {
    g.hash_order();
    let dim = if g.bool() { 6 } else { 3 };
    g.class(if dim == 3 { "2D" } else { "3D" });
    let big = g.chance(1, 60);
    let nv = if big { g.range(8, 80) } else { g.range(1, 7) };
    let scale = g.logu(0.5, 200.0);
    let (vtag, etag) = if dim == 3 { ("VERTEX_SE2", "EDGE_SE2") } else { ("VERTEX_SE3:QUAT", "EDGE_SE3:QUAT") };
    // ids: consecutive, gaps, or arbitrary
    let style = g.below(4);
    let base = g.below(50);
    let mut ids: Vec<u64> = (0..nv as u64)
        .map(|i| match style {
            0 => i,
            1 => base + 3 * i,
            2 => base + i,
            _ if nv <= 8 => i * 500_000_000 + base,
            _ => i * 50_000_000 + base,
        })
        .collect();
    if g.chance(1, 3) {
        g.class("vertices out of order");
        g.shuffle(&mut ids);
    }
    let mut vlines = vec![];
    let mut verts = vec![];
    for id in &ids {
        let mut p = vec![vtag.to_string(), id.to_string()];
        verts.push(gen_pose(g, dim, scale, &mut p));
        vlines.push(p);
    }
    let ne = if nv == 1 { 0 } else { g.range(0, if big { 120 } else { 8 }) };
    let mut elines = vec![];
    let mut edges = vec![];
    for _ in 0..ne {
        let a = g.below(nv as u64) as usize;
        let b = (a + 1 + g.below(nv as u64 - 1) as usize) % nv;
        let mut p = vec![etag.to_string(), ids[a].to_string(), ids[b].to_string()];
        let z = gen_pose(g, dim, scale, &mut p);
        let inf = gen_info(g, dim, &mut p);
        elines.push(p);
        edges.push(Edge { a, b, z, inf });
    }
    // measurements repeated word for word still count once each
    let mut ne = ne;
    if ne > 0 && g.chance(1, 6) {
        g.class("repeated edge");
        for _ in 0..g.range(1, 3) {
            let k = g.below(elines.len() as u64) as usize;
            let at = if g.bool() { k + 1 } else { elines.len() };
            let (l, e) = (elines[k].clone(), Edge { a: edges[k].a, b: edges[k].b, z: edges[k].z.clone(), inf: edges[k].inf.clone() });
            elines.insert(at, l);
            edges.insert(at, e);
            ne += 1;
        }
    }
    // arrange the lines; the vertices keep their relative order
    let mut text: Vec<Vec<String>> = vec![];
    match g.below(4) {
        0 => {
            text.extend(vlines);
            text.extend(elines);
        }
        1 => {
            g.class("edges first");
            text.extend(elines);
            text.extend(vlines);
        }
        _ => {
            g.class("interleaved");
            let (mut v, mut e) = (vlines.into_iter().peekable(), elines.into_iter().peekable());
            while v.peek().is_some() || e.peek().is_some() {
                let take_v = if v.peek().is_none() { false } else { e.peek().is_none() || g.bool() };
                text.push(if take_v { v.next().unwrap() } else { e.next().unwrap() });
            }
        }
    }
    let wide = g.chance(1, 3);
    if wide {
        g.class("irregular spacing");
    }
    let mut file = String::new();
    for l in &text {
        if g.chance(1, 4) {
            file += NOISE_LINES[g.below(NOISE_LINES.len() as u64) as usize];
            file += "\n";
        }
        if wide {
            for (i, w) in l.iter().enumerate() {
                if i > 0 || g.chance(1, 5) {
                    file += *g.pick(&[" ", "  ", "\t", "   "]);
                }
                file += w;
            }
            if g.bool() {
                file += " ";
            }
        } else {
            file += &l.join(" ");
        }
        file += if g.chance(1, 6) { "\r\n" } else { "\n" };
    }
    if g.chance(1, 5) {
        // no newline at the end
        file.pop();
    }
    note!(g, "{}", file.replace('\t', "\\t").replace('\r', "\\r"));

    let (graph, values) = load(&file);
    ensure!(values.len() == nv, "{} vertices in the file, {} loaded", nv, values.len());
    ensure!(graph.len() == ne + 1, "{} edges in the file, {} factors loaded (expected the edges and one prior)", ne, graph.len());
    for (id, p) in ids.iter().zip(&verts) {
        let got = Pose::fetch(&values, key(*id), dim);
        ensure!(got.is_some(), "no pose loaded under index {id}");
        let d = diff(got.as_ref().unwrap(), &p.mat);
        ensure!(d <= 1e-9 * (1.0 + scale), "vertex {id} loaded as {} instead of {}", got.unwrap(), p.mat);
    }

    // the error at the file's vertices and at other values
    for round in 0..3 {
        let mut at = verts.clone();
        if round > 0 {
            for p in at.iter_mut() {
                let mut dummy = vec![];
                *p = gen_pose(g, dim, scale, &mut dummy);
            }
            if g.bool() {
                // nothing from the prior, whose information dominates
                at[0] = verts[0].clone();
            }
            if round == 2 {
                // near the edges' predictions: small residuals
                for e in &edges {
                    at[e.b] = Pose { dim, mat: &at[e.a].mat * &e.z.mat };
                }
            }
        }
        let mut want = 0.0;
        let mut size = 1e-6;
        let mut conds = 1.0;
        let mut edgy = false;
        let mut small = false;
        let mut add = |r: V, inf: &M| {
            let q = (r.transpose() * inf * &r)[(0, 0)];
            want += 0.5 * q;
            let lm = maxabs(inf.iter()) * dim as f64;
            // the residual itself is known to about 1e-12 of the translations involved
            size += lm * (r.norm() + 1e-9 * (1.0 + scale)) * (1.0 + scale) * 10.0;
            conds += 0.0;
            let ang = if dim == 3 { r[2].abs() } else { (r[3] * r[3] + r[4] * r[4] + r[5] * r[5]).sqrt() };
            if ang > 3.12 {
                edgy = true;
            }
            small |= ang > 0.0 && ang < 0.05;
        };
        let prior_inf = if dim == 3 { M::identity(3, 3) } else { M::from_diagonal(&V::from_row_slice(&[1e4, 1e4, 1e4, 1e6, 1e6, 1e6])) };
        add(Pose::log(&(at[0].mat.clone().try_inverse().unwrap() * &verts[0].mat), dim), &prior_inf);
        for e in &edges {
            let m = at[e.b].mat.clone().try_inverse().unwrap() * &at[e.a].mat * &e.z.mat;
            add(Pose::log(&m, dim), &e.inf);
        }
        if edgy {
            continue; // a rotation mismatch next to pi has two logarithms
        }
        let mut v = Values::new();
        for (id, p) in ids.iter().zip(&at) {
            p.insert(&mut v, key(*id));
        }
        let got = graph.error(&v);
        note!(g, "round {round}: error {got} expected {want}");
        // (the logarithm's small-angle formulas are good to about 1e-8)
        let tol = if small { 1e-6 } else { 1e-9 } * want + 1e-11 * size;
        ensure!((got - want).abs() <= tol, "round {round}: the loaded graph's error is {got}, the file says {want} (tolerance {tol:e})");
    }
    Ok(ne >= 1)
}

/// long files, made from a few drawn numbers: vertices on a dyadic grid, edges between neighbours
fn long(g: &mut Gen) -> Outcome {
    g.hash_order();
    let dim = if g.bool() { 6 } else { 3 };
    let (hi_v, hi_e) = *g.pick(&[(2_000.0, 2_000.0), (10.0, 80_000.0), (80_000.0, 10.0), (150_000.0, 2.0)]);
    let nv = g.logu(2.0, hi_v) as usize;
    let ne = g.logu(1.0, hi_e) as usize;
    let seed = g.u64();
    let h = |i: u64| {
        let mut s = seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        splitmix(&mut s)
    };
    let junk = g.chance(1, 3);
    let pos = |i: u64| [((h(i) % 64) as f64) / 8.0, ((h(i) >> 8) % 64) as f64 / 8.0, ((h(i) >> 16) % 64) as f64 / 8.0];
    let mut text = String::new();
    for i in 0..nv as u64 {
        let p = pos(i);
        text += &if dim == 3 { format!("VERTEX_SE2 {i} {} {} 0\n", p[0], p[1]) } else { format!("VERTEX_SE3:QUAT {i} {} {} {} 0 0 0 1\n", p[0], p[1], p[2]) };
        if junk && h(i) % 5 == 0 {
            text += "# nothing\n";
        }
    }
    let mut want = 0.0;
    for k in 0..ne as u64 {
        let i = h(k ^ 0x5555) % nv as u64;
        let j = (i + 1) % nv as u64;
        let z = pos(k ^ 0x3333_3333);
        let (a, b) = (pos(i), pos(j));
        let n = if dim == 3 { 2 } else { 3 };
        want += 0.5 * (0..n).map(|c| 4.0 * (a[c] + z[c] - b[c]).powi(2)).sum::<f64>();
        text += &if dim == 3 {
            format!("EDGE_SE2 {i} {j} {} {} 0 4 0 0 4 0 4\n", z[0], z[1])
        } else {
            format!("EDGE_SE3:QUAT {i} {j} {} {} {} 0 0 0 1 4 0 0 0 0 0 4 0 0 0 0 4 0 0 0 4 0 0 4 0 4\n", z[0], z[1], z[2])
        };
    }
    let lines = text.lines().count();
    note!(g, "{nv} vertices, {ne} edges, {lines} lines");
    let (graph, values) = load(&text);
    ensure!(values.len() == nv, "{nv} vertices in a file of {lines} lines, {} loaded", values.len());
    ensure!(graph.len() == ne + 1, "{ne} edges in a file of {lines} lines, {} factors loaded (expected the edges and one prior)", graph.len());
    for i in 0..nv as u64 {
        let p = pos(i);
        let m = Pose::fetch(&values, key(i), dim).ok_or_else(|| format!("no pose loaded under index {i}"))?;
        let c = if dim == 3 { 2 } else { 3 };
        ensure!((0..c).all(|k| m[(k, c)] == p[k]), "vertex {i} of {nv} loaded as {m}");
    }
    let got = graph.error(&values);
    ensure!((got - want).abs() <= 1e-12 * want * (1.0 + 1e-3 * ne as f64), "the loaded graph's error is {got}, the file of {lines} lines says {want}");
    g.class(if lines > 65535 { "more than 65535 lines" } else if lines > 4096 { "more than 4096 lines" } else { "shorter" });
    Ok(true)
}

fn main() {
    mute_library();
    harness::engine::main(Property {
        id: "C19",
        rule: "the file has at least one edge; the error is compared at the file's vertices, at other random poses and at poses close to the edges' predictions",
        assumptions: &["files are syntactically well formed (each known line has all its numeric fields, information matrices are positive definite, indices below 2^32)", "quaternions are normalised to the printed precision", "comparisons with a rotation mismatch within 0.02 of pi are skipped"],
        subs: vec![sub("file", 60000, case), sub("long", 60, long)],
    });
}
