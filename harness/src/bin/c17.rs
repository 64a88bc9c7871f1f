//! C17: the value store against a map.
use ahash::HashMap;
use factrs::{
    containers::{Idx, Key, Symbol, Values, ValuesOrder},
    linear::LinearValues,
    variables::VariableSafe,
};
use harness::{engine::*, ensure, funcs::Scaled, geom::*, note, res::*, world::*};
use std::collections::{hash_map::Entry, BTreeMap};

type Model = BTreeMap<u64, AnyVar>;

fn same(a: &AnyVar, b: &AnyVar) -> bool {
    a.name() == b.name() && diff(&a.mat(), &b.mat()) == 0.0
}
fn same_opt(a: &Option<AnyVar>, b: &Option<AnyVar>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
fn show(a: &Option<AnyVar>) -> String {
    a.as_ref().map_or("None".into(), |x| x.show())
}
/// everything observable about the store
fn agree(v: &Values, m: &Model, keys: &[Key]) -> Result<(), String> {
    ensure!(v.len() == m.len() && v.is_empty() == m.is_empty(), "store has {} entries (empty: {}), the map {}", v.len(), v.is_empty(), m.len());
    for k in keys {
        let want = m.get(&k.0);
        match want {
            Some(x) => {
                let got = x.fetch(v, *k);
                ensure!(got.as_ref().map_or(false, |y| same(x, y)), "{k:?} reads {} but holds {}", show(&got), x.show());
                let got = x.fetch_typed(v, *k);
                ensure!(got.as_ref().map_or(false, |y| same(x, y)), "{k:?} (typed) reads {} but holds {}", show(&got), x.show());
            }
            None => ensure!(v.get_unchecked::<_, Scaled>(raw(*k)).is_none() && v.get_unchecked::<_, factrs::variables::SE3>(raw(*k)).is_none(), "{k:?} is not in the map but can be read"),
        }
    }
    let mut seen: Vec<u64> = vec![];
    for (k, b) in v.iter() {
        let x = AnyVar::of(b.as_ref());
        ensure!(m.get(&k.0).map_or(false, |y| same(&x, y)), "iteration gives {k:?}: {}", x.show());
        ensure!(b.dim() == x.dim(), "{k:?}: dimension {} of a {}", b.dim(), x.name());
        seen.push(k.0);
    }
    seen.sort();
    ensure!(seen == m.keys().copied().collect::<Vec<_>>(), "iteration visits {} keys of {}", seen.len(), m.len());
    let order = ValuesOrder::from_values(v);
    let dim: usize = m.values().map(|x| x.dim()).sum();
    ensure!(order.len() == m.len() && order.dim() == dim, "ordering of {} keys, dimension {}; the map has {} and {dim}", order.len(), order.dim(), m.len());
    let mut used = vec![false; dim];
    for (k, x) in m {
        let i = order.get(Key(*k)).ok_or("key missing from the ordering")?;
        ensure!(i.dim == x.dim() && i.idx + i.dim <= dim, "ordering gives {i:?} for a {}", x.name());
        for c in i.idx..i.idx + i.dim {
            ensure!(!used[c], "column {c} is used twice");
            used[c] = true;
        }
    }
    Ok(())
}
fn filters(v: &Values, m: &Model, probe: &AnyVar) -> Result<(), String> {
    let got = probe.filtered(v);
    let want: Vec<&AnyVar> = m.values().filter(|x| x.name() == probe.name()).collect();
    ensure!(got.len() == want.len(), "filtering by {} gives {} of {}", probe.name(), got.len(), want.len());
    let mut left: Vec<&AnyVar> = want;
    for x in &got {
        let i = left.iter().position(|y| same(x, y)).ok_or(format!("filtering by {} gives {}", probe.name(), x.show()))?;
        left.remove(i);
    }
    Ok(())
}

fn history(g: &mut Gen) -> Outcome {
    g.ordinary = g.bool();
    g.hash_order();
    let big = g.chance(1, 100);
    let nk = if big { g.range(30, 150) } else { g.range(1, 8) };
    let keys = gen_keys(g, nk);
    // a few types, so that matches and mismatches both occur
    let protos: Vec<AnyVar> = (0..g.range(1, 4)).map(|_| gen_any(g)).collect();
    let mut stores: Vec<(Values, Model)> = vec![(Values::new(), Model::new())];
    let n = if big { g.range(100, 400) } else { g.range(1, 40) };
    let mut mismatched = 0;
    let mut removed = 0;
    for step in 0..n {
        let s = g.below(stores.len() as u64) as usize;
        let k = *g.pick(&keys);
        let p = {
            let q = g.pick(&protos).clone();
            q.another(g, 2.5, 3.0)
        };
        let op = g.below(14);
        let (v, m) = &mut stores[s];
        let has = m.get(&k.0).cloned();
        // now and then what is already there, or something next to it
        let p = match &has {
            Some(x) if g.chance(1, 8) => x.clone(),
            Some(x) if g.chance(1, 8) => {
                let d: Vec<f64> = x.tangent(g, 1.0, 1.0).iter().map(|t| t * 1e-9).collect();
                x.retract(&d)
            }
            _ => p,
        };
        let matching = has.as_ref().map_or(false, |x| x.name() == p.name());
        match op {
            0..=3 => {
                let un = op % 2 == 0;
                note!(g, "{step}: store {s} insert{} {k:?} {}", if un { "_unchecked" } else { "" }, p.show());
                let old = p.insert_kind(v, k, un);
                let want = m.insert(k.0, p);
                ensure!(same_opt(&old, &want), "insert returned {} instead of the replaced {}", show(&old), show(&want));
            }
            4 => {
                note!(g, "{step}: store {s} get {k:?} as {}", p.name());
                let (a, b) = (p.fetch(v, k), p.fetch_typed(v, k));
                let want = if matching { has.clone() } else { None };
                ensure!(same_opt(&a, &want) && same_opt(&b, &want), "reading {k:?} as {} gives {} / {}, expected {}", p.name(), show(&a), show(&b), show(&want));
                mismatched += (has.is_some() && !matching) as usize;
            }
            5 | 6 => {
                note!(g, "{step}: store {s} get_mut {k:?} = {}", p.show());
                let old = p.assign(v, k, op == 5);
                if matching {
                    ensure!(same_opt(&old, &has), "mutable access gave {} instead of {}", show(&old), show(&has));
                    m.insert(k.0, p);
                } else {
                    ensure!(old.is_none(), "mutable access as {} gave {} but {k:?} holds {}", p.name(), show(&old), show(&has));
                    mismatched += has.is_some() as usize;
                }
            }
            7 | 8 => {
                note!(g, "{step}: store {s} remove {k:?} as {} (holds {})", p.name(), show(&has));
                let old = p.remove(v, k);
                if matching {
                    ensure!(same_opt(&old, &has), "remove returned {} instead of {}", show(&old), show(&has));
                    m.remove(&k.0);
                    removed += 1;
                } else {
                    ensure!(old.is_none(), "removing {k:?} as {} returned {}", p.name(), show(&old));
                    mismatched += has.is_some() as usize;
                }
            }
            9 => {
                note!(g, "{step}: store {s} entry {k:?} {}", p.show());
                let how = g.below(3);
                match v.entry(raw(k)) {
                    Entry::Vacant(e) => {
                        ensure!(has.is_none(), "entry of {k:?} is vacant but the map holds {}", show(&has));
                        if how > 0 {
                            e.insert(p.boxed());
                            m.insert(k.0, p);
                        }
                    }
                    Entry::Occupied(mut e) => {
                        let x = AnyVar::of(e.get().as_ref());
                        ensure!(same_opt(&Some(x), &has), "entry of {k:?} holds something else than {}", show(&has));
                        ensure!(e.key().0 == k.0, "entry has key {:?}", e.key());
                        if how == 1 {
                            e.insert(p.boxed());
                            m.insert(k.0, p);
                        } else if how == 2 {
                            e.remove();
                            m.remove(&k.0);
                        }
                    }
                }
            }
            10 => {
                note!(g, "{step}: clone store {s}");
                let c = (v.clone(), m.clone());
                if stores.len() < 3 {
                    stores.push(c);
                }
            }
            11 => {
                // retract by an increment over some of the keys and some that are absent
                let mut cols: Vec<(Key, usize)> = vec![];
                for k in &keys {
                    match m.get(&k.0) {
                        Some(x) => {
                            if g.chance(2, 3) {
                                cols.push((*k, x.dim()));
                            }
                        }
                        None => {
                            if g.chance(1, 3) {
                                cols.push((*k, g.range(1, 6)));
                            }
                        }
                    }
                }
                if cols.is_empty() {
                    continue;
                }
                g.shuffle(&mut cols);
                let mut map: HashMap<Key, Idx> = HashMap::default();
                let mut at = 0;
                for (k, d) in &cols {
                    map.insert(*k, Idx { idx: at, dim: *d });
                    at += d;
                }
                let tiny = if g.chance(1, 4) { g.logu(1e-12, 1e-3) } else { 1.0 };
                let mut d = V::from_fn(at, |_, _| if g.chance(1, 6) { 0.0 } else { g.sym(0.7) * tiny });
                if tiny == 1.0 && g.chance(1, 8) {
                    // long way off, rotations excepted
                    let mut at = 0;
                    for (k, n) in &cols {
                        let r = m.get(&k.0).map_or(0, |x| if x.name() == "Scaled" { x.dim() } else { x.rot_dim() });
                        let far = g.logu(1.0, 1e12);
                        d.rows_mut(at + r, n - r).iter_mut().for_each(|x| *x *= far);
                        at += n;
                    }
                }
                note!(g, "{step}: store {s} oplus {:?} {:?}", cols, d.as_slice());
                let order = ValuesOrder::new(map);
                v.oplus_mut(&LinearValues::from_order_and_vector(order, d.clone()));
                let mut at = 0;
                for (k, n) in &cols {
                    if let Some(x) = m.get(&k.0) {
                        let want = x.retract(&d.as_slice()[at..at + n]);
                        let got = x.fetch(v, *k).ok_or(format!("{k:?} vanished in a retraction"))?;
                        // the library's small-angle series are good to 1e-7 of the increment
                        let tol = (1e-7 * tiny + 1e-13) * (1.0 + maxabs(want.mat().iter()));
                        ensure!(diff(&want.mat(), &got.mat()) < tol, "{k:?} is {} after the retraction, expected {}", got.show(), want.show());
                        // continue from the store's own rounding
                        m.insert(k.0, got);
                    }
                    at += n;
                }
            }
            12 => {
                // typed access through a trait object, default construction
                let fresh = Values::default();
                ensure!(fresh.is_empty() && fresh.len() == 0 && fresh.iter().next().is_none(), "a new store is not empty");
                if let Some(x) = &has {
                    let b: Box<dyn VariableSafe> = x.boxed();
                    let c = b.clone();
                    ensure!(same(&AnyVar::of(c.as_ref()), x) && c.dim() == x.dim(), "cloning a boxed variable changes it");
                }
            }
            _ => {
                note!(g, "{step}: store {s} filter by {}", p.name());
                filters(v, m, &p)?;
            }
        }
        for (i, (v, m)) in stores.iter().enumerate() {
            agree(v, m, &keys).map_err(|e| format!("after step {step}, store {i}: {e}"))?;
        }
    }
    for (v, m) in stores {
        // printing mentions every entry once
        for text in [format!("{v}"), format!("{v:?}")] {
            ensure!(m.values().all(|x| text.contains(x.text().as_str())), "a value is missing from the printed store: {text}");
        }
        let mut got: Vec<(Key, Box<dyn VariableSafe>)> = v.into_iter().collect();
        got.sort_by_key(|x| x.0 .0);
        ensure!(got.len() == m.len() && got.iter().zip(&m).all(|(a, b)| a.0 .0 == *b.0 && same(&AnyVar::of(a.1.as_ref()), b.1)), "consuming iteration differs from the map");
    }
    if mismatched > 0 {
        g.class("access with another type");
    }
    if removed > 0 {
        g.class("removal");
    }
    Ok(n > 3)
}

/// typed symbols of the user and the built-in untyped ones address the same entries
mod user {
    use factrs::variables::{SE2, SE3};
    use factrs::assign_symbols;
    assign_symbols!(X: SE2, SE3; L: SE3);
}
fn symbols(g: &mut Gen) -> Outcome {
    use factrs::variables::{SE2, SE3};
    let mut v = Values::new();
    let i = g.below(1 << 32);
    let a: SE2 = harness::funcs::gen_point(g);
    let b: SE3 = harness::funcs::gen_point(g);
    ensure!(v.insert(user::X(i), a.clone()).is_none(), "insert into an empty store returned something");
    ensure!(v.get(user::X(i)).map(|x: &SE2| diff(&harness::vars::Var::mat(x), &harness::vars::Var::mat(&a)) == 0.0) == Some(true), "typed read of X({i})");
    ensure!(v.get::<_, SE3>(user::X(i)).is_none(), "X({i}) reads as another type");
    ensure!(v.get_unchecked::<_, SE2>(factrs::symbols::X(i)).is_some(), "the built-in X({i}) is another key");
    ensure!(v.get::<_, SE3>(user::L(i)).is_none(), "L({i}) was never inserted");
    v.insert(user::L(i), b);
    ensure!(v.remove::<_, SE3>(user::X(i)).is_none(), "X({i}) was removed as SE3");
    ensure!(v.len() == 2 && v.get::<_, SE2>(user::X(i)).is_some(), "a removal with the wrong type changed the store ({} entries)", v.len());
    ensure!(v.remove::<_, SE2>(user::X(i)).is_some() && v.len() == 1, "typed removal");
    let k: Key = user::L(i).into();
    fn takes(s: impl Symbol) -> Key {
        s.into()
    }
    ensure!(v.iter().all(|(x, _)| *x == takes(user::L(i))) && k == takes(factrs::symbols::L(i)), "key of L({i})");
    Ok(true)
}

/// stores of many thousand entries
fn large(g: &mut Gen) -> Outcome {
    let w = harness::big::Big::gen(g, 20_000, 1);
    let n = w.dims.len();
    note!(g, "{n} variables");
    let mut v = w.values(g.bool());
    ensure!(v.len() == n, "{n} insertions, length {}", v.len());
    let order = ValuesOrder::from_values(&v);
    let cols = w.columns(&order)?;
    let kept = v.clone();
    let (d, lv) = w.increment(&order, 3);
    v.oplus_mut(&lv);
    // every third one removed again
    let gone = |i: usize| (i * 7 + 3) % 5 == 0;
    let mut left = 0;
    for i in 0..n {
        if gone(i) {
            use factrs::variables::{VectorVar1, VectorVar2, VectorVar3};
            let k = raw(w.keys[i]);
            let r = match w.dims[i] {
                1 => v.remove::<_, VectorVar1>(k).is_some(),
                2 => v.remove::<_, VectorVar2>(k).is_some(),
                _ => v.remove::<_, VectorVar3>(k).is_some(),
            };
            ensure!(r, "removing entry {i} of {n} gives nothing");
        } else {
            left += 1;
        }
    }
    ensure!(v.len() == left && v.iter().count() == left && v.is_empty() == (left == 0), "{left} of {n} entries left, length {}", v.len());
    for i in 0..n {
        let x = w.get(&v, i);
        ensure!(x.is_some() != gone(i), "entry {i} of {n} {}", if gone(i) { "is still there after its removal" } else { "is gone" });
        let old = w.get(&kept, i).ok_or("the clone lost an entry")?;
        for k in 0..w.dims[i] {
            ensure!(old[k] == w.x[i][k], "entry {i} of {n} of the clone changed");
            if let Some(x) = &x {
                ensure!(x[k] == w.x[i][k] + d[cols[i] + k], "entry {i} of {n} moved to {} from {} by {}", x[k], w.x[i][k], d[cols[i] + k]);
            }
        }
    }
    for dim in 1..=3 {
        use factrs::variables::{VectorVar1, VectorVar2, VectorVar3};
        let want = (0..n).filter(|i| w.dims[*i] == dim && !gone(*i)).count();
        let got = match dim {
            1 => v.filter::<VectorVar1>().count(),
            2 => v.filter::<VectorVar2>().count(),
            _ => v.filter::<VectorVar3>().count(),
        };
        ensure!(got == want, "filtering {left} entries by vectors of {dim} gives {got} of {want}");
    }
    Ok(n > 1)
}

fn main() {
    harness::engine::main(Property {
        id: "C17",
        rule: "history: 1..40 operations (insert typed/unchecked, reads, mutable access, typed removal, entry API, clone, retraction by an increment over present and absent keys, filter) on 1..3 stores over 1..8 keys and 12 variable types, after each of which every observation of every store is compared with a map; symbols: user-assigned typed symbols. Non-trivial: more than three operations.",
        assumptions: &[],
        subs: vec![sub("history", 40_000, history), sub("symbols", 20_000, symbols), sub("large", 200, large)],
    });
}
