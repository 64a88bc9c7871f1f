//! C18: symbols and keys.
use factrs::{
    containers::{DefaultSymbol, Key, Symbol, Values},
    symbols::*,
    variables::SO2,
};
use harness::{engine::*, ensure, note};

mod user {
    use factrs::assign_symbols;
    use factrs::variables::{SE2, SO3};
    assign_symbols!(X: SO3; Y: SE2, SO3; M: SE2);
    pub mod untyped {
        use factrs::assign_symbols;
        assign_symbols!(Q, Pose, Landmark);
    }
}

fn gen_char(g: &mut Gen) -> char {
    let c = match g.below(7) {
        0 => b'a' as u32 + g.below(26) as u32,
        1 => b'A' as u32 + g.below(26) as u32,
        2 => g.below(128) as u32,
        3 => 0x80 + g.below(0x780) as u32,
        4 => g.below(0x10000) as u32,
        5 => 0x10000 + g.below(0x100000) as u32,
        _ => *g.pick(&[0x10FFFF, 0, 0x7F, 0xFF, 0x100, 0xFFFF, 0x10000, 0x1F600, 0x8FFFF, 0xD7FF, 0xE000]),
    };
    char::from_u32(c).unwrap_or('x')
}
fn gen_idx(g: &mut Gen) -> u64 {
    match g.below(6) {
        0 => g.below(10),
        1 => g.below(1000),
        2 => (1u64 << g.below(32)) - g.below(2).min(1),
        3 => (1u64 << 32) - 1 - g.below(4),
        _ => g.below(1 << 32),
    }
}
fn key(c: char, i: u64) -> Key {
    DefaultSymbol::new(c, i).into()
}
/// shows the letter, then the index
fn shows(text: &str, c: char, i: u64) -> bool {
    let Some(p) = text.find(c) else { return false };
    let rest = &text[p + c.len_utf8()..];
    let n = i.to_string();
    rest.match_indices(&n).any(|(q, _)| {
        let before = rest[..q].chars().last().map_or(false, |x| x.is_ascii_digit());
        let after = rest[q + n.len()..].chars().next().map_or(false, |x| x.is_ascii_digit());
        !before && !after
    })
}
fn roundtrip(g: &mut Gen) -> Outcome {
    let (c, i) = (gen_char(g), gen_idx(g));
    note!(g, "({:?} = U+{:X}, {i})", c, c as u32);
    let k = key(c, i);
    ensure!(k == key(c, i), "the same pair gives two keys");
    ensure!(Key::from(k) == k, "a key converts to another key");
    let back = DefaultSymbol::from(k);
    let text = format!("{back:?}");
    let orig = format!("{:?}", DefaultSymbol::new(c, i));
    ensure!(shows(&orig, c, i), "the symbol ({c:?}, {i}) prints as {orig:?}");
    ensure!(text == orig, "the key of ({c:?}, {i}) converts back to a symbol printed {text:?}, the symbol itself prints {orig:?}");
    let again: Key = back.into();
    ensure!(again == k, "converting ({c:?}, {i}) to a key, back and again gives {again:?} instead of {k:?}");
    // in a store
    let mut v = Values::new();
    v.insert_unchecked(DefaultSymbol::new(c, i), SO2::from_theta(1.0));
    ensure!(v.get_unchecked::<_, SO2>(k).is_some(), "the entry of ({c:?}, {i}) is not found by its key");
    for t in [format!("{v}"), format!("{v:#}"), format!("{v:?}")] {
        ensure!(t.contains(&orig), "a store with one entry under ({c:?}, {i}) prints as {t:?}");
    }
    Ok(c as u32 > 127 || i > 0)
}
fn distinct(g: &mut Gen) -> Outcome {
    let (c, i) = (gen_char(g), gen_idx(g));
    let (d, j) = match g.below(5) {
        // near misses: one bit of one part, swapped parts, neighbouring numbers
        0 => (char::from_u32(c as u32 ^ (1 << g.below(21))).unwrap_or('y'), i),
        1 => (c, (i ^ (1 << g.below(32))) & 0xFFFF_FFFF),
        2 => (char::from_u32((i & 0x1F_FFFF) as u32).unwrap_or('z'), c as u64),
        3 => (char::from_u32(c as u32 + 1).unwrap_or('a'), i.wrapping_sub(g.below(2)) & 0xFFFF_FFFF),
        _ => (gen_char(g), gen_idx(g)),
    };
    note!(g, "({:?}, {i}) and ({:?}, {j})", c, d);
    let same = c == d && i == j;
    ensure!((key(c, i) == key(d, j)) == same, "({c:?}, {i}) and ({d:?}, {j}) have keys {:?} and {:?}", key(c, i), key(d, j));
    let mut v = Values::new();
    v.insert_unchecked(DefaultSymbol::new(c, i), SO2::from_theta(1.0));
    v.insert_unchecked(DefaultSymbol::new(d, j), SO2::from_theta(2.0));
    ensure!(v.len() == if same { 1 } else { 2 }, "a store with entries under ({c:?}, {i}) and ({d:?}, {j}) has length {}", v.len());
    Ok(!same)
}
fn letters(g: &mut Gen) -> Outcome {
    let i = gen_idx(g);
    macro_rules! each {
        ($($n:ident $c:literal),*) => { $( {
            let s = $n(i);
            let k: Key = s.into();
            ensure!(k == key($c, i), "{}({i}) has key {k:?}, the pair ({:?}, {i}) has {:?}", stringify!($n), $c, key($c, i));
            ensure!(shows(&format!("{:?}", $n(i)), $c, i), "{}({i}) prints as {:?}", stringify!($n), $n(i));
            ensure!(format!("{:?}", DefaultSymbol::from(s)) == format!("{s:?}"), "{}({i}) prints differently as a default symbol", stringify!($n));
        } )* };
    }
    each!(A 'a', B 'b', C 'c', D 'd', E 'e', F 'f', G 'g', H 'h', I 'i', J 'j', K 'k', L 'l', M 'm', N 'n', O 'o', P 'p', Q 'q', R 'r', S 's', T 't', U 'u', V 'v', W 'w', X 'x', Y 'y', Z 'z');
    fn k(s: impl Symbol) -> Key {
        s.into()
    }
    ensure!(k(user::X(i)) == k(X(i)) && k(user::Y(i)) == k(Y(i)) && k(user::M(i)) == k(M(i)) && k(user::untyped::Q(i)) == k(Q(i)), "user-assigned symbols have other keys than the built-in ones");
    ensure!(k(user::untyped::Pose(i)) == key('p', i) && k(user::untyped::Landmark(i)) == key('l', i), "a multi-letter symbol does not use its first letter");
    ensure!(shows(&format!("{:?}", user::X(i)), 'x', i) && shows(&format!("{:?}", user::untyped::Q(i)), 'q', i), "a user-assigned symbol prints as {:?}", user::X(i));
    ensure!(k(factrs::utils::X(i)) == k(X(i)), "the loader's symbol has another key");
    Ok(true)
}

fn main() {
    harness::engine::main(Property {
        id: "C18",
        rule: "characters from every range up to U+10FFFF, indices 0..2^32-1 with powers of two and the extremes; pairs that differ in one bit, neighbours and swapped parts; the 26 built-in symbols and user-assigned typed and untyped ones; stores with those entries. Non-trivial: not an ASCII letter with index 0 / distinct pairs.",
        assumptions: &["indices of 2^32 and more do not fit a key and are outside the property"],
        subs: vec![sub("roundtrip", 150_000, roundtrip), sub("distinct", 150_000, distinct), sub("letters", 30_000, letters)],
    });
}
