//! Choice-tape property-testing engine.
//!
//! A case is decided by a function `fn(&mut Gen) -> Result<bool, String>`: every random decision is drawn from the
//! `Gen`, which records it on a tape.  `Err` (or a panic) is a violation, `Ok(true)` a non-trivial case that held.
//! A failing tape is shrunk (chunks deleted, entries zeroed and halved) and saved as the replay file; a tape read past
//! its end yields zeros, which every generator maps to its simplest value.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex, Once,
    },
    time::Instant,
};

#[inline]
pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(seed: u64, s: &str) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    splitmix(&mut h)
}

// ------------------------------------------------------------------------------------------------ hash-order control
thread_local! {
    static HASH_SEED: RefCell<u64> = const { RefCell::new(0) };
}
struct TapeSource;
impl ahash::random_state::RandomSource for TapeSource {
    fn gen_hasher_seed(&self) -> usize {
        HASH_SEED.with(|s| splitmix(&mut s.borrow_mut()) as usize)
    }
}
/// From here on (this thread) every hash map draws its keys from this seed.
pub fn set_hash_seed(seed: u64) {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = ahash::random_state::set_random_source(TapeSource);
    });
    HASH_SEED.with(|s| *s.borrow_mut() = seed);
}

// ----------------------------------------------------------------------------------------------------------------- Gen
pub struct Gen {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub verbose: bool,
    /// set by a sub-check to ask generators for ordinary-size (well-conditioned) values only
    pub ordinary: bool,
    pub notes: Vec<String>,
    pub classes: Vec<&'static str>,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Gen { tape: vec![], pos: 0, rng: Some(seed), verbose: false, ordinary: false, notes: vec![], classes: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Gen { tape, pos: 0, rng: None, verbose: false, ordinary: false, notes: vec![], classes: vec![] }
    }
    pub fn used(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    /// An integer in `0..n` (n > 0); 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if let Some(s) = self.rng.as_mut() {
            let v = ((splitmix(s) as u128 * n as u128) >> 64) as u64;
            self.tape.push(v);
            v
        } else {
            self.tape.get(self.pos).copied().unwrap_or(0) % n
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = if let Some(s) = self.rng.as_mut() {
            let v = splitmix(s);
            self.tape.push(v);
            v
        } else {
            self.tape.get(self.pos).copied().unwrap_or(0)
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability k/n
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.below(n) >= n - k
    }
    /// Uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn sign(&mut self) -> f64 {
        if self.bool() {
            -1.0
        } else {
            1.0
        }
    }
    /// Symmetric in (-m, m), 0 simplest
    pub fn sym(&mut self, m: f64) -> f64 {
        let s = self.sign();
        s * m * self.unit()
    }
    /// log-uniform in [lo, hi)
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        let u = self.unit();
        (lo.ln() + (hi.ln() - lo.ln()) * u).exp()
    }
    /// Roughly standard normal
    pub fn normal(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..4 {
            s += self.sym(1.0);
        }
        s * (3.0f64 / 4.0).sqrt()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below((xs.len() - i) as u64) as usize;
            xs.swap(i, j);
        }
    }
    pub fn hash_order(&mut self) {
        let s = self.below(1 << 16);
        set_hash_seed(s);
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
}

#[macro_export]
macro_rules! note {
    ($g:expr, $($a:tt)*) => { if $g.verbose { let s = format!($($a)*); $g.notes.push(s); } };
}
/// Fail the case with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ------------------------------------------------------------------------------------------------------------ output
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
/// What the library itself prints goes nowhere from here on; the engine's own lines still reach standard output.
pub fn mute_library() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    unsafe {
        let keep = dup(1);
        if keep >= 0 && dup2(null.as_raw_fd(), 1) >= 0 {
            let _ = OUT.set(std::fs::File::from_raw_fd(keep));
        }
    }
}
pub fn say_line(s: String) {
    use std::io::Write;
    match OUT.get() {
        Some(mut f) => {
            let _ = writeln!(f, "{s}");
        }
        None => println!("{s}"),
    }
}
macro_rules! say {
    ($($a:tt)*) => { say_line(format!($($a)*)) };
}

pub type Outcome = Result<bool, String>;

pub struct Sub {
    pub name: &'static str,
    /// cases in the quick tier
    pub quick: u64,
    /// multiplier for the thorough tier
    pub thorough_mult: u64,
    pub f: fn(&mut Gen) -> Outcome,
}
pub fn sub(name: &'static str, quick: u64, f: fn(&mut Gen) -> Outcome) -> Sub {
    Sub { name, quick: 3 * quick, thorough_mult: 20, f }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

// ------------------------------------------------------------------------------------------------------------- running
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
fn install_hook() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| *q.borrow()) {
                let s = format!("{info}");
                LAST_PANIC.with(|l| *l.borrow_mut() = s);
            } else {
                prev(info);
            }
        }));
    });
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}

fn run_one(f: fn(&mut Gen) -> Outcome, g: &mut Gen) -> Outcome {
    set_hash_seed(0);
    match no_panic(|| f(g)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn shrink(f: fn(&mut Gen) -> Outcome, tape: Vec<u64>, msg: String, secs: f64) -> (Vec<u64>, String, u64) {
    let start = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut tries = 0u64;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        tries += 1;
        let mut g = Gen::replay(cand);
        if let Err(m) = run_one(f, &mut g) {
            let mut used = g.used().to_vec();
            while used.last() == Some(&0) {
                used.pop();
            }
            if (used.len(), &used) < (best.len(), &*best) {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    let mut progress = true;
    while progress && start.elapsed().as_secs_f64() < secs {
        progress = false;
        // delete chunks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed().as_secs_f64() > secs {
                    break;
                }
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if attempt(c, &mut best, &mut best_msg) {
                    progress = true;
                } else {
                    let mut c = best.clone();
                    let e = (i + size).min(c.len());
                    if c[i..e].iter().any(|x| *x != 0) {
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                        if attempt(c, &mut best, &mut best_msg) {
                            progress = true;
                        }
                    }
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise entries
        for i in 0..best.len() {
            if i >= best.len() || start.elapsed().as_secs_f64() > secs {
                break;
            }
            let mut lo = 0u64;
            let mut guard = 0;
            while i < best.len() && best[i] > lo && guard < 64 {
                guard += 1;
                let cur = best[i];
                let mid = lo + (cur - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                let before = best.len();
                if attempt(c, &mut best, &mut best_msg) {
                    progress = true;
                    if best.len() != before {
                        break;
                    }
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    (best, best_msg, tries)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn describe(f: fn(&mut Gen) -> Outcome, tape: &[u64]) -> (Vec<String>, Outcome) {
    let mut g = Gen::replay(tape.to_vec());
    g.verbose = true;
    let r = run_one(f, &mut g);
    (g.notes, r)
}

fn write_replay(prop: &str, sub: &str, seed: u64, index: u64, tape: &[u64], msg: &str, notes: &[String], tries: u64) -> String {
    let dir = format!("{}/out/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let cfg = std::env::var("VERIF_CONFIG").unwrap_or_default();
    let suffix = if cfg.is_empty() { String::new() } else { format!("-{cfg}") };
    let path = format!("{dir}/{prop}-{sub}{suffix}.json");
    let tape_s: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
    let notes_s: Vec<String> = notes.iter().map(|x| json_str(x)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"config\": {},\n \"seed\": {},\n \"case\": {},\n \"message\": {},\n \"input\": [{}],\n \"shrink_attempts\": {},\n \"tape\": [{}]\n}}\n",
        json_str(prop), json_str(sub), json_str(&cfg), seed, index, json_str(msg), notes_s.join(",\n   "), tries, tape_s.join(", ")
    );
    std::fs::write(&path, body).expect("write replay");
    path
}

struct SubResult {
    evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<Vec<String>>,
    fail: Option<(u64, Vec<u64>, String)>,
}

fn run_sub(prop: &'static str, s: &Sub, n: u64, seed: u64, threads: usize, traced: bool) -> SubResult {
    let base = hash_str(hash_str(seed, prop), s.name);
    let next = AtomicU64::new(0);
    let fail_at = AtomicU64::new(u64::MAX);
    let out = Mutex::new(SubResult { evals: 0, distinct: HashSet::new(), classes: BTreeMap::new(), samples: vec![], fail: None });
    let t0 = Instant::now();
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let done = AtomicBool::new(false);
    let alive = AtomicUsize::new(threads);
    let hang_s: u64 = std::env::var("VERIF_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(120);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, fail_at, out, busy, alive, done) = (&next, &fail_at, &out, &busy, &alive, &done);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut evals = 0;
                    let mut distinct = HashSet::new();
                    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let chunk = 8;
                    'outer: loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n {
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            // keep going below the lowest failing index so that the reported case does not depend on timing
                            if i > fail_at.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let mut st = base ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
                            let cs = splitmix(&mut st);
                            if traced {
                                let _ = std::fs::write(format!("{}/out/trace-{prop}", verif_dir()), format!("{} {}", s.name, i));
                            }
                            busy[t].1.store(t0.elapsed().as_secs(), Ordering::Relaxed);
                            busy[t].0.store(i, Ordering::Relaxed);
                            let mut g = Gen::random(cs);
                            let r = run_one(s.f, &mut g);
                            busy[t].0.store(u64::MAX, Ordering::Relaxed);
                            evals += 1;
                            for c in &g.classes {
                                *classes.entry(c).or_insert(0) += 1;
                            }
                            match r {
                                Ok(nt) => {
                                    if nt {
                                        let mut h = 0u64;
                                        for x in g.used() {
                                            h = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
                                        }
                                        distinct.insert(h);
                                    }
                                    if i < 2 {
                                        let (notes, _) = describe(s.f, g.used());
                                        out.lock().unwrap().samples.push(notes);
                                    }
                                }
                                Err(m) => {
                                    fail_at.fetch_min(i, Ordering::Relaxed);
                                    let mut o = out.lock().unwrap();
                                    if o.fail.as_ref().map_or(true, |f| f.0 > i) {
                                        o.fail = Some((i, g.used().to_vec(), m));
                                    }
                                }
                            }
                        }
                    }
                    let mut o = out.lock().unwrap();
                    o.evals += evals;
                    o.distinct.extend(distinct);
                    for (k, v) in classes {
                        *o.classes.entry(k).or_insert(0) += v;
                    }
                    drop(o);
                    if alive.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
        // watchdog: a case that normally takes milliseconds and does not return is a violation too
        let (busy, done) = (&busy, &done);
        sc.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = t0.elapsed().as_secs();
                for (c, since) in busy {
                    let i = c.load(Ordering::Relaxed);
                    if i != u64::MAX && now.saturating_sub(since.load(Ordering::Relaxed)) > hang_s && c.load(Ordering::Relaxed) == i {
                        let msg = format!("the call did not return within {hang_s} s");
                        let p = write_replay(prop, s.name, seed, i, &[], &msg, &[], 0);
                        say!("sub-check {}: {}", s.name, msg);
                        say!("VIOLATION property={prop} replay={p}");
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    out.into_inner().unwrap()
}

fn replay_file(p: &Property, path: &str) -> ! {
    let text = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let i = text.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
        text[i..].trim_start().to_string()
    };
    let sub_name: String = field("sub")[1..].chars().take_while(|c| *c != '"').collect();
    let num = |k: &str| -> u64 { field(k).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() };
    let tape_txt = field("tape");
    let tape: Vec<u64> = tape_txt[1..tape_txt.find(']').unwrap()].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let s = p.subs.iter().find(|s| s.name == sub_name).expect("sub-check of the replay file");
    let mut g = if tape.is_empty() && text.contains("did not return") {
        let base = hash_str(hash_str(num("seed"), p.id), s.name);
        let mut st = base ^ num("case").wrapping_mul(0xA24B_AED4_963E_E407);
        Gen::random(splitmix(&mut st))
    } else {
        Gen::replay(tape)
    };
    g.verbose = true;
    let r = run_one(s.f, &mut g);
    for n in &g.notes {
        say!("  {n}");
    }
    match r {
        Ok(_) => {
            say!("replay: the property holds on this input");
            std::process::exit(0)
        }
        Err(m) => {
            say!("sub-check {}: {}", s.name, m);
            say!("VIOLATION property={} replay={}", p.id, path);
            std::process::exit(1)
        }
    }
}

pub fn main(p: Property) -> ! {
    install_hook();
    set_hash_seed(0);
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--replay").unwrap_or(false) {
        replay_file(&p, &args[2]);
    }
    let traced = args.iter().any(|a| a == "--trace");
    let only: Option<String> = std::env::var("VERIF_SUB").ok();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let threads = if traced { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
    let start = Instant::now();
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut sub_json = vec![];
    let mut samples_json = vec![];
    let mut violations = vec![];
    // work is fixed by counts, not by time; the thorough tier stops opening new sub-checks after its budget
    for s in &p.subs {
        if only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        let n = ((if tier == "thorough" { s.quick * s.thorough_mult } else { s.quick }) as f64 * scale).ceil() as u64;
        let t = Instant::now();
        let r = run_sub(p.id, s, n, seed, threads, traced);
        evals += r.evals;
        distinct += r.distinct.len() as u64;
        let cl: Vec<String> = r.classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        sub_json.push(format!(
            "{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
            json_str(s.name), r.evals, r.distinct.len(), t.elapsed().as_secs_f64(), cl.join(", ")
        ));
        for smp in r.samples.iter().take(2) {
            samples_json.push(format!("{{\"sub\": {}, \"input\": [{}]}}", json_str(s.name), smp.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")));
        }
        eprintln!("[{}] {:<28} cases {:>8}  nontrivial {:>8}  {:>7.2}s  {:?}", p.id, s.name, r.evals, r.distinct.len(), t.elapsed().as_secs_f64(), r.classes);
        if let Some((i, tape, msg)) = r.fail {
            let (tape, msg, tries) = shrink(s.f, tape, msg, 15.0);
            let (notes, again) = describe(s.f, &tape);
            let path = write_replay(p.id, s.name, seed, i, &tape, &msg, &notes, tries);
            say!("sub-check {} failed at case {}: {}", s.name, i, msg);
            for n in &notes {
                say!("  {n}");
            }
            if again.is_ok() {
                say!("  (note: the shrunk tape did not fail again when re-run)");
            }
            violations.push(path);
        }
    }
    let cfg = std::env::var("VERIF_CONFIG").unwrap_or_default();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"config\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"sub_checks\": {{\n   {}\n  }},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id), json_str(tier), seed, json_str(&cfg), evals, distinct, json_str(p.rule), sub_json.join(",\n   "), samples_json.join(",\n   "),
        p.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "), start.elapsed().as_secs_f64(), violations.len()
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let name = if cfg.is_empty() { p.id.to_string() } else { format!("{}.{}", p.id, cfg) };
    std::fs::write(format!("{dir}/{name}.json"), ev).expect("write evidence");
    for v in &violations {
        say!("VIOLATION property={} replay={}", p.id, v);
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
