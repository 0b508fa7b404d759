//! Tape-driven property-testing engine: generation, shrinking, evidence, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- source of choices

pub struct Src<'a> {
    data: &'a [u8],
    pos: usize,
}

/// A long tape made from one word of a short one.
pub fn grown(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        v.extend((z ^ (z >> 31)).to_le_bytes());
    }
    v
}
impl<'a> Src<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    pub fn u8(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        b
    }
    pub fn u16(&mut self) -> u16 {
        ((self.u8() as u16) << 8) | self.u8() as u16
    }
    pub fn u32(&mut self) -> u32 {
        ((self.u16() as u32) << 16) | self.u16() as u32
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut r = [0u8; N];
        for b in r.iter_mut() {
            *b = self.u8();
        }
        r
    }
    /// Uniform-ish in 0..n; the all-zero tape gives 0 and smaller bytes give smaller results.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 16 {
            (self.u8() as usize * n) >> 8
        } else if n <= 4096 {
            (self.u16() as usize * n) >> 16
        } else {
            ((self.u32() as u64 * n as u64) >> 32) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u8() >= 128
    }
    /// true with probability num/den; false on the zero tape
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
}

// ---------------------------------------------------------------- case context

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::engine::fail($sig, format!($($arg)*));
        }
    };
}

#[derive(Default)]
pub struct Cx {
    nontrivial: bool,
    labels: Vec<&'static str>,
    sample: Option<String>,
    want_sample: bool,
    soft: Vec<Fail>,
    pub checks: u64,
}

impl Cx {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// Record a failure without ending the case.
    pub fn soft(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        self.soft.push(Fail { sig: sig.into(), msg: msg.into() });
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Res;

pub struct Part {
    pub name: &'static str,
    pub tape: usize,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
}

pub struct Spec {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

// ---------------------------------------------------------------- randomness of tapes

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn make_tape(seed: u64, key: u64, i: u64, len: usize) -> Vec<u8> {
    let mut s = seed ^ key.rotate_left(17) ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    v.truncate(len);
    v
}

// ---------------------------------------------------------------- running one case

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = Some(text);
        }
    }));
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| ANY_PANIC.lock().ok().and_then(|g| g.clone()))
            .unwrap_or_else(|| "panic".into())),
    }
}

struct Outcome {
    fails: Vec<Fail>,
    cx: Cx,
    used: usize,
}

fn run_case(part: &Part, tape: &[u8], want_sample: bool) -> Outcome {
    let mut cx = Cx { want_sample, ..Cx::default() };
    let mut used = 0;
    let r = guarded(|| {
        let mut src = Src::new(tape);
        let r = (part.case)(&mut src, &mut cx);
        used = src.used();
        r
    });
    let mut fails = std::mem::take(&mut cx.soft);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(f)) => fails.push(f),
        Err(p) => {
            used = tape.len();
            fails.push(Fail { sig: "panic".into(), msg: format!("panicked: {}", p) })
        }
    }
    Outcome { fails, cx, used }
}

// ---------------------------------------------------------------- shrinking

fn shrink(part: &Part, tape: Vec<u8>, bad: &dyn Fn(&[Fail]) -> Option<Fail>, budget: Duration) -> (Vec<u8>, Fail) {
    let start = Instant::now();
    let first = run_case(part, &tape, false);
    let mut best = tape;
    let mut best_fail = match bad(&first.fails) {
        Some(f) => f,
        None => return (best, Fail { sig: "flaky".into(), msg: "failure did not reproduce".into() }),
    };
    let sig = best_fail.sig.clone();
    best.truncate(first.used.max(1));
    let try_tape = |t: &[u8]| -> Option<(Fail, usize)> {
        let o = run_case(part, t, false);
        bad(&o.fails).filter(|f| f.sig == sig).map(|f| (f, o.used))
    };
    if try_tape(&best).is_none() {
        // relied on the tail; keep the full tape
        return (best, best_fail);
    }
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                let mut t = best.clone();
                t.drain(i..i + size);
                if let Some((f, used)) = try_tape(&t) {
                    t.truncate(used.max(1));
                    if t.len() < best.len() {
                        best = t;
                        best_fail = f;
                        improved = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        for size in [32usize, 8, 1] {
            let mut i = 0;
            while i < best.len() && start.elapsed() < budget {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|b| *b != 0) {
                    let mut t = best.clone();
                    for b in &mut t[i..end] {
                        *b = 0;
                    }
                    if let Some((f, _)) = try_tape(&t) {
                        best = t;
                        best_fail = f;
                        improved = true;
                    }
                }
                i += size;
            }
        }
        // lower bytes
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let mut lo = 0u8;
            let mut hi = best[i];
            while lo < hi && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if let Some((f, _)) = try_tape(&t) {
                    best = t;
                    best_fail = f;
                    hi = mid;
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
    }
    while best.last() == Some(&0) && best.len() > 1 {
        let t = best[..best.len() - 1].to_vec();
        match try_tape(&t) {
            Some((f, _)) => {
                best = t;
                best_fail = f;
            }
            None => break,
        }
    }
    (best, best_fail)
}

// ---------------------------------------------------------------- JSON

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---------------------------------------------------------------- main driver

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// (signature, description) of the findings listed for this property
fn known_findings(id: &str) -> Vec<(String, String)> {
    let path = format!("{}/known_findings.txt", verif_dir());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        // finding: property=C17 sig=<signature> | <description>
        if let Some(rest) = line.strip_prefix("finding: property=") {
            let mut it = rest.splitn(2, ' ');
            if it.next() == Some(id) {
                let rest = it.next().unwrap_or("");
                if let Some(s) = rest.strip_prefix("sig=") {
                    let mut it = s.splitn(2, " | ");
                    let sig = it.next().unwrap_or("").trim().to_string();
                    let desc = it.next().unwrap_or("").trim().to_string();
                    v.push((sig, desc));
                }
            }
        }
    }
    v
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn main(specs: Vec<Spec>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} <property> [--replay FILE]", args[0]);
        std::process::exit(2);
    }
    let id = args[1].clone();
    let spec = match specs.into_iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    if args.len() >= 4 && args[2] == "--replay" {
        std::process::exit(replay(&spec, &args[3]));
    }
    std::process::exit(run(&spec));
}

fn replay(spec: &Spec, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let part = get("part: ").expect("part");
    let tape = unhex(&get("tape: ").expect("tape"));
    let part = spec.parts.iter().find(|p| p.name == part).expect("known part");
    let o = run_case(part, &tape, true);
    if let Some(s) = &o.cx.sample {
        println!("case: {}", s);
    }
    let known = known_findings(spec.id);
    let mut bad = false;
    for f in &o.fails {
        println!("failure [{}]: {}", f.sig, f.msg);
        bad |= !known.iter().any(|(s, _)| *s == f.sig);
    }
    if bad {
        println!("VIOLATION property={} replay={}", spec.id, path);
        1
    } else {
        println!("replayed: no unlisted failure");
        0
    }
}

/// how long one case may take
fn hang_limit() -> Duration {
    let d = if thorough() { 9000 } else { 300 };
    Duration::from_secs(std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}
fn shrink_budget() -> Duration {
    Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60))
}
fn write_replay(id: &str, part: &str, seed: u64, case: u64, f: &Fail, decoded: &str, tape: &[u8]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.txt", dir, id, part, seed);
    let text = format!(
        "property: {}\npart: {}\nseed: {}\ncase: {}\nsignature: {}\nfailure: {}\ndecoded: {}\ntape: {}\n",
        id,
        part,
        seed,
        case,
        f.sig,
        f.msg.replace('\n', " "),
        decoded.replace('\n', " "),
        hex(tape)
    );
    if std::fs::write(&path, text).is_err() {
        eprintln!("cannot write replay file {}", path);
    }
    path
}

fn run(spec: &Spec) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = thorough();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let budget = Duration::from_secs(
        std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 600 }),
    );
    let nthreads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .max(1);
    let known = known_findings(spec.id);
    let only = std::env::var("VERIF_PART").ok();

    let mut evaluations = 0u64;
    let mut checks = 0u64;
    let mut distinct_nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut part_lines: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut violation: Option<(&Part, u64, Vec<u8>, Fail)> = None;
    let mut truncated = false;

    for part in &spec.parts {
        if let Some(o) = &only {
            if o != part.name {
                continue;
            }
        }
        let pstart = Instant::now();
        let n = ((if thorough { part.thorough } else { part.quick }) as f64 * scale).ceil() as u64;
        let key = fnv(format!("{}/{}", spec.id, part.name).as_bytes());
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let out_of_time = AtomicBool::new(false);
        struct Shared {
            evals: u64,
            checks: u64,
            hashes: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<(u64, String)>,
            bad: Option<(u64, Vec<u8>, Fail)>,
            known: BTreeMap<String, (u64, String)>,
        }
        let shared = Mutex::new(Shared {
            evals: 0,
            checks: 0,
            hashes: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            bad: None,
            known: BTreeMap::new(),
        });
        let workers = nthreads.min(n.max(1) as usize);
        let current: Vec<Mutex<Option<(u64, Instant, Vec<u8>)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
        let running = std::sync::atomic::AtomicUsize::new(workers);
        std::thread::scope(|sc| {
            let (current, running) = (&current, &running);
            let (next, first_bad, out_of_time, shared, known) = (&next, &first_bad, &out_of_time, &shared, &known);
            // a case that never ends is a failure too
            sc.spawn(move || {
                let limit = hang_limit();
                while running.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for c in current {
                        let g = c.lock().unwrap();
                        if let Some((i, at, tape)) = &*g {
                            if at.elapsed() > limit {
                                let f = Fail { sig: "hang".into(), msg: format!("the case did not end within {} s", limit.as_secs()) };
                                let path = write_replay(spec.id, part.name, seed, *i, &f, "", tape);
                                println!("VIOLATION property={} replay={}", spec.id, path);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            for worker in 0..workers {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        *current[worker].lock().unwrap() = None;
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > first_bad.load(Ordering::SeqCst) {
                            running.fetch_sub(1, Ordering::SeqCst);
                            break;
                        }
                        if start.elapsed() > budget {
                            out_of_time.store(true, Ordering::SeqCst);
                            running.fetch_sub(1, Ordering::SeqCst);
                            break;
                        }
                        let tape = make_tape(seed, key, i, part.tape);
                        let want = i < 64;
                        *current[worker].lock().unwrap() = Some((i, Instant::now(), tape.clone()));
                        let o = run_case(part, &tape, want);
                        let mut g = shared.lock().unwrap();
                        g.evals += 1;
                        g.checks += o.cx.checks;
                        if o.cx.nontrivial {
                            g.hashes.insert(fnv(&tape[..o.used.min(tape.len())]));
                        }
                        for l in o.cx.labels {
                            *g.labels.entry(format!("{}:{}", part.name, l)).or_insert(0) += 1;
                        }
                        if let Some(s) = o.cx.sample {
                            if o.cx.nontrivial && g.samples.len() < 3 {
                                g.samples.push((i, s));
                            }
                        }
                        for f in o.fails {
                            if known.iter().any(|(s, _)| *s == f.sig) {
                                let e = g.known.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                                e.0 += 1;
                            } else if g.bad.as_ref().map(|b| i < b.0).unwrap_or(true) {
                                first_bad.fetch_min(i, Ordering::SeqCst);
                                g.bad = Some((i, tape.clone(), f));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut g = shared.into_inner().unwrap();
        evaluations += g.evals;
        checks += g.checks;
        distinct_nontrivial += g.hashes.len() as u64;
        for (k, v) in g.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        g.samples.sort();
        for (i, s) in g.samples {
            samples.push(format!("{}#{}: {}", part.name, i, s));
        }
        for (k, v) in g.known {
            let e = known_hits.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        truncated |= out_of_time.load(Ordering::SeqCst);
        part_lines.push(format!(
            "{{\"part\":{},\"cases\":{},\"distinct_nontrivial\":{},\"seconds\":{:.2}}}",
            json_str(part.name),
            g.evals,
            g.hashes.len(),
            pstart.elapsed().as_secs_f64()
        ));
        if let Some((i, tape, f)) = g.bad {
            violation = Some((part, i, tape, f));
            break;
        }
    }

    let mut code = 0;
    let vcount = if violation.is_some() { 1 } else { 0 };
    for (sig, (n, msg)) in &known_hits {
        let desc = known.iter().find(|(s, _)| s == sig).map(|(_, d)| d.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} [{} cases; first: {}]", spec.id, desc, n, msg.replace('\n', " "));
    }
    if let Some((part, i, tape, f)) = violation {
        eprintln!("case {}#{} failed: [{}] {}", part.name, i, f.sig, f.msg);
        let is_bad = |fs: &[Fail]| fs.iter().find(|f| !known.iter().any(|(s, _)| *s == f.sig)).cloned();
        let orig = tape.clone();
        {
            // shrinking may run into cases that never end
            let (id, name, f, tape) = (spec.id, part.name, f.clone(), tape.clone());
            std::thread::spawn(move || {
                std::thread::sleep(shrink_budget() + Duration::from_secs(60));
                let path = write_replay(id, name, seed, i, &f, "", &tape);
                println!("VIOLATION property={} replay={}", id, path);
                std::process::exit(1);
            });
        }
        let (mut t, mut sf) = shrink(part, tape, &is_bad, shrink_budget());
        if sf.sig == "flaky" {
            t = orig;
            sf = f.clone();
        }
        let o = run_case(part, &t, true);
        let path = write_replay(spec.id, part.name, seed, i, &sf, &o.cx.sample.unwrap_or_default(), &t);
        println!("shrunk failure [{}]: {}", sf.sig, sf.msg);
        println!("VIOLATION property={} replay={}", spec.id, path);
        code = 1;
    }
    if truncated && code == 0 {
        eprintln!("time budget reached: run truncated");
    }

    let wall = start.elapsed().as_secs_f64();
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    let sam: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
    let kn: Vec<String> = known_hits.iter().map(|(k, v)| format!("{}:{}", json_str(k), v.0)).collect();
    let ass: Vec<String> = spec.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"oracle_comparisons\": {},\n  \"parts\": [{}],\n  \"labels\": {{{}}},\n  \"known_finding_hits\": {{{}}},\n  \"truncated_by_time_budget\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(spec.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        evaluations,
        distinct_nontrivial,
        json_str(spec.rule),
        checks,
        part_lines.join(","),
        lab.join(","),
        kn.join(","),
        truncated,
        sam.join(",\n   "),
        ass.join(","),
        wall,
        vcount
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, spec.id), ev).is_err() {
        eprintln!("cannot write evidence");
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{}: {} cases ({} distinct non-trivial, {} comparisons) in {:.1} s, tier {}, seed {}",
        spec.id,
        evaluations,
        distinct_nontrivial,
        checks,
        wall,
        if thorough { "thorough" } else { "quick" },
        seed
    );
    code
}

// ---------------------------------------------------------------- processor affinity

extern "C" {
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
}

/// The CPUs this process may use.
pub fn cpus() -> Vec<usize> {
    static CPUS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    CPUS.get_or_init(|| {
        let mut m = [0u64; 16];
        unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
        let v: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    })
    .clone()
}

/// Runs f as if on a machine with n processors: the code under test is told n by the num_cpus stand-in, and
/// the calling thread (and the threads it spawns) is confined to n of the real CPUs when there are that many.
pub fn with_cpus<T>(n: usize, f: impl FnOnce() -> T) -> T {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        static MINE: u64 = NEXT.fetch_add(1, Ordering::SeqCst);
    }
    let all = cpus();
    let mask_of = |c: &mut dyn Iterator<Item = usize>| {
        let mut m = [0u64; 16];
        for i in c {
            m[i / 64] |= 1 << (i % 64);
        }
        m
    };
    struct Restore([u64; 16], usize);
    impl Drop for Restore {
        fn drop(&mut self) {
            unsafe { sched_setaffinity(0, 128, self.0.as_ptr()) };
            num_cpus::set_override(self.1);
        }
    }
    let _r = Restore(mask_of(&mut all.iter().copied()), num_cpus::set_override(n.max(1)));
    let first = MINE.with(|m| *m as usize);
    let k = n.clamp(1, all.len());
    let m = mask_of(&mut (0..k).map(|i| all[(first + i) % all.len()]));
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
    f()
}
