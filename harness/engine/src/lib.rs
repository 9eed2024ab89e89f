//! Property-based testing engine: a case is a sequence of choices; failing sequences are shrunk and
//! written as replay files.
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use num_bigint::BigUint;

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// A timeout: counted only when the same case times out again.
    pub suspect: bool,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, suspect: false }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.to_string(), suspect: false }
    }
}
impl Fail {
    pub fn suspect(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), suspect: true }
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) {
            return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)));
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::from(format!($($t)*))) };
}

/// Source of choices.
pub struct Src {
    prefix: Vec<u64>,
    replay: bool,
    rng: ChaCha12Rng,
    pub record: Vec<u64>,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub units: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            prefix: vec![],
            replay: false,
            rng: ChaCha12Rng::seed_from_u64(seed),
            record: vec![],
            notes: vec![],
            want_notes: false,
            nontrivial: false,
            labels: vec![],
            units: 1,
        }
    }
    pub fn replaying(choices: Vec<u64>) -> Self {
        let mut s = Src::random(0);
        s.prefix = choices;
        s.replay = true;
        s.want_notes = true;
        s
    }
    fn raw(&mut self, bound: u64, f: impl FnOnce(&mut ChaCha12Rng) -> u64) -> u64 {
        let v = if self.replay {
            let v = self.prefix.get(self.record.len()).copied().unwrap_or(0);
            if bound != 0 && v >= bound { v % bound } else { v }
        } else {
            f(&mut self.rng)
        };
        self.record.push(v);
        v
    }
    /// Any 64-bit value.
    pub fn word(&mut self) -> u64 {
        self.raw(0, |r| r.next_u64())
    }
    /// 0..bound (bound > 0)
    #[track_caller]
    pub fn below(&mut self, bound: u64) -> u64 {
        assert!(bound > 0, "empty choice at {}", std::panic::Location::caller());
        self.raw(bound, |r| r.gen_range(0..bound))
    }
    #[track_caller]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(2, |r| (r.gen_range(0..den) < num) as u64) == 1
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// Index by weight.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let n = w.len() as u64;
        let i = self.raw(n, |r| {
            let mut x = r.gen_range(0..total);
            for (i, k) in w.iter().enumerate() {
                if x < *k {
                    return i as u64;
                }
                x -= *k;
            }
            n - 1
        }) as usize;
        // shrinking may have chosen an alternative that is not open here
        (i..w.len()).chain(0..i).find(|k| w[*k] > 0).unwrap_or(i)
    }
    /// Independent generator derived from one choice, for bulk data that need not shrink.
    pub fn rng(&mut self) -> ChaCha12Rng {
        let s = self.word();
        ChaCha12Rng::seed_from_u64(s)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut r = self.rng();
        let mut v = vec![0; n];
        r.fill_bytes(&mut v);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    /// k distinct indices out of n, in random order
    pub fn subset(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v.truncate(k);
        v
    }
    /// Big integer below 2^bits with bias to edges: 0, 1, all ones, limb boundaries, sparse and dense patterns.
    pub fn big(&mut self, bits: usize) -> BigUint {
        let one = BigUint::from(1u8);
        let top = one.clone() << bits;
        let mask = &top - 1u8;
        if bits == 0 {
            return BigUint::default();
        }
        match self.weighted(&[3, 1, 2, 3, 3, 2, 3]) {
            0 => BigUint::from(self.word()) & mask,
            1 => BigUint::from(self.below(4)) & mask,
            2 => (&mask - BigUint::from(self.below(3)) % &top) & mask,
            3 => {
                // 2^k or 2^k - 1 or 2^k + 1
                let k = self.below(bits as u64 + 1) as usize;
                let d = self.below(3);
                let b = one << k;
                (if d == 0 { b } else if d == 1 { b - 1u8 } else { b + 1u8 }) & mask
            }
            4 => {
                // limbs from {0, all ones, random}
                let limbs = bits.div_ceil(64);
                let mut v = BigUint::default();
                for _ in 0..limbs {
                    let l = match self.below(4) {
                        0 => 0,
                        1 => u64::MAX,
                        2 => 1u64 << self.below(64),
                        _ => self.word(),
                    };
                    v = (v << 64) + BigUint::from(l);
                }
                v & mask
            }
            5 => {
                let k = self.below(bits as u64 + 1) as usize;
                let mut r = self.rng();
                let mut v = BigUint::default();
                for _ in 0..bits.div_ceil(64) {
                    v = (v << 64) + BigUint::from(r.next_u64());
                }
                v >> (bits.div_ceil(64) * 64 - k.min(bits))
            }
            _ => {
                let mut r = self.rng();
                let mut v = BigUint::default();
                for _ in 0..bits.div_ceil(64) {
                    v = (v << 64) + BigUint::from(r.next_u64());
                }
                v & mask
            }
        }
    }
    /// Value below modulus with bias to edges.
    pub fn modular(&mut self, modulus: &BigUint) -> BigUint {
        let bits = modulus.bits() as usize;
        match self.weighted(&[2, 2, 1, 6]) {
            0 => BigUint::from(self.below(4)) % modulus,
            1 => (modulus - 1u8) - BigUint::from(self.below(4)) % modulus,
            2 => {
                let h: BigUint = modulus >> 1usize;
                let d = self.below(5);
                (h + BigUint::from(d) + modulus - 2u8) % modulus
            }
            _ => self.big(bits) % modulus,
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes {
            self.notes.push(f());
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs f, turning a panic into its message.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            Err(m.unwrap_or_else(|| {
                e.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic in another thread".into())
            }))
        }
    }
}

pub type CaseFn = Arc<dyn Fn(&mut Src) -> R + Send + Sync>;

pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub workers: usize,
    /// A single case that takes longer than this is a hang (confirmed by running it again).
    pub hang: Duration,
}
impl Sub {
    pub fn new(name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src) -> R + Send + Sync + 'static) -> Self {
        Sub { name, f: Arc::new(f), quick, thorough, workers: 8, hang: Duration::from_secs(150) }
    }
    pub fn workers(mut self, w: usize) -> Self {
        self.workers = w;
        self
    }
    pub fn hang(mut self, s: u64) -> Self {
        self.hang = Duration::from_secs(s);
        self
    }
}

pub struct Property {
    pub id: &'static str,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static str,
    pub subs: Vec<Sub>,
}

fn hash64(x: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in x {
        for b in v.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
    }
    h ^ (h >> 29)
}
fn hash_str(s: &str) -> u64 {
    hash64(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}
pub fn case_seed(seed: u64, sub: &str, i: u64) -> u64 {
    hash64(&[seed, hash_str(sub), i])
}

fn run_case(f: &CaseFn, src: &mut Src) -> R {
    match caught(|| f(src)) {
        Ok(r) => r,
        Err(p) => Err(Fail::from(format!("panicked: {p}"))),
    }
}

/// Runs a case; timeouts have to repeat to count.
fn run_confirmed(f: &CaseFn, src: &mut Src) -> Result<(), Option<String>> {
    match run_case(f, src) {
        Ok(()) => Ok(()),
        Err(e) if !e.suspect => Err(Some(e.msg)),
        Err(e) => {
            for _ in 0..2 {
                let mut s = Src::replaying(src.record.clone());
                match run_case(f, &mut s) {
                    Ok(()) => return Err(None),
                    Err(e2) if !e2.suspect => return Err(Some(e2.msg)),
                    Err(_) => {}
                }
            }
            Err(Some(format!("{} (3 of 3 runs)", e.msg)))
        }
    }
}

fn shrink(f: &CaseFn, mut best: Vec<u64>, mut msg: String, budget: Duration) -> (Vec<u64>, String) {
    let end = Instant::now() + budget;
    let try_one = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        let mut s = Src::replaying(cand);
        if let Err(e) = run_case(f, &mut s)
            && !e.suspect
        {
            // the record is the canonical form of what was consumed
            let rec = s.record.clone();
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                *msg = e.msg;
                return true;
            }
        }
        false
    };
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < end {
                let mut c = best.clone();
                let j = (i + size).min(c.len());
                c.drain(i..j);
                if try_one(c, &mut best, &mut msg) {
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            if best[i] != 0 {
                for v in [0, 1, best[i] / 2, best[i] - 1] {
                    if v < best[i] {
                        let mut c = best.clone();
                        c[i] = v;
                        if try_one(c, &mut best, &mut msg) {
                            progress = true;
                            break;
                        }
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg)
}

struct SubResult {
    evals: u64,
    units: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<(Vec<u64>, String)>,
    inconclusive: u64,
    stopped_early: bool,
    planned: u64,
    wall: f64,
}

#[allow(clippy::too_many_arguments)]
fn run_sub(id: &str, sub: &Sub, sub_index: usize, tier: &str, seed: u64, deadline: Instant, scale: f64) -> SubResult {
    let t0 = Instant::now();
    let n = if tier == "thorough" { sub.thorough } else { sub.quick };
    let n = ((n as f64 * scale) as u64).max(1);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let res = Mutex::new(SubResult {
        evals: 0,
        units: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        failure: None,
        inconclusive: 0,
        stopped_early: false,
        planned: n,
        wall: 0.0,
    });
    let workers = sub.workers.min(n as usize).max(1);
    let running: Vec<Mutex<Option<(u64, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (next, stop, res, running, done) = (&next, &stop, &res, &running, &done);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            res.lock().unwrap().stopped_early = true;
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let cs = case_seed(seed, sub.name, i);
                        *running[w].lock().unwrap() = Some((cs, Instant::now()));
                        mark(w, sub_index as u64 + 1, cs);
                        let mut src = Src::random(cs);
                        src.want_notes = i < 4;
                        let r = run_confirmed(&sub.f, &mut src);
                        *running[w].lock().unwrap() = None;
                        mark(w, 0, 0);
                        let mut g = res.lock().unwrap();
                        g.evals += 1;
                        g.units += src.units;
                        if src.nontrivial {
                            g.nontrivial.insert(hash64(&src.record));
                        }
                        for l in &src.labels {
                            *g.labels.entry(l.clone()).or_default() += 1;
                        }
                        if src.want_notes && !src.notes.is_empty() && g.samples.len() < 4 {
                            let mut t = src.notes.join("; ");
                            if t.len() > 400 {
                                let mut k = 400;
                                while !t.is_char_boundary(k) {
                                    k -= 1;
                                }
                                t.truncate(k);
                                t.push_str("...");
                            }
                            g.samples.push(format!("{}: {}", sub.name, t));
                        }
                        match r {
                            Ok(()) => {}
                            Err(None) => g.inconclusive += 1,
                            Err(Some(m)) => {
                                if g.failure.is_none() {
                                    g.failure = Some((src.record.clone(), m));
                                }
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // hang monitor
        while done.load(Ordering::SeqCst) < workers as u64 {
            std::thread::sleep(Duration::from_millis(20));
            for r in &running {
                let cur = *r.lock().unwrap();
                if let Some((cs, t)) = cur
                    && t.elapsed() > sub.hang
                {
                    hang(id, sub, cs);
                }
            }
        }
    });
    let mut r = res.into_inner().unwrap();
    r.wall = t0.elapsed().as_secs_f64();
    r
}

/// A case did not come back: run it twice more in processes of their own before believing it.
fn hang(id: &str, sub: &Sub, case_seed: u64) -> ! {
    let path = replay_path(id, sub.name);
    let v = serde_json::json!({"property": id, "sub": sub.name, "case_seed": case_seed,
        "message": "case did not terminate"});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    let mut all = true;
    for _ in 0..2 {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("replay")
            .arg(&path)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let t = Instant::now();
        let ended = loop {
            if let Ok(Some(_)) = c.try_wait() {
                break true;
            }
            if t.elapsed() > sub.hang {
                break false;
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        let _ = c.kill();
        let _ = c.wait();
        if ended {
            all = false;
            break;
        }
    }
    if all {
        println!("{}: {}: a case did not terminate in 3 of 3 runs of {} s", id, sub.name, sub.hang.as_secs());
        println!("VIOLATION property={} replay={}", id, path);
        std::process::exit(1);
    }
    eprintln!("ERROR: a case of {}/{} exceeded {} s once and not again: no verdict", id, sub.name, sub.hang.as_secs());
    std::process::exit(3);
}

// The cases that are running, kept in a file for the case that the process dies.
static INFLIGHT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
fn mark(worker: usize, sub: u64, case_seed: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = INFLIGHT.get() {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&sub.to_le_bytes());
        b[8..].copy_from_slice(&case_seed.to_le_bytes());
        let _ = f.write_at(&b, worker as u64 * 16);
    }
}

/// Runs the check in a child process; a child that dies (abort, stack overflow, exhausted memory) while running a
/// case that kills a process of its own twice more is a violation.
fn supervise(p: &Property, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let file = format!("{}/replays/.running-{}-{}", verif_dir(), p.id, std::process::id());
    std::fs::create_dir_all(format!("{}/replays", verif_dir())).ok();
    let st = std::process::Command::new(&exe).arg(p.id).arg(tier).env("VERIF_INFLIGHT", &file).status().expect("child");
    let slots = std::fs::read(&file).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let Some(sig) = st.signal() else { return st.code().unwrap_or(2) };
    for c in slots.chunks(16) {
        let sub = u64::from_le_bytes(c[..8].try_into().unwrap());
        let cs = u64::from_le_bytes(c[8..].try_into().unwrap());
        let Some(sub) = sub.checked_sub(1).and_then(|i| p.subs.get(i as usize)) else { continue };
        let path = replay_path(p.id, sub.name);
        let v = serde_json::json!({"property": p.id, "sub": sub.name, "case_seed": cs,
            "message": format!("the process dies with signal {sig}")});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
        let dies = (0..2).all(|_| {
            std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status().is_ok_and(|s| s.signal().is_some())
        });
        if dies {
            let msg = format!("a case kills the process (signal {sig}: abort, stack overflow or exhausted memory)");
            let ev = serde_json::json!({"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [msg.clone()]},
                "wall_s": t0.elapsed().as_secs_f64(), "assumptions": [p.assumptions], "violations": 1});
            let d = format!("{}/evidence", verif_dir());
            std::fs::create_dir_all(&d).ok();
            std::fs::write(format!("{d}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").ok();
            println!("{}: {}: {msg}", p.id, sub.name);
            println!("VIOLATION property={} replay={}", p.id, path);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("ERROR: the check died with signal {sig} and no single case repeats it: no verdict");
    3
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn replay_path(id: &str, sub: &str) -> String {
    let d = format!("{}/replays", verif_dir());
    std::fs::create_dir_all(&d).ok();
    format!("{d}/{id}-{sub}.json")
}

pub struct Known {
    pub property: String,
    pub sub: String,
    pub what: String,
}
fn known_findings() -> Vec<Known> {
    let p = format!("{}/known_findings.json", verif_dir());
    let Ok(t) = std::fs::read_to_string(p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: x["property"].as_str().unwrap_or("").into(),
                    sub: x["sub"].as_str().unwrap_or("").into(),
                    what: x["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn run_property(p: &Property, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let budget: u64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 3 * 3600 } else { 480 });
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let deadline = t0 + Duration::from_secs(budget);
    let known = known_findings();
    let only = std::env::var("VERIF_SUB").ok();
    let mut ev_subs = serde_json::Map::new();
    let (mut evals, mut nontriv, mut units, mut inconclusive) = (0u64, 0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut violations = vec![];
    let mut known_hit = vec![];
    let mut early = false;
    for (sub_index, sub) in p.subs.iter().enumerate() {
        if let Some(o) = &only
            && !sub.name.contains(o.as_str())
        {
            continue;
        }
        let r = run_sub(p.id, sub, sub_index, tier, seed, deadline, scale);
        evals += r.evals;
        units += r.units;
        nontriv += r.nontrivial.len() as u64;
        inconclusive += r.inconclusive;
        early |= r.stopped_early;
        samples.extend(r.samples.into_iter().take(3));
        eprintln!(
            "{} {:<34} cases {:>7}/{:<7} nontrivial {:>7} {:>7.1}s{}",
            p.id, sub.name, r.evals, r.planned, r.nontrivial.len(), r.wall,
            if r.failure.is_some() { "  FAILED" } else { "" }
        );
        ev_subs.insert(
            sub.name.into(),
            serde_json::json!({"cases": r.evals, "planned": r.planned, "checked_units": r.units,
                "distinct_nontrivial": r.nontrivial.len(), "labels": r.labels, "wall_s": r.wall,
                "inconclusive_timeouts": r.inconclusive}),
        );
        if let Some((rec, msg)) = r.failure {
            if let Some(k) = known.iter().find(|k| k.property == p.id && k.sub == sub.name) {
                println!("KNOWN-FINDING: property={} {}", p.id, k.what);
                known_hit.push(k.what.clone());
                continue;
            }
            let (rec, msg) = shrink(&sub.f, rec, msg, Duration::from_secs(25));
            let mut s = Src::replaying(rec.clone());
            let _ = run_case(&sub.f, &mut s);
            let path = replay_path(p.id, sub.name);
            let v = serde_json::json!({"property": p.id, "sub": sub.name, "choices": rec, "message": msg,
                "input": s.notes, "how": format!("{} replay {}", std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default(), path)});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
            println!("{}: {}: {}", p.id, sub.name, msg);
            for n in s.notes.iter().take(20) {
                println!("    {n}");
            }
            println!("VIOLATION property={} replay={}", p.id, path);
            violations.push(serde_json::json!({"sub": sub.name, "message": msg, "replay": path}));
            if tier != "thorough" {
                break;
            }
        }
    }
    let mut ev = serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontriv, "rule": p.rule,
            "samples": samples, "checked_units": units, "subchecks": ev_subs,
            "inconclusive_timeouts": inconclusive, "stopped_early_by_time_budget": early,
            "known_findings_seen": known_hit,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "assumptions": [p.assumptions],
    });
    ev["violations"] = serde_json::json!(violations.len());
    if only.is_none() {
        let d = format!("{}/evidence", verif_dir());
        std::fs::create_dir_all(&d).ok();
        std::fs::write(format!("{d}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence file");
    }
    if violations.is_empty() { 0 } else { 1 }
}

/// Command line: `BIN ID [quick|thorough]` or `BIN replay FILE`.
pub fn main(props: Vec<Property>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("json");
            let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property of this binary");
            let s = p.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("sub check");
            let mut src = match v["choices"].as_array() {
                Some(a) => Src::replaying(a.iter().map(|x| x.as_u64().unwrap()).collect()),
                None => Src::random(v["case_seed"].as_u64().unwrap()),
            };
            src.want_notes = true;
            let r = run_case(&s.f, &mut src);
            for n in &src.notes {
                println!("    {n}");
            }
            match r {
                Ok(()) => {
                    println!("passes");
                    0
                }
                Err(e) => {
                    println!("FAILS: {}", e.msg);
                    1
                }
            }
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => {
            let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match props.iter().find(|p| p.id == id) {
                Some(p) => match std::env::var("VERIF_INFLIGHT") {
                    Ok(f) => {
                        if let Ok(f) = std::fs::File::create(f) {
                            let _ = INFLIGHT.set(f);
                        }
                        run_property(p, &tier, seed)
                    }
                    Err(_) => supervise(p, &tier, seed),
                },
                None => {
                    eprintln!("ERROR: unknown property {id}");
                    2
                }
            }
        }
        None => 2,
    };
    std::process::exit(code)
}
