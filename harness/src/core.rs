//! Running a property: definitions, one case, and the worker loop.
use crate::known::Known;
use crate::tape::{Src, Tapes};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Res = Result<(), String>;

pub struct Exhaustive {
    pub what: &'static str,
    pub total: fn(thorough: bool) -> u64,
    pub run: fn(index: u64, cx: &mut Cx) -> Res,
}

/// A specific input that is known to fail.
pub struct Witness {
    pub key: &'static str,
    pub run: fn(cx: &mut Cx) -> Res,
}

pub struct Def {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    /// Local time zones, shared out among the workers.
    pub zones: &'static [&'static str],
    /// Number of cases over all workers.
    pub quick: u64,
    pub thorough: u64,
    /// Longest tape.
    pub tape: usize,
    pub run: fn(&mut Src, &mut Cx) -> Res,
    pub exhaustive: Option<Exhaustive>,
    pub witnesses: &'static [Witness],
}

pub struct Cx {
    pub id: &'static str,
    pub thorough: bool,
    pub zone: String,
    pub known: Known,
    text: String,
    nontrivial: bool,
    labels: Vec<String>,
    steps: u64,
    /// Whether the case asked for more choices than its tape has.
    short: bool,
    time: f64,
}

impl Cx {
    pub fn new(id: &'static str, thorough: bool, known: Known) -> Self {
        Cx {
            id,
            thorough,
            zone: std::env::var("TZ").unwrap_or_default(),
            known,
            text: String::new(),
            nontrivial: false,
            labels: vec![],
            steps: 0,
            short: false,
            time: 0.,
        }
    }

    /// Describes the case: what identifies it, and what is shown when it fails.
    pub fn note(&mut self, s: impl AsRef<str>) {
        if !self.text.is_empty() {
            self.text.push_str("\n--\n");
        }
        self.text.push_str(s.as_ref());
    }

    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, x: bool) {
        self.nontrivial |= x;
    }

    /// Executions of the library within the case, where a case is more than one.
    pub fn step(&mut self) {
        self.steps += 1;
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known.has(self.id, key)
    }

    pub fn is_utc(&self) -> bool {
        self.zone == "UTC"
    }

    fn reset(&mut self) {
        self.text.clear();
        self.nontrivial = false;
        self.labels.clear();
        self.steps = 0;
        self.short = false;
    }
}

pub fn hash64(s: &str) -> u64 {
    // FNV-1a then a finaliser: stable across runs and builds.
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51_afd7_ed55_8ccd);
            x ^ (x >> 33)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ u64::from(*c)).wrapping_mul(0x0100_0000_01b3);
            }
        }
    }
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    s.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub enum Case {
    Tape(Vec<u32>),
    Index(u64),
    Witness(String),
}

impl Case {
    pub fn to_json(&self) -> Value {
        match self {
            Case::Tape(t) => json!({ "tape": t }),
            Case::Index(i) => json!({ "index": i }),
            Case::Witness(k) => json!({ "witness": k }),
        }
    }

    pub fn from_json(v: &Value) -> Option<Case> {
        if let Some(t) = v.get("tape").and_then(Value::as_array) {
            return Some(Case::Tape(
                t.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect(),
            ));
        }
        if let Some(i) = v.get("index").and_then(Value::as_u64) {
            return Some(Case::Index(i));
        }
        v.get("witness")
            .and_then(Value::as_str)
            .map(|k| Case::Witness(k.into()))
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(ToString::to_string)
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((at, msg)));
    }));
}

/// Of one case: `Err(Harness)` is a mistake of ours.
pub enum Fail {
    Violation(String),
    Harness(String),
}

pub fn run_case(def: &Def, case: &Case, cx: &mut Cx) -> Result<(), Fail> {
    cx.reset();
    CASE.fetch_add(1, Ordering::SeqCst);
    record(case);
    let start = std::time::Instant::now();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match case {
        Case::Tape(t) => {
            let mut s = Src::new(t);
            let r = (def.run)(&mut s, cx);
            cx.short = s.used() > t.len();
            r
        }
        Case::Index(i) => match &def.exhaustive {
            Some(e) => (e.run)(*i, cx),
            None => Ok(()),
        },
        Case::Witness(k) => match def.witnesses.iter().find(|w| w.key == k) {
            Some(w) => (w.run)(cx),
            None => Ok(()),
        },
    }));
    cx.time = start.elapsed().as_secs_f64();
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(Fail::Violation(m)),
        Err(_) => {
            let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // Our own sources are compiled with relative paths.
            if at.starts_with("src/") {
                Err(Fail::Harness(format!(
                    "the harness panicked at {at}: {msg}\n{}",
                    cx.text
                )))
            } else {
                Err(Fail::Violation(format!("panic at {at}: {msg}")))
            }
        }
    }
}

pub static CASE: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static RECORD: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}

/// Keeps the case being run in a file, so that it is known when the process dies.
pub fn record_in(path: &str) -> std::io::Result<()> {
    let f = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(path)?;
    RECORD.with(|r| *r.borrow_mut() = Some(f));
    Ok(())
}

fn record(case: &Case) {
    use std::os::unix::fs::FileExt as _;
    RECORD.with(|r| {
        if let Some(f) = &*r.borrow() {
            let mut b = Vec::new();
            match case {
                Case::Tape(t) => {
                    b.extend_from_slice(&(t.len() as u64).to_le_bytes());
                    for x in t {
                        b.extend_from_slice(&x.to_le_bytes());
                    }
                }
                Case::Index(i) => {
                    b.extend_from_slice(&u64::MAX.to_le_bytes());
                    b.extend_from_slice(&i.to_le_bytes());
                }
                Case::Witness(_) => return,
            }
            let _ = f.write_all_at(&b, 0);
        }
    });
}

pub fn recorded(path: &str) -> Option<Case> {
    let b = std::fs::read(path).ok()?;
    let n = u64::from_le_bytes(b.get(0..8)?.try_into().ok()?);
    if n == u64::MAX {
        return Some(Case::Index(u64::from_le_bytes(
            b.get(8..16)?.try_into().ok()?,
        )));
    }
    let mut t = Vec::new();
    for i in 0..n as usize {
        t.push(u32::from_le_bytes(
            b.get(8 + i * 4..12 + i * 4)?.try_into().ok()?,
        ));
    }
    Some(Case::Tape(t))
}

/// Ends the process with status 3 when one case uses more than `limit` seconds of processor.
pub fn watchdog(limit: f64) {
    fn cpu() -> f64 {
        // SAFETY: plain system call filling a local structure.
        unsafe {
            let mut u: libc::rusage = std::mem::zeroed();
            libc::getrusage(libc::RUSAGE_SELF, &mut u);
            (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64
                + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 / 1e6
        }
    }
    std::thread::spawn(move || {
        let mut last = (CASE.load(Ordering::SeqCst), cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let now = CASE.load(Ordering::SeqCst);
            if now != last.0 {
                last = (now, cpu());
            } else if now != u64::MAX && cpu() - last.1 > limit {
                std::process::exit(3);
            }
        }
    });
}

pub fn limit_memory(bytes: u64) {
    // SAFETY: plain system call with a local structure.
    unsafe {
        let l = libc::rlimit {
            rlim_cur: bytes,
            rlim_max: bytes,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    steps: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    next_sample: u64,
    exhausted: u64,
    slowest: f64,
}

impl Stats {
    fn add(&mut self, cx: &Cx) {
        self.evaluations += 1;
        self.steps += cx.steps;
        self.slowest = self.slowest.max(cx.time);
        for l in &cx.labels {
            *self.labels.entry(l.clone()).or_default() += 1;
        }
        if cx.nontrivial {
            self.nontrivial += 1;
            self.hashes.insert(hash64(&cx.text));
            if self.nontrivial > self.next_sample {
                self.next_sample = self.next_sample * 12 + 1;
                if self.samples.len() < 5 {
                    self.samples.push(Value::String(cut(&cx.text, 1500)));
                }
            }
        }
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}… ({} octets)", &s[..i], s.len())
}

pub struct Job {
    pub shard: u64,
    pub of: u64,
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    /// To see a failure again with what came before it: nothing is shrunk, and as many cases are
    /// made but not run (of all kinds if it is not 0).
    pub again: Option<u64>,
}

/// Runs the share of one worker; the outcome as JSON.
pub fn work(def: &'static Def, job: &Job, known: Known) -> Value {
    let mut cx = Cx::new(def.id, job.thorough, known);
    let mut stats = Stats::default();
    let mut exhaustive = 0u64;
    let fail = |case: &Case, f: Fail, cx: &Cx| -> Value {
        match f {
            Fail::Violation(m) => json!({
                "outcome": "violation", "case": case.to_json(), "message": m,
                "text": cut(&cx.text, 20_000), "zone": cx.zone,
            }),
            Fail::Harness(m) => json!({ "outcome": "error", "message": m, "case": case.to_json() }),
        }
    };
    let mut outcome: Option<Value> = None;

    // Known failures: a listed one is reported, an unlisted one is a violation.
    let mut found = Vec::new();
    let skip = Cell::new(job.again.unwrap_or(0));
    let whole = skip.get() == 0;
    if whole && job.shard < def.zones.len() as u64 {
        for w in def.witnesses {
            let case = Case::Witness(w.key.to_string());
            match run_case(def, &case, &mut cx) {
                Ok(()) => (),
                Err(Fail::Violation(_)) if cx.is_known(w.key) => found.push(w.key),
                Err(f) => {
                    outcome = Some(fail(&case, f, &cx));
                    break;
                }
            }
        }
    }

    if let (None, Some(e), true) = (&outcome, &def.exhaustive, whole) {
        let total = (e.total)(job.thorough);
        let mut i = job.shard;
        while i < total {
            let case = Case::Index(i);
            match run_case(def, &case, &mut cx) {
                Ok(()) => {
                    stats.add(&cx);
                    exhaustive += 1;
                }
                Err(f) => {
                    outcome = Some(fail(&case, f, &cx));
                    break;
                }
            }
            i += job.of;
        }
    }

    if outcome.is_none() {
        let mut seed = [0u8; 32];
        let text = format!("{}/{}/{}", def.id, job.seed, job.shard);
        for (i, c) in seed.chunks_mut(8).enumerate() {
            c.copy_from_slice(&hash64(&format!("{text}/{i}")).to_le_bytes());
        }
        let config = Config {
            cases: job.cases as u32,
            failure_persistence: None,
            max_shrink_iters: if job.again.is_some() { 0 } else { 10_000 },
            max_shrink_time: 60_000,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let state = RefCell::new((cx, stats, None::<Value>));
        let before = Cell::new(0);
        let strategy = Tapes { max_len: def.tape };
        let r = runner.run(&strategy, |tape| {
            let (cx, stats, last) = &mut *state.borrow_mut();
            // A mistake of ours ends the search: shrinking it is not useful.
            if last.as_ref().is_some_and(|l| l["outcome"] == "error") {
                return Err(TestCaseError::fail("harness"));
            }
            if skip.get() > 0 {
                skip.set(skip.get() - 1);
                return Ok(());
            }
            let case = Case::Tape(tape);
            match run_case(def, &case, cx) {
                Ok(()) => {
                    if last.is_none() {
                        before.set(before.get() + 1);
                        stats.add(cx);
                        stats.exhausted += u64::from(cx.short);
                    }
                    Ok(())
                }
                Err(f) => {
                    *last = Some(fail(&case, f, cx));
                    Err(TestCaseError::fail("violation"))
                }
            }
        });
        let (_, st, mut last) = state.into_inner();
        stats = st;
        if let Some(l) = &mut last {
            l["before"] = json!(before.get());
        }
        match r {
            Ok(()) => (),
            Err(TestError::Fail(..)) => outcome = last,
            Err(TestError::Abort(m)) => {
                outcome = Some(json!({ "outcome": "error", "message": format!("aborted: {m}") }));
            }
        }
    }

    CASE.store(u64::MAX, Ordering::SeqCst);
    let mut v = outcome.unwrap_or_else(|| json!({ "outcome": "held" }));
    v["evaluations"] = json!(stats.evaluations);
    v["steps"] = json!(stats.steps);
    v["nontrivial"] = json!(stats.nontrivial);
    v["hashes"] = json!(stats.hashes.iter().collect::<Vec<_>>());
    v["labels"] = json!(stats.labels);
    v["samples"] = json!(stats.samples);
    v["enumerated"] = json!(exhaustive);
    v["known"] = json!(found);
    v["exhausted"] = json!(stats.exhausted);
    v["slowest"] = json!(stats.slowest);
    v["zone"] = json!(std::env::var("TZ").unwrap_or_default());
    v
}

/// Runs one recorded case.
pub fn replay(def: &'static Def, case: &Case, thorough: bool, known: Known) -> Result<(), Fail> {
    let mut cx = Cx::new(def.id, thorough, known);
    let r = run_case(def, case, &mut cx);
    println!("{}", cx.text);
    r
}
