//! What a run observed: counts, distinct cases, samples, violations, inconclusive events.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::rng::{hash_bytes, Rng};

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: usize,
    pub shards: usize,
    pub only_case: Option<u64>,
    pub budget: Duration,
    pub scratch: String,
}

pub struct Report {
    pub opts: Opts,
    pub start: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    viols: Mutex<Vec<Value>>,
    incon: Mutex<Vec<String>>,
    stop: AtomicBool,
}

impl Report {
    pub fn new(opts: Opts) -> Report {
        Report {
            opts,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            counters: Default::default(),
            samples: Default::default(),
            viols: Default::default(),
            incon: Default::default(),
            stop: AtomicBool::new(false),
        }
    }
    pub fn eval(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }
    /// the case counted as distinct and non-trivial
    pub fn distinct(&self, sig: &[u8]) {
        lock(&self.distinct).insert(hash_bytes(sig));
    }
    pub fn distinct_hash(&self, h: u64) {
        lock(&self.distinct).insert(h);
    }
    pub fn count(&self, name: &str, n: u64) {
        *lock(&self.counters).entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, f: impl FnOnce() -> Value) {
        let mut s = lock(&self.samples);
        if s.len() < 3 {
            s.push(f())
        }
    }
    pub fn violation(&self, case: u64, what: String, detail: Value) {
        self.finding(case, what, detail);
        self.stop.store(true, Ordering::SeqCst);
    }
    /// a violation after which the exploration goes on
    pub fn finding(&self, case: u64, what: String, detail: Value) {
        let mut v = lock(&self.viols);
        if v.len() < 20 {
            v.push(json!({"case": case, "what": clip(&what, 2000), "detail": detail}));
        }
    }
    pub fn inconclusive(&self, what: String) {
        let mut v = lock(&self.incon);
        if v.len() < 10 {
            v.push(clip(&what, 1000))
        }
    }
    pub fn violated(&self) -> bool {
        self.stop.load(Ordering::SeqCst)
    }
    /// no more cases: violation found or time budget used up
    pub fn done(&self) -> bool {
        self.violated() || self.start.elapsed() > self.opts.budget
    }
    pub fn to_json(&self) -> Value {
        let distinct: Vec<u64> = lock(&self.distinct).iter().cloned().collect();
        json!({
            "evaluations": self.evals.load(Ordering::SeqCst),
            "distinct": distinct,
            "counters": *lock(&self.counters),
            "samples": *lock(&self.samples),
            "violations": *lock(&self.viols),
            "inconclusive": *lock(&self.incon),
        })
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// printable form of bytes, for samples and violation details
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(400) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(*c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()))
    }
    s
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// unexpected panics seen on any thread: (thread name, location, message)
pub static PANICS: Mutex<Vec<(String, String, String)>> = Mutex::new(Vec::new());

/// panic message used by tasks and handlers that panic on purpose
pub const DELIBERATE: &str = "deliberate panic of the workload";

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if !msg.starts_with(DELIBERATE) {
            let mut v = lock(&PANICS);
            if v.len() < 200 {
                let t = std::thread::current().name().unwrap_or("?").to_string();
                v.push((t, loc, msg));
            }
        }
    }));
}

/// runs one call of the code under test, a panic becomes Err(description)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic at {}: {}", loc, msg))
        }
    }
}

// ---------------------------------------------------------------- progress watchdog

pub struct Slot {
    pub case: u64,
    pub what: String,
    pub since: Instant,
}

/// the case is long, but it goes on
pub fn still_alive(case: u64) {
    for s in lock(&SLOTS).iter_mut().flatten() {
        if s.case == case {
            s.since = Instant::now()
        }
    }
}

pub static SLOTS: Mutex<Vec<Option<Slot>>> = Mutex::new(Vec::new());

/// Runs cases `0..max` of this shard on `threads` threads until the budget is used up.
/// Each case draws from its own stream, so `--case N` replays it alone.
pub fn run_cases(rep: &'static Report, threads: usize, max: u64, f: impl Fn(&Report, u64, &mut Rng) + Send + Sync + 'static) {
    let f = std::sync::Arc::new(f);
    let next = std::sync::Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    let threads = if rep.opts.only_case.is_some() { 1 } else { threads };
    for t in 0..threads {
        let f = f.clone();
        let next = next.clone();
        let slot = {
            let mut s = lock(&SLOTS);
            s.push(None);
            s.len() - 1
        };
        hs.push(std::thread::Builder::new().name(format!("case-{}", t)).stack_size(8 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let case = match rep.opts.only_case {
                    Some(c) => {
                        if i >= 1 {
                            break;
                        }
                        c
                    }
                    None => {
                        if i >= max || rep.done() {
                            break;
                        }
                        i * rep.opts.shards as u64 + rep.opts.shard as u64
                    }
                };
                lock(&SLOTS)[slot] = Some(Slot { case, what: String::new(), since: Instant::now() });
                let mut rng = Rng::new(rep.opts.seed, case);
                match guarded(|| f(rep, case, &mut rng)) {
                    Ok(()) => rep.eval(),
                    Err(e) => {
                        if e.contains("harness/src") || e.starts_with("panic at src/") {
                            rep.inconclusive(format!("harness error in case {}: {}", case, e))
                        } else {
                            rep.violation(case, format!("the code under test panicked: {}", e), json!({}))
                        }
                    }
                }
                lock(&SLOTS)[slot] = None;
            }
        }).unwrap());
    }
    for h in hs {
        let _ = h.join();
    }
}

/// Logical time for liveness verdicts: counts sleeps this process really got to finish, so a stalled
/// machine stretches the bound instead of producing an alarm.
pub struct Ticks {
    left: u64,
}

impl Ticks {
    pub fn secs(s: u64) -> Ticks {
        Ticks { left: s * 200 }
    }
    /// waits one tick, false when the bound is used up
    pub fn tick(&mut self) -> bool {
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        std::thread::sleep(Duration::from_millis(5));
        true
    }
}

/// waits until cond holds, false when it still does not after `secs` of logical time
pub fn wait_until(secs: u64, mut cond: impl FnMut() -> bool) -> bool {
    for i in 0..200 {
        if cond() {
            return true;
        }
        if i < 100 {
            std::thread::yield_now()
        } else {
            std::thread::sleep(Duration::from_micros(100))
        }
    }
    let mut t = Ticks::secs(secs);
    loop {
        if cond() {
            return true;
        }
        if !t.tick() {
            return cond();
        }
    }
}
