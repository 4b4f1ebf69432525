//! C01 / C02: the real ThreadPool under concurrent submitters, panics, re-entrant submission, handle
//! drops and injected delays at its scheduling points. Monitors: per-task run counters, a concurrency
//! gauge, start/finish events and the results of execute.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::json;
use starry::utils::concurrent::ThreadPool;

use crate::inject;
use crate::report::{lock, wait_until, Report, DELIBERATE};
use crate::rng::{hash_bytes, Rng};

const BOUND: u64 = 25;

// ---------------------------------------------------------------- scheduling points

static MODE: AtomicU32 = AtomicU32::new(0);
static TARGET: AtomicU32 = AtomicU32::new(0);
static NOISE: AtomicU64 = AtomicU64::new(1);
static TRACE: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static POINTS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());

const NAMES: [&str; 9] = [
    "pool.fill", "pool.idle", "pool.idle.push", "pool.task", "pool.execute.direct", "pool.execute.queue",
    "pool.execute.notify", "pool.work.done", "pool.work.panic",
];

#[allow(dead_code)]
fn on_point(name: &'static str) {
    let code = NAMES.iter().position(|n| *n == name).unwrap_or(NAMES.len()) as u32;
    {
        let mut t = lock(&TRACE);
        if t.len() < 4000 {
            t.push(code as u8)
        }
        *lock(&POINTS).entry(name).or_insert(0) += 1;
    }
    let x = NOISE.fetch_add(0x9e3779b97f4a7c15, SeqCst);
    let r = hash_bytes(&x.to_le_bytes());
    match MODE.load(SeqCst) {
        0 => {}
        1 => {
            if r % 3 == 0 {
                std::thread::yield_now()
            }
        }
        2 => match r % 4 {
            0 => std::thread::sleep(Duration::from_micros(r / 7 % 150)),
            1 => std::thread::yield_now(),
            _ => {}
        },
        _ => {
            // stretch one particular window
            if TARGET.load(SeqCst) == code && r % 4 != 0 {
                std::thread::sleep(Duration::from_micros(100 + r / 7 % 1200))
            }
        }
    }
}

fn noise(r: &mut Rng) {
    MODE.store(r.below(5) as u32, SeqCst);
    TARGET.store(r.below(NAMES.len()) as u32, SeqCst);
    NOISE.store(r.u64(), SeqCst);
    lock(&TRACE).clear();
    #[cfg(starry_verif)]
    starry::verif::set_point(Some(on_point));
}

fn trace_sig() -> u64 {
    hash_bytes(&lock(&TRACE))
}

// ---------------------------------------------------------------- monitored pool

/// what the monitors know about one submitted task
struct Task {
    runs: AtomicU32,
    accepted: AtomicU32, // 0 open, 1 accepted, 2 refused
    ended: AtomicBool,
}

struct Mon {
    size: usize,
    prefix: Option<String>,
    tasks: Mutex<Vec<Arc<Task>>>,
    active: AtomicUsize,
    max_active: AtomicUsize,
    begun: AtomicUsize,
    errs: AtomicUsize,
    started: AtomicUsize,
    ended: AtomicUsize,
    threads: Mutex<HashSet<String>>,
    stack: usize,
    stacks: AtomicUsize,
    problems: Mutex<Vec<String>>,
    task_count: usize,
}

#[derive(Clone)]
enum Kind {
    Quick,
    Yield(usize),
    Sleep(u64),
    Panic,
    SleepPanic(u64),
    /// a panic whose payload is not a string literal
    Payload(usize),
    /// submit further tasks from inside the pool
    Nested(Vec<Kind>),
    /// waits until the gate opens; counts itself in first
    Hold(Arc<Gate>),
    HoldPanic(Arc<Gate>),
    /// as Hold, and submits when told to meanwhile
    HoldSubmit(Arc<Gate>, Arc<Fill>),
}

/// what a held task is to submit to its own pool
#[derive(Default)]
struct Fill {
    n: AtomicUsize,
    ok: AtomicUsize,
    done: AtomicBool,
}

#[derive(Default)]
struct Gate {
    entered: AtomicUsize,
    open: AtomicBool,
}

/// the stack size of the calling thread
pub fn stack_size() -> Option<usize> {
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        if libc::pthread_getattr_np(libc::pthread_self(), &mut attr) != 0 {
            return None;
        }
        let mut n: libc::size_t = 0;
        let ok = libc::pthread_attr_getstacksize(&attr, &mut n) == 0;
        libc::pthread_attr_destroy(&mut attr);
        if ok { Some(n) } else { None }
    }
}

struct Active<'a>(&'a Mon, &'a Task);

impl Drop for Active<'_> {
    fn drop(&mut self) {
        self.1.ended.store(true, SeqCst);
        self.0.active.fetch_sub(1, SeqCst);
        self.0.ended.fetch_add(1, SeqCst);
    }
}

impl Mon {
    fn problem(&self, s: String) {
        let mut p = lock(&self.problems);
        if p.len() < 5 {
            p.push(s)
        }
    }

    fn submit(self: &Arc<Self>, pool: &ThreadPool, kind: Kind) -> bool {
        let task = Arc::new(Task { runs: AtomicU32::new(0), accepted: AtomicU32::new(0), ended: AtomicBool::new(false) });
        lock(&self.tasks).push(task.clone());
        let s0 = self.started.load(SeqCst);
        let e0 = self.errs.load(SeqCst);
        self.begun.fetch_add(1, SeqCst);
        let mon = self.clone();
        let t = task.clone();
        // a nested task keeps its own handle, as a caller would
        let inner = match &kind {
            Kind::Nested(_) | Kind::HoldSubmit(..) => Some(pool.clone()),
            _ => None,
        };
        let r = pool.execute(move || mon.run(&t, kind, inner));
        match r {
            Ok(()) => {
                task.accepted.store(1, SeqCst);
                true
            }
            Err(_) => {
                let b = self.begun.load(SeqCst);
                let waiting_at_most = (b - 1).saturating_sub(e0).saturating_sub(s0);
                if waiting_at_most < self.task_count {
                    self.problem(format!(
                        "execute refused a task although at most {} accepted tasks can have been waiting (task_count {})",
                        waiting_at_most, self.task_count
                    ));
                }
                task.accepted.store(2, SeqCst);
                self.errs.fetch_add(1, SeqCst);
                false
            }
        }
    }

    fn run(self: &Arc<Self>, t: &Task, kind: Kind, pool: Option<ThreadPool>) {
        self.started.fetch_add(1, SeqCst);
        let a = self.active.fetch_add(1, SeqCst) + 1;
        let _active = Active(self, t);
        self.max_active.fetch_max(a, SeqCst);
        if a > self.size {
            self.problem(format!("{} tasks ran simultaneously on a pool of size {}", a, self.size))
        }
        let n = t.runs.fetch_add(1, SeqCst) + 1;
        if n > 1 {
            self.problem(format!("a task ran {} times", n))
        }
        let name = std::thread::current().name().unwrap_or("").to_string();
        if let Some(p) = &self.prefix {
            if !name.starts_with(p.as_str()) {
                self.problem(format!("a task ran on thread {:?}, not on a worker named {:?}*", name, p))
            }
        }
        if self.stack > 0 {
            if let Some(n) = stack_size() {
                self.stacks.fetch_add(1, SeqCst);
                if n < self.stack {
                    self.problem(format!("a task ran on a thread with a stack of {} bytes, the pool was configured with {}", n, self.stack))
                }
            }
        }
        lock(&self.threads).insert(name);
        match kind {
            Kind::Quick => {}
            Kind::Yield(n) => {
                for _ in 0..n {
                    std::thread::yield_now()
                }
            }
            Kind::Sleep(us) => std::thread::sleep(Duration::from_micros(us)),
            Kind::Panic => panic!("{}", DELIBERATE),
            Kind::SleepPanic(us) => {
                std::thread::sleep(Duration::from_micros(us));
                panic!("{}", DELIBERATE)
            }
            Kind::Payload(0) => std::panic::panic_any(41u32),
            Kind::Payload(1) => std::panic::resume_unwind(Box::new(())),
            Kind::Payload(2) => std::panic::panic_any(vec![1u8; 3000]),
            Kind::Payload(_) => std::panic::resume_unwind(Box::new(std::io::Error::new(std::io::ErrorKind::Other, DELIBERATE))),
            Kind::Nested(kinds) => {
                if let Some(p) = pool {
                    for k in kinds {
                        self.submit(&p, k);
                    }
                }
            }
            Kind::Hold(g) => {
                g.entered.fetch_add(1, SeqCst);
                while !g.open.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(300))
                }
            }
            Kind::HoldSubmit(g, fill) => {
                g.entered.fetch_add(1, SeqCst);
                while !g.open.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(300));
                    let n = fill.n.swap(0, SeqCst);
                    if n > 0 {
                        for _ in 0..n {
                            if self.submit(pool.as_ref().unwrap(), Kind::Quick) {
                                fill.ok.fetch_add(1, SeqCst);
                            }
                        }
                        fill.done.store(true, SeqCst);
                    }
                }
            }
            Kind::HoldPanic(g) => {
                g.entered.fetch_add(1, SeqCst);
                while !g.open.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(300))
                }
                panic!("{}", DELIBERATE)
            }
        }
    }

    fn accepted(&self) -> usize {
        lock(&self.tasks).iter().filter(|t| t.accepted.load(SeqCst) == 1).count()
    }

    /// all accepted tasks (except `held`, which wait at a gate) have ended
    fn quiet(&self, held: usize) -> bool {
        let ts = lock(&self.tasks);
        let open = ts.iter().filter(|t| t.accepted.load(SeqCst) != 2 && !t.ended.load(SeqCst)).count();
        open <= held
    }

    fn settle(&self, held: usize, when: &str) {
        if !wait_until(BOUND, || self.quiet(held)) {
            let ts = lock(&self.tasks);
            let lost = ts.iter().filter(|t| t.accepted.load(SeqCst) == 1 && t.runs.load(SeqCst) == 0).count();
            let open = ts.iter().filter(|t| t.accepted.load(SeqCst) == 0).count();
            drop(ts);
            self.problem(format!(
                "{}: {} accepted tasks were not run within {} s while {} of {} workers were busy (calls of execute still open: {})",
                when, lost, BOUND, self.active.load(SeqCst), self.size, open
            ));
        }
    }

    fn check_counts(&self, when: &str) {
        for t in lock(&self.tasks).iter() {
            let (a, n) = (t.accepted.load(SeqCst), t.runs.load(SeqCst));
            if a == 2 && n != 0 {
                self.problem(format!("{}: a refused task ran {} times", when, n))
            }
            if a == 1 && n > 1 {
                self.problem(format!("{}: an accepted task ran {} times", when, n))
            }
        }
    }
}

fn build(r: &mut Rng, size: usize, task_count: usize) -> Result<(ThreadPool, Arc<Mon>), String> {
    let prefix = format!("w{}-", r.below(100000));
    let stack = *r.pick(&[1usize << 20, 2_000_000, 3 << 20, 5_000_000, 40 << 20, 130 << 20]);
    let (pool, prefix, task_count, stack) = match r.below(6) {
        0 if task_count == 100 => (ThreadPool::new(size), None, 100, 0),
        1 if task_count == 100 => (ThreadPool::new_with_name(prefix.clone(), size), Some(prefix), 100, 0),
        2 => (ThreadPool::new_custom(prefix.clone(), size, stack, task_count), Some(prefix), task_count, stack),
        _ => {
            let mut b = ThreadPool::builder();
            b.pool_size(size).name_prefix(prefix.clone()).task_count(task_count);
            let stack = if r.chance(1, 3) && size < 50 { stack } else { 0 };
            if stack > 0 {
                b.stack_size(stack);
            }
            // a builder serves more than once
            if r.chance(1, 3) {
                b.create().map_err(|e| e.to_string())?;
            }
            (b.create(), Some(prefix), task_count, stack)
        }
    };
    let pool = pool.map_err(|e| e.to_string())?;
    if pool.size() != size {
        return Err(format!("size() is {} for a pool of {}", pool.size(), size));
    }
    let mon = Arc::new(Mon {
        size,
        prefix,
        tasks: Mutex::new(vec![]),
        active: AtomicUsize::new(0),
        max_active: AtomicUsize::new(0),
        begun: AtomicUsize::new(0),
        errs: AtomicUsize::new(0),
        started: AtomicUsize::new(0),
        ended: AtomicUsize::new(0),
        threads: Mutex::new(HashSet::new()),
        stack,
        stacks: AtomicUsize::new(0),
        problems: Mutex::new(vec![]),
        task_count,
    });
    Ok((pool, mon))
}

fn kind(r: &mut Rng, panics: usize, depth: usize) -> Kind {
    if r.below(100) < panics {
        return match r.below(5) {
            0 | 1 => Kind::Panic,
            2 => Kind::Payload(r.below(4)),
            _ => Kind::SleepPanic(r.range(0, 400) as u64),
        };
    }
    match r.below(8) {
        0..=3 => Kind::Quick,
        4 => Kind::Yield(r.range(1, 20)),
        5 if depth < 2 => Kind::Nested((0..r.range(1, 3)).map(|_| kind(r, panics, depth + 1)).collect()),
        _ => Kind::Sleep(*r.pick(&[0u64, 30, 100, 400, 1500])),
    }
}

/// `n` tasks from each of `k` threads with their own handles
fn burst(r: &mut Rng, pool: &ThreadPool, mon: &Arc<Mon>, k: usize, n: usize, panics: usize) {
    let plans: Vec<Vec<(Kind, u64)>> = (0..k)
        .map(|_| (0..n).map(|_| (kind(r, panics, 0), if r.chance(1, 3) { r.range(0, 300) as u64 } else { 0 })).collect())
        .collect();
    let go = Arc::new(AtomicBool::new(false));
    let hs: Vec<_> = plans
        .into_iter()
        .map(|p| {
            let pool = pool.clone();
            let mon = mon.clone();
            let go = go.clone();
            std::thread::spawn(move || {
                while !go.load(SeqCst) {
                    std::thread::yield_now()
                }
                for (k, pause) in p {
                    if pause > 0 {
                        std::thread::sleep(Duration::from_micros(pause))
                    }
                    mon.submit(&pool, k);
                }
            })
        })
        .collect();
    go.store(true, SeqCst);
    for h in hs {
        let _ = h.join();
    }
}

/// `n` tasks one after another with as many in flight as the pool takes; a refused one is tried again
fn marathon(r: &mut Rng, pool: &ThreadPool, mon: &Arc<Mon>, submitters: usize, n: usize, panics: usize) {
    let hs: Vec<_> = (0..submitters)
        .map(|_| {
            let (pool, mon) = (pool.clone(), mon.clone());
            let mut r = Rng::new(r.u64(), 0);
            std::thread::spawn(move || {
                for _ in 0..n / submitters {
                    let k = if r.below(100) < panics {
                        if r.chance(1, 3) { Kind::Payload(r.below(4)) } else { Kind::Panic }
                    } else {
                        Kind::Quick
                    };
                    let mut waits = 0;
                    while !mon.submit(&pool, k.clone()) {
                        std::thread::sleep(Duration::from_micros(500));
                        waits += 1;
                        if waits > 20_000 {
                            mon.problem("execute went on refusing a task for 10 s although every task is short".to_string());
                            return;
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
}

/// a long quiet time, during which the pool must not lose its workers
fn idle(rep: &Report, r: &mut Rng) {
    let secs = if rep.opts.thorough { r.range(15, 75) } else if rep.opts.shard % 4 == 1 { 32 } else { 12 };
    std::thread::sleep(Duration::from_secs(secs as u64));
    rep.count("seconds pools were left idle and then used again", secs as u64);
}

/// threads of this process
fn threads_now() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

/// with its handles gone and its tasks done, nothing of the pool remains
fn gone(rep: &Report, mon: &Mon, before: usize) {
    let mut left = 0;
    if before > 0
        && !wait_until(BOUND, || {
            left = threads_now().saturating_sub(before);
            left == 0
        })
    {
        mon.problem(format!("{} threads are left {} s after the last handle of a pool of {} was dropped and its tasks had ended", left, BOUND, mon.size))
    }
    rep.count("pools whose threads had to end", 1);
}

static KEPT: Mutex<Vec<(u64, Arc<Mon>)>> = Mutex::new(Vec::new());

fn finish(rep: &Report, case: u64, mon: &Arc<Mon>, family: &str, params: String, before: usize) {
    inject::refuse_pools(0);
    if lock(&mon.problems).is_empty() {
        gone(rep, mon, before)
    }
    #[cfg(starry_verif)]
    starry::verif::set_point(None);
    mon.check_counts("at quiescence");
    let sig = trace_sig();
    let accepted = mon.accepted();
    rep.count("tasks submitted", mon.begun.load(SeqCst) as u64);
    rep.count("tasks accepted", accepted as u64);
    rep.count("tasks refused", mon.errs.load(SeqCst) as u64);
    rep.count("tasks started", mon.started.load(SeqCst) as u64);
    rep.count(&format!("scenarios {}", family), 1);
    rep.count("stack sizes of workers compared", mon.stacks.load(SeqCst) as u64);
    if mon.max_active.load(SeqCst) == mon.size {
        rep.count("scenarios in which all workers ran in parallel", 1);
    }
    {
        let mut p = lock(&POINTS);
        for (k, v) in p.iter() {
            rep.count(&format!("point {}", k), *v);
        }
        p.clear();
    }
    if accepted > 0 {
        rep.distinct_hash(sig ^ hash_bytes(params.as_bytes()))
    }
    rep.sample(|| json!({"family": family, "scenario": params, "accepted": accepted, "refused": mon.errs.load(SeqCst),
        "point_trace_prefix": lock(&TRACE).iter().take(60).map(|c| NAMES.get(*c as usize).unwrap_or(&"?").replace("pool.", "")).collect::<Vec<_>>()}));
    for p in lock(&mon.problems).drain(..) {
        rep.violation(case, p, json!({"family": family, "scenario": params, "noise_mode": MODE.load(SeqCst), "noise_target": NAMES[TARGET.load(SeqCst) as usize]}));
    }
    lock(&KEPT).push((case, mon.clone()));
}

/// after all scenarios: refused tasks still have not run, accepted ones still ran once
fn final_recheck(rep: &Report) {
    std::thread::sleep(Duration::from_millis(300));
    for (case, m) in lock(&KEPT).iter() {
        m.check_counts("at the end of the run");
        for p in lock(&m.problems).drain(..) {
            rep.violation(*case, p, json!({}));
        }
    }
    rep.count("scenarios rechecked at the end", lock(&KEPT).len() as u64);
}

pub fn c01(rep: &'static Report) {
    let max = if rep.opts.thorough { 4000 } else { 600 };
    crate::report::run_cases(rep, 1, max, |rep, case, r| {
        let before = threads_now();
        noise(r);
        let size = *r.pick(&[1usize, 1, 1, 2, 2, 3, 4, 6]);
        let task_count = *r.pick(&[1usize, 2, 3, 5, 8, 40, 100]);
        let family = *r.pick(&["rounds", "rounds", "rounds", "blockers", "drops", "flood"]);
        let panics = *r.pick(&[0usize, 0, 10, 30, 60]);
        let (family, size, task_count, panics) = match case % 800 {
            8 => ("marathon", r.range(1, 3), 100, 0),
            9 => ("marathon", r.range(1, 4), 50, 100),
            10 => ("idle", r.range(1, 4), 20, 20),
            13 => ("patience", r.range(1, 3), r.range(5, 50), 20),
            11 => ("rounds", *r.pick(&[40usize, 64, 130]), 100, panics),
            12 => ("flood", size, *r.pick(&[1000usize, 5000]), panics),
            _ => (family, size, task_count, panics),
        };
        let (pool, mon) = match build(r, size, task_count) {
            Ok(x) => x,
            Err(e) => return rep.violation(case, format!("pool could not be built: {}", e), json!({})),
        };
        let params = format!("{} size={} task_count={} panics={}%", family, size, task_count, panics);
        // the system has no thread to give for a moment when workers are to be replaced
        inject::refuse_pools(if panics > 0 && r.chance(1, 5) { r.range(1, 4) } else { 0 });
        match family {
            "rounds" => {
                // every round ends in quiescence, so that no later task can rescue a stranded one
                for i in 0..r.range(4, 14) {
                    let k = r.range(1, 4);
                    let n = r.range(1, 4);
                    burst(r, &pool, &mon, k, n, panics);
                    mon.settle(0, &format!("round {}", i));
                    if !lock(&mon.problems).is_empty() {
                        break;
                    }
                }
            }
            "marathon" => {
                let n = if panics > 0 { 3000 } else { 60_000 };
                let n = if rep.opts.thorough { n * 5 } else { n };
                let k = r.range(1, 3);
                MODE.store(r.below(2) as u32, SeqCst);
                marathon(r, &pool, &mon, k, n, panics);
                mon.settle(0, "after a marathon");
                for _ in 0..5 {
                    burst(r, &pool, &mon, 2, 3, 0);
                    mon.settle(0, "after a marathon and another burst");
                }
            }
            "idle" => {
                burst(r, &pool, &mon, 2, 10, panics);
                mon.settle(0, "before the idle time");
                idle(rep, r);
                for i in 0..4 {
                    burst(r, &pool, &mon, 2, 6, panics);
                    mon.settle(0, &format!("burst {} after the idle time", i));
                }
            }
            "patience" => {
                // tasks that take long, and others that wait for them as long
                let g = Arc::new(Gate::default());
                let mut held = 0;
                for _ in 0..size {
                    if mon.submit(&pool, Kind::Hold(g.clone())) {
                        held += 1
                    }
                }
                wait_until(BOUND, || g.entered.load(SeqCst) >= held);
                burst(r, &pool, &mon, 2, 6, panics);
                idle(rep, r);
                g.open.store(true, SeqCst);
                mon.settle(0, "after a long wait");
            }
            "blockers" => {
                // some workers are held: the free ones have to take everything else
                let g = Arc::new(Gate::default());
                let b = r.below(size);
                let mut held = 0;
                for _ in 0..b {
                    if mon.submit(&pool, Kind::Hold(g.clone())) {
                        held += 1
                    }
                }
                for i in 0..r.range(2, 8) {
                    let (k, n) = (r.range(1, 3), r.range(1, 5));
                    burst(r, &pool, &mon, k, n, panics);
                    mon.settle(held, &format!("round {} with {} workers held", i, held));
                    if !lock(&mon.problems).is_empty() {
                        break;
                    }
                }
                g.open.store(true, SeqCst);
                mon.settle(0, "after releasing the held workers");
            }
            "drops" => {
                // the last handle goes away right after submission
                let (k, n) = (r.range(1, 4), r.range(1, 12));
                burst(r, &pool, &mon, k, n, panics);
                for _ in 0..r.below(3) {
                    drop(pool.clone());
                }
                drop(pool);
                mon.settle(0, "after dropping every handle");
                return finish(rep, case, &mon, family, params, before);
            }
            _ => {
                for _ in 0..r.range(1, 3) {
                    let (k, n) = (r.range(2, 6), r.range(10, 60));
                    burst(r, &pool, &mon, k, n, panics);
                    mon.settle(0, "after a flood");
                }
            }
        }
        drop(pool);
        finish(rep, case, &mon, family, params, before);
    });
    final_recheck(rep);
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    (11..13).filter_map(|i| v.get(i).and_then(|x| x.parse::<u64>().ok())).sum()
}

/// runs in a process of its own: pools are created while the address space has room for some of
/// their threads only
pub fn starved_child(seed: u64) {
    let mut r = Rng::new(seed, 0x57a2);
    for _ in 0..10 {
        let size = r.range(2, 24);
        let stack = *r.pick(&[64usize << 20, 128 << 20, 256 << 20]);
        let room = r.below(size * stack) + *r.pick(&[0usize, 1 << 20, 3 << 20, 80 << 20]);
        let pages: usize = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(0);
        let limit = |n: u64| unsafe {
            let l = libc::rlimit { rlim_cur: n, rlim_max: libc::RLIM_INFINITY };
            libc::setrlimit(libc::RLIMIT_AS, &l)
        };
        let before = threads_now();
        limit((pages * 4096 + room) as u64);
        let made = crate::report::guarded(|| ThreadPool::new_custom("starved-".into(), size, stack, 10));
        limit(libc::RLIM_INFINITY);
        match made {
            Err(p) => println!("PROBLEM creating a pool of {} threads with room for some of them panics: {}", size, p),
            Ok(Ok(_)) => println!("created"),
            Ok(Err(_)) => {
                if !wait_until(BOUND, || threads_now() <= before) {
                    println!("PROBLEM {} threads are left {} s after a pool of {} could not be created", threads_now() - before, BOUND, size);
                }
                let c = cpu_ticks();
                std::thread::sleep(Duration::from_millis(300));
                let c = cpu_ticks() - c;
                if c > 20 {
                    println!("PROBLEM a pool that could not be created uses the processor: {} ticks in 0.3 s", c)
                }
                println!("refused")
            }
        }
    }
    println!("done")
}

fn starved(rep: &Report, case: u64, r: &mut Rng) {
    let seed = r.u64();
    let o = match std::process::Command::new(std::env::current_exe().unwrap()).arg("starved").arg(seed.to_string()).output() {
        Ok(o) => o,
        Err(e) => return rep.inconclusive(format!("child process: {}", e)),
    };
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    for l in text.lines() {
        match l.strip_prefix("PROBLEM ") {
            Some(p) => return rep.violation(case, p.to_string(), json!({"child": format!("starry-verif starved {}", seed)})),
            None => rep.count(&format!("pools created with little room for threads: {}", l), 1),
        }
    }
}

/// the system refuses one of the threads of a new pool
fn halfway(rep: &Report, case: u64, r: &mut Rng) {
    for _ in 0..4 {
        let before = threads_now();
        let size = r.range(1, 24);
        let after = r.below(size + 1);
        let times = *r.pick(&[1usize, 1, 2, 1000]);
        let made = inject::refusing(after, times, || crate::report::guarded(|| ThreadPool::new_custom("half-".into(), size, 0, 10)));
        let d = || json!({"size": size, "threads before the refusal": after, "refusals": times});
        match made {
            Err(p) => return rep.violation(case, format!("creating a pool of {}, one thread refused: {}", size, p), d()),
            Ok(Ok(_)) => rep.count("pools created in spite of a refused thread", 1),
            Ok(Err(_)) => rep.count("pools given up for a refused thread", 1),
        }
        if !wait_until(BOUND, || threads_now() <= before) {
            return rep.violation(case, format!("{} threads are left {} s after a pool of {} could not be created", threads_now() - before, BOUND, size), d());
        }
        rep.distinct(format!("half {} {} {}", size, after, times).as_bytes());
    }
}

pub fn c02(rep: &'static Report) {
    let max = if rep.opts.thorough { 2500 } else { 250 };
    crate::report::run_cases(rep, 1, max, |rep, case, r| {
        if case % 100 == 90 {
            return starved(rep, case, r);
        }
        if case % 10 == 5 {
            return halfway(rep, case, r);
        }
        let before = threads_now();
        noise(r);
        let size = *r.pick(&[1usize, 2, 2, 3, 4, 5, 8]);
        let task_count = *r.pick(&[1usize, 2, 3, 7, 20, 100, 100]);
        let special = case % 800;
        let (size, task_count) = match special {
            12 => (r.range(40, 150), 100),
            13 => (r.range(1, 4), *r.pick(&[1000usize, 4000])),
            _ => (size, task_count),
        };
        let (pool, mon) = if case % 40 == 0 {
            // the default pool: one worker per core, 100 waiting tasks
            let pool = match ThreadPool::default() {
                Ok(p) => p,
                Err(e) => return rep.violation(case, format!("default pool: {}", e), json!({})),
            };
            let n = pool.size();
            let (_, m) = build(r, n.max(1), 100).map_err(|e| rep.violation(case, e, json!({}))).unwrap();
            let m = Arc::new(Mon { prefix: None, stack: 0, size: n, task_count: 100, ..Arc::try_unwrap(m).ok().unwrap() });
            (pool, m)
        } else {
            match build(r, size, task_count) {
                Ok(x) => x,
                Err(e) => return rep.violation(case, format!("pool could not be built: {}", e), json!({})),
            }
        };
        let (size, task_count) = (mon.size, mon.task_count);
        let params = format!("size={} task_count={}", size, task_count);
        for round in 0..r.range(2, 4) {
            // the system has no thread to give for a moment when workers are to be replaced
            inject::refuse_pools(if r.chance(1, 4) { r.range(1, 5) } else { 0 });
            // a history of normal and panicking tasks
            let history = match (special, round) {
                (14, 0) => 10,
                (15, 0) => 11,
                (16, 0) => 12,
                _ => r.below(4),
            };
            match history {
                0 => {}
                10 => {
                    burst(r, &pool, &mon, 2, 5, 20);
                    mon.settle(0, "before the idle time");
                    idle(rep, r)
                }
                11 | 12 => {
                    let (n, p) = if history == 11 { (3000, 100) } else { (30_000, 0) };
                    MODE.store(0, SeqCst);
                    marathon(r, &pool, &mon, 2, if rep.opts.thorough { n * 4 } else { n }, p);
                    rep.count("tasks of marathons", n as u64);
                }
                1 => {
                    // every worker panics at the same time
                    let g = Arc::new(Gate::default());
                    let mut held = 0;
                    for _ in 0..size {
                        if mon.submit(&pool, Kind::HoldPanic(g.clone())) {
                            held += 1
                        }
                    }
                    wait_until(BOUND, || g.entered.load(SeqCst) >= held);
                    g.open.store(true, SeqCst);
                    rep.count("simultaneous panic bursts", 1);
                }
                _ => {
                    let (k, n) = (r.range(1, 4), r.range(1, 10));
                    let p = *r.pick(&[0usize, 20, 50, 100]);
                    burst(r, &pool, &mon, k, n, p);
                }
            }
            // sometimes go on while the pool is still digesting the burst
            if r.chance(3, 4) {
                mon.settle(0, "history");
            }
            // size() tasks have to run in parallel
            let g = Arc::new(Gate::default());
            let mut submitted = 0;
            // sometimes it is one of the pool's own tasks that fills the queue
            let fill = Arc::new(Fill::default());
            let inside = r.chance(1, 3);
            let ok = wait_until(BOUND, || {
                while submitted < size && mon.submit(&pool, if inside && submitted == 0 { Kind::HoldSubmit(g.clone(), fill.clone()) } else { Kind::Hold(g.clone()) }) {
                    submitted += 1
                }
                submitted == size && g.entered.load(SeqCst) == size
            });
            if !ok {
                mon.problem(format!(
                    "round {}: only {} of {} tasks got to run in parallel within {} s ({} accepted)",
                    round, g.entered.load(SeqCst), size, BOUND, submitted
                ));
                g.open.store(true, SeqCst);
                break;
            }
            rep.count("full-parallel barriers", 1);
            // all workers are busy and (history done) nothing waits: exactly task_count tasks are accepted
            if mon.quiet(size) {
                let extra = r.range(1, 6);
                let k = r.range(1, 4);
                let total = task_count + extra;
                let before = mon.started.load(SeqCst);
                let left = Arc::new(AtomicUsize::new(total));
                let ok = Arc::new(AtomicUsize::new(0));
                if inside {
                    fill.n.store(total, SeqCst);
                    left.store(0, SeqCst);
                    if !wait_until(BOUND, || fill.done.load(SeqCst)) {
                        mon.problem(format!("a task of the pool did not get {} submissions to its own pool done within {} s", total, BOUND));
                        g.open.store(true, SeqCst);
                        break;
                    }
                    ok.store(fill.ok.load(SeqCst), SeqCst);
                    rep.count("queue bounds measured from within the pool", 1);
                }
                let hs: Vec<_> = (0..k)
                    .map(|_| {
                        let (pool, mon, left, ok) = (pool.clone(), mon.clone(), left.clone(), ok.clone());
                        std::thread::spawn(move || {
                            while left.fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)).is_ok() {
                                if mon.submit(&pool, Kind::Quick) {
                                    ok.fetch_add(1, SeqCst);
                                }
                            }
                        })
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
                let got = ok.load(SeqCst);
                if got != task_count {
                    mon.problem(format!("with all {} workers busy {} of {} tasks were accepted, task_count is {}", size, got, total, task_count))
                }
                if mon.started.load(SeqCst) != before {
                    mon.problem(format!("a queued task started although all {} workers were held", size))
                }
                rep.count("queue bounds measured", 1);
            }
            g.open.store(true, SeqCst);
            mon.settle(0, "after the barrier");
            if !lock(&mon.problems).is_empty() {
                break;
            }
        }
        drop(pool);
        finish(rep, case, &mon, "barrier and bound", params, before);
    });
    final_recheck(rep);
}
