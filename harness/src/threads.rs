//! C22: the thread helpers and the error type against what was handed in.

use std::collections::HashSet;
use std::error::Error as _;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::thread::{self, JoinHandle, ThreadId};
use std::time::{Duration, Instant};

use serde_json::json;
use starry::utils::concurrent::Thread;
use starry::utils::errors::{Error, Errs, StarryResult};

use crate::inject;
use crate::pool::stack_size;
use crate::report::{guarded, run_cases, Report};
use crate::rng::Rng;

struct Deliberate(u64);

#[derive(Debug)]
struct Seen {
    value: u64,
    data: Vec<u8>,
    name: Option<String>,
    stack: Option<usize>,
    id: ThreadId,
}

struct Job {
    handle: JoinHandle<Seen>,
    runs: Arc<AtomicUsize>,
    value: u64,
    data: Vec<u8>,
    name: Option<String>,
    stack: usize,
    panics: Option<u64>,
    what: String,
}

/// uses up this much of the stack of the thread that runs it
#[inline(never)]
fn deep(from: usize, bytes: usize) -> u64 {
    let block = std::hint::black_box([bytes as u8; 1024]);
    let here = &block as *const _ as usize;
    if from.max(here) - from.min(here) >= bytes {
        return block[bytes % 1024] as u64;
    }
    deep(from, bytes) + std::hint::black_box(block)[17] as u64
}

fn name(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "".into(),
        1 => "x".repeat(rng.range(14, 17)),
        2 => "n".repeat(rng.range(100, 3000)),
        _ => rng.string(&['a', 'Z', '-', ' ', '0', 'é', '名', '\n', '/', '.'], 1, 20),
    }
}

fn threads_case(rep: &Report, case: u64, rng: &mut Rng) {
    let n = match rng.below(6) {
        0 => rng.range(20, 60),
        _ => rng.range(1, 8),
    };
    let mut jobs: Vec<Job> = vec![];
    let mut sig = vec![];
    let caller = thread::current().id();
    for _ in 0..n {
        let runs = Arc::new(AtomicUsize::new(0));
        let value = rng.u64();
        let len = rng.size(2000);
        let data = rng.bytes(len);
        let panics = if rng.chance(1, 5) { Some(rng.u64()) } else { None };
        let (kind, nm) = (rng.below(3), name(rng));
        let stack = if kind == 2 { *rng.pick(&[0usize, 1, 100, 16384, 65536, 1 << 20, 3_000_000, 5 << 20, 16 << 20, 40_000_000, 40_000_000, 160 << 20]) } else { 0 };
        // leaves room for what the frames of a debug build and the runtime need
        let panics = if stack == 0 || stack >= 65536 { panics } else { None };
        let depth = if stack >= 1 << 20 { stack * 4 / 5 } else if stack == 0 { 600_000 } else { 0 };
        let pause = rng.below(4) as u64;
        let (r, d) = (runs.clone(), data.clone());
        let f = move || {
            r.fetch_add(1, Ordering::SeqCst);
            if pause > 0 {
                thread::sleep(Duration::from_millis(pause))
            }
            if let Some(p) = panics {
                std::panic::resume_unwind(Box::new(Deliberate(p)))
            }
            if depth > 0 {
                let here = 0u8;
                std::hint::black_box(deep(&here as *const _ as usize, depth));
            }
            Seen { value, data: d, name: thread::current().name().map(|s| s.to_string()), stack: stack_size(), id: thread::current().id() }
        };
        let what = format!("{} name {:?} stack {} panics {}", ["spawn", "spawn_on_name", "spawn_on_custom"][kind], crate::report::clip(&nm, 40), stack, panics.is_some());
        sig.push(what.clone());
        rep.count("threads", 1);
        let refuse = rng.chance(1, 12);
        let make = || {
            guarded(|| match kind {
                0 => Thread::spawn(f),
                1 => Thread::spawn_on_name(nm.clone(), f),
                _ => Thread::spawn_on_custom(nm.clone(), stack, f),
            })
        };
        if refuse {
            match inject::refusing(0, 1, make) {
                Err(p) => return rep.violation(case, format!("{}, no thread to be had: {}", what, p), json!({})),
                Ok(Err(_)) => {
                    rep.count("threads refused by the system", 1);
                    let ran = runs.load(Ordering::SeqCst);
                    if ran > 0 {
                        return rep.violation(case, format!("{} was refused, its closure ran {} times", what, ran), json!({}));
                    }
                    continue;
                }
                // tried again and got it
                Ok(Ok(handle)) => jobs.push(Job { handle, runs, value, data, name: if kind == 0 { None } else { Some(nm) }, stack, panics, what }),
            }
            continue;
        }
        let made = make();
        let handle = match made {
            Ok(Ok(h)) => h,
            // no more threads to be had: then the closure must not run
            Ok(Err(e)) => {
                rep.count("refused threads", 1);
                thread::sleep(Duration::from_millis(20));
                if runs.load(Ordering::SeqCst) > 0 {
                    return rep.violation(case, format!("{} was refused ({}), its closure ran", what, e), json!({}));
                }
                if n < 20 {
                    return rep.violation(case, format!("{} was refused: {}", what, e), json!({}));
                }
                continue;
            }
            Err(p) => return rep.violation(case, format!("{}: {}", what, p), json!({})),
        };
        jobs.push(Job { handle, runs, value, data, name: if kind == 0 { None } else { Some(nm) }, stack, panics, what });
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut jobs);
    }
    let mut ids = HashSet::new();
    for j in jobs {
        let bad = |what: String| rep.violation(case, format!("{}: {}", j.what, what), json!({"threads": sig}));
        let res = j.handle.join();
        let runs = j.runs.load(Ordering::SeqCst);
        if runs != 1 {
            return bad(format!("the closure ran {} times by the time join() returned", runs));
        }
        match (res, j.panics) {
            (Err(p), Some(want)) => match p.downcast_ref::<Deliberate>() {
                Some(d) if d.0 == want => rep.count("panics that reached the handle", 1),
                _ => return bad("join() gave another panic than the closure's".into()),
            },
            (Ok(s), None) => {
                if s.value != j.value || s.data != j.data {
                    return bad("join() gave another value than the closure's".into());
                }
                if j.name.is_some() && s.name != j.name {
                    return bad(format!("the thread is named {:?}", s.name));
                }
                if s.id == caller || !ids.insert(s.id) {
                    return bad("the closure did not run in a thread of its own".into());
                }
                if let Some(n) = s.stack {
                    rep.count("stack sizes compared", 1);
                    if n < j.stack {
                        return bad(format!("the thread has a stack of {} bytes", n));
                    }
                }
            }
            (Err(_), None) => return bad("join() gave a panic, the closure did not panic".into()),
            (Ok(_), Some(_)) => return bad("the closure panicked, join() gave a value".into()),
        }
    }
    rep.distinct(format!("{:?}", sig).as_bytes());
    rep.sample(|| json!({"threads": sig.iter().take(6).collect::<Vec<_>>()}));
}

fn sleep_case(rep: &Report, case: u64, rng: &mut Rng) {
    let d = match rng.below(5) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(rng.below(999_999) as u64),
        2 => Duration::from_micros(rng.range(1000, 30_000) as u64),
        _ => Duration::from_millis(rng.range(1, 60) as u64),
    };
    let mut late = vec![];
    for _ in 0..4 {
        let t = Instant::now();
        if let Err(p) = guarded(|| Thread::sleep(d)) {
            return rep.violation(case, format!("Thread::sleep({:?}): {}", d, p), json!({}));
        }
        let took = t.elapsed();
        rep.count("sleeps", 1);
        if took < d {
            return rep.violation(case, format!("Thread::sleep({:?}) came back after {:?}", d, took), json!({}));
        }
        // several times in a row, which no busy machine explains
        if took < d * 2 + Duration::from_secs(2) {
            rep.distinct(format!("sleep {:?}", d).as_bytes());
            return;
        }
        late.push(took);
    }
    rep.violation(case, format!("Thread::sleep({:?}) took {:?}", d, late), json!({}));
}

#[derive(Debug)]
struct Cause(String);

impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Cause {}

fn through(e: Error) -> StarryResult<u8> {
    let r: StarryResult<u8> = Err(e);
    Ok(r? + 1)
}

fn errors_case(rep: &Report, case: u64, rng: &mut Rng) {
    let mut text = |rng: &mut Rng| match rng.below(8) {
        0 => "".to_string(),
        1 => "long ".repeat(rng.range(100, 5000)),
        _ => rng.string(&['a', 'B', ' ', ':', '{', '}', '%', '\n', 'é', '错', '\\', '"', '\0'], 0, 30),
    };
    let (m, c) = (text(rng), text(rng));
    let n = rng.u64();
    let both = format!("{}: {}", m, c);
    let io = || std::io::Error::new(std::io::ErrorKind::Other, c.clone());
    let made: Vec<(&str, Result<Error, String>, String)> = vec![
        ("string", guarded(|| Errs::string(m.clone())), m.clone()),
        ("str", guarded(|| Errs::str(&m)), m.clone()),
        ("err", guarded(|| Errs::err(Cause(m.clone()))), m.clone()),
        ("err of an io::Error", guarded(|| Errs::err(io())), c.clone()),
        ("strs", guarded(|| Errs::strs(&m, Cause(c.clone()))), both.clone()),
        ("strs of a String", guarded(|| Errs::strs(&m, c.clone())), both.clone()),
        ("strs of an io::Error", guarded(|| Errs::strs(&m, io())), both.clone()),
        ("strs of a number", guarded(|| Errs::strs(&m, n)), format!("{}: {}", m, n)),
        ("strings", guarded(|| Errs::strings(m.clone(), Cause(c.clone()))), both.clone()),
        ("strings of a &str", guarded(|| Errs::strings(m.clone(), c.as_str())), both.clone()),
    ];
    rep.distinct(format!("{} | {}", m, c).as_bytes());
    for (what, e, want) in made {
        rep.count("errors", 1);
        let e = match e {
            Ok(e) => e,
            Err(p) => return rep.violation(case, format!("Errs::{}: {}", what, p), json!({"message": m, "cause": c})),
        };
        // wrapped in another error and handed through a function, it is still readable
        let again = Errs::err(through(e.clone()).unwrap_err());
        let outer = Errs::strs("outer", &e);
        let source = e.source().map(|s| s.to_string());
        let ok = e.to_string() == want && again.to_string() == want && e.clone().to_string() == want && format!("{}", e) == want
            && outer.to_string() == format!("outer: {}", want) && source.map(|s| s == want).unwrap_or(true)
            && Box::<dyn std::error::Error + Send + Sync>::from(e.clone()).to_string() == want;
        if !ok {
            return rep.violation(case, format!("Errs::{} reads {:?}, expected {:?}", what, crate::report::clip(&e.to_string(), 200), crate::report::clip(&want, 200)), json!({"message": m, "cause": c}));
        }
    }
}

pub fn c22(rep: &'static Report) {
    let max = if rep.opts.thorough { 60_000 } else { 4_000 };
    run_cases(rep, 2, max, |rep, case, rng| match rng.below(10) {
        0..=4 => threads_case(rep, case, rng),
        5 => sleep_case(rep, case, rng),
        _ => errors_case(rep, case, rng),
    });
}
