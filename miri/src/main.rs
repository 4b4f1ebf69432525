//! C01 / C02 under Miri: one small random history of the real pool per Miri seed. Miri chooses the schedule
//! and the (virtual) time, watches for data races and undefined behaviour, and reports a deadlock if nothing
//! can go on. The records are relaxed atomics, so that they order nothing the pool itself does not order.

use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::thread;
use std::time::Duration;

use starry::utils::concurrent::ThreadPool;

const TASKS: usize = 64;
const EVENTS: usize = 160;

struct Rng(u64);

impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 33) % n as u64) as usize
    }
    fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
}

struct Mon {
    next: AtomicUsize,
    runs: [AtomicUsize; TASKS],
    /// 1 accepted, 2 refused
    taken: [AtomicUsize; TASKS],
    running: AtomicUsize,
    most: AtomicUsize,
    unnamed: AtomicUsize,
    panics: AtomicUsize,
    events: [AtomicUsize; EVENTS],
    at: AtomicUsize,
}

fn zeros<const N: usize>() -> [AtomicUsize; N] {
    [(); N].map(|_| AtomicUsize::new(0))
}

impl Mon {
    fn new() -> Arc<Mon> {
        Arc::new(Mon {
            next: AtomicUsize::new(0),
            runs: zeros(),
            taken: zeros(),
            running: AtomicUsize::new(0),
            most: AtomicUsize::new(0),
            unnamed: AtomicUsize::new(0),
            panics: AtomicUsize::new(0),
            events: zeros(),
            at: AtomicUsize::new(0),
        })
    }
    fn event(&self, kind: usize, task: usize) {
        let i = self.at.fetch_add(1, Relaxed);
        if i < EVENTS {
            self.events[i].store(kind * 1000 + task + 1, Relaxed)
        }
    }
    fn enter(&self, task: usize) {
        let n = self.running.fetch_add(1, Relaxed) + 1;
        self.most.fetch_max(n, Relaxed);
        self.runs[task].fetch_add(1, Relaxed);
        self.event(1, task);
        if !thread::current().name().unwrap_or("").starts_with("miri-pool-") {
            self.unnamed.fetch_add(1, Relaxed);
        }
    }
    fn leave(&self, task: usize) {
        self.event(2, task);
        self.running.fetch_sub(1, Relaxed);
    }
}

/// the latest value: an atomic update reads no older one, and with this ordering it orders nothing
fn now(a: &AtomicUsize) -> usize {
    a.fetch_add(0, Relaxed)
}

fn violation(what: String) -> ! {
    println!("VIOLATION {}", what);
    std::process::exit(1)
}

fn pause(r: &mut Rng) {
    match r.below(6) {
        0 => thread::sleep(Duration::from_millis(r.range(1, 40) as u64)),
        1 => thread::yield_now(),
        2 => {
            for _ in 0..r.below(20) {
                thread::yield_now()
            }
        }
        _ => {}
    }
}

/// hands one task to the pool
fn submit(pool: &ThreadPool, mon: &Arc<Mon>, r: &mut Rng, depth: usize) -> bool {
    let task = mon.next.fetch_add(1, Relaxed);
    if task >= TASKS {
        return true;
    }
    let m = mon.clone();
    let (kind, seed) = (r.below(8), r.u64() | 1);
    let inner = if kind >= 6 && depth > 0 { Some(pool.clone()) } else { None };
    let res = pool.execute(move || {
        m.enter(task);
        let mut r = Rng(seed);
        pause(&mut r);
        if let Some(p) = inner {
            for _ in 0..r.range(1, 2) {
                submit(&p, &m, &mut r, depth - 1);
            }
        }
        m.leave(task);
        if kind == 0 || kind == 1 {
            m.panics.fetch_add(1, Relaxed);
            std::panic::resume_unwind(Box::new(task))
        }
    });
    mon.event(if res.is_ok() { 3 } else { 4 }, task);
    mon.taken[task].store(if res.is_ok() { 1 } else { 2 }, Relaxed);
    res.is_ok()
}

/// waits until every task that was accepted has run, then looks again a little later
fn settle(mon: &Arc<Mon>, what: &str) {
    let tasks = || now(&mon.next).min(TASKS);
    // in this order: a task has left only after what it handed in was counted
    let settled = || {
        let n = tasks();
        (0..n).all(|t| match now(&mon.taken[t]) {
            1 => now(&mon.runs[t]) > 0,
            2 => true,
            _ => false,
        }) && now(&mon.running) == 0 && tasks() == n
    };
    let mut waited = 0;
    while !settled() {
        if waited > 800 {
            let left: Vec<usize> = (0..tasks()).filter(|t| now(&mon.taken[*t]) == 1 && now(&mon.runs[*t]) == 0).collect();
            violation(format!("{}: accepted tasks {:?} have not run after more than an hour with nothing else to do ({} running)", what, left, now(&mon.running)));
        }
        waited += 1;
        thread::sleep(Duration::from_secs(5));
    }
    thread::sleep(Duration::from_secs(5));
    for t in 0..tasks() {
        let (taken, runs) = (now(&mon.taken[t]), now(&mon.runs[t]));
        if (taken == 1) as usize != runs {
            violation(format!("{}: task {} was {}, it ran {} times", what, t, if taken == 1 { "accepted" } else { "refused" }, runs));
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if let Err(p) = std::panic::catch_unwind(history) {
        let text = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
        violation(format!("making or using the pool panicked: {:?}", text))
    }
}

fn history() {
    let mut h = RandomState::new().build_hasher();
    h.write_u64(7);
    let mut r = Rng(h.finish() | 1);
    for _ in 0..4 {
        r.u64();
    }
    let (size, queue) = (r.range(1, 3), r.range(1, 4));
    let pool = match ThreadPool::new_custom("miri-pool-".to_string(), size, 0, queue) {
        Ok(p) => p,
        Err(e) => violation(format!("no pool of {}: {}", size, e)),
    };
    let mon = Mon::new();
    let submitters = r.below(3);
    let mut others = vec![];
    for _ in 0..submitters {
        let (p, m, n, seed) = (pool.clone(), mon.clone(), r.range(1, 5), r.u64() | 1);
        others.push(thread::spawn(move || {
            let mut r = Rng(seed);
            for _ in 0..n {
                pause(&mut r);
                submit(&p, &m, &mut r, 2);
            }
        }));
    }
    for _ in 0..r.range(1, 8) {
        pause(&mut r);
        if r.below(3) == 0 {
            // handles come and go
            let p = pool.clone();
            submit(&p, &mon, &mut r, 1);
        }
        submit(&pool, &mon, &mut r, 2);
    }
    for o in others {
        if o.join().is_err() {
            violation("handing in a task panicked".into())
        }
    }
    settle(&mon, "after the history");
    // every worker is there again: as many tasks as there are workers run side by side,
    let met = Arc::new((Mutex::new((0usize, false)), Condvar::new()));
    let hour = Duration::from_secs(3600);
    for i in 0..size {
        let (g, m) = (met.clone(), mon.clone());
        let res = pool.execute(move || {
            m.enter(TASKS - 1);
            let (lock, cv) = &*g;
            let mut s = lock.lock().unwrap();
            s.0 += 1;
            cv.notify_all();
            while !s.1 {
                s = cv.wait(s).unwrap();
            }
            drop(s);
            m.leave(TASKS - 1);
        });
        if let Err(e) = res {
            violation(format!("an idle pool of {} with a queue of {} refused task {}: {}", size, queue, i, e));
        }
        if i % queue == queue - 1 {
            // the queue holds no more than this until the workers have taken them
            thread::sleep(Duration::from_secs(5));
        }
    }
    {
        let (lock, cv) = &*met;
        let s = lock.lock().unwrap();
        let (s, t) = cv.wait_timeout_while(s, hour, |s| s.0 < size).unwrap();
        if t.timed_out() {
            violation(format!("only {} of {} workers take a task each", s.0, size));
        }
    }
    // then the queue takes exactly as many as it is made for
    let ran = Arc::new(AtomicUsize::new(0));
    let mut accepted = 0;
    for _ in 0..queue + 2 {
        let c = ran.clone();
        if pool.execute(move || { c.fetch_add(1, Relaxed); }).is_ok() {
            accepted += 1;
        }
    }
    if accepted != queue {
        violation(format!("with all {} workers busy a queue of {} took {} tasks", size, queue, accepted));
    }
    thread::sleep(Duration::from_secs(5));
    if now(&ran) > 0 {
        violation(format!("a queued task ran while all {} workers were busy", size));
    }
    {
        let (lock, cv) = &*met;
        lock.lock().unwrap().1 = true;
        cv.notify_all();
    }
    let mut waited = 0;
    while now(&ran) < queue {
        if waited > 800 {
            violation(format!("{} of {} queued tasks ran", now(&ran), queue));
        }
        waited += 1;
        thread::sleep(Duration::from_secs(5));
    }
    thread::sleep(Duration::from_secs(5));
    if now(&ran) != queue {
        violation(format!("{} queued tasks ran {} times", queue, now(&ran)));
    }
    // what was accepted runs although no handle is left
    let last = Arc::new(AtomicUsize::new(0));
    let mut accepted = 0;
    for _ in 0..r.range(1, size + queue) {
        let (c, seed) = (last.clone(), r.u64() | 1);
        let res = pool.execute(move || {
            pause(&mut Rng(seed));
            c.fetch_add(1, Relaxed);
        });
        accepted += res.is_ok() as usize;
    }
    drop(pool);
    let mut waited = 0;
    while now(&last) < accepted {
        if waited > 800 {
            violation(format!("{} of {} tasks accepted before the last handle was dropped have run an hour later", now(&last), accepted));
        }
        waited += 1;
        thread::sleep(Duration::from_secs(5));
    }
    if now(&mon.most) > size {
        violation(format!("{} tasks ran at once in a pool of {}", now(&mon.most), size));
    }
    if now(&mon.unnamed) > 0 {
        violation(format!("{} tasks ran in threads without the pool's name", now(&mon.unnamed)));
    }
    let mut sig: u64 = (size * 10 + queue) as u64;
    for e in mon.events.iter() {
        sig = (sig ^ e.load(Relaxed) as u64).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    println!("RUN size {} queue {} submitters {} tasks {} refused {} panics {} events {} sig {:016x}", size, queue, submitters + 1, now(&mon.next),
             mon.taken.iter().filter(|t| now(t) == 2).count(), now(&mon.panics), now(&mon.at), sig);
    std::process::exit(0)
}
