//! C12: admissions of rate-limited routes under bursts, idle times and vanishing clients.
//!
//! What is seen of an admission is the start of its handler, which may be late by whatever the
//! scheduler adds; the monitor allows for that (fixed slack plus the stalls a heartbeat thread saw)
//! and wants a violation to come back in a second case.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use serde_json::{json, Value};
use starry::{Extend, Limit};

use crate::inject;
use crate::raw::{Bad, Conn, Req};
use crate::report::{lock, run_cases, still_alive, wait_until, Report};
use crate::rng::Rng;
use crate::route::register;
use crate::srv::{self, Ask, Cfg, Script, Srv};

const N: usize = 22;
/// limits that get one long queue each, when nothing else runs
const LONG: usize = 4;
const FREE: usize = N + LONG;
const SLACK: Duration = Duration::from_millis(45);

#[derive(Clone, Debug)]
struct Rule {
    section: i64,
    count: usize,
    interval: i64,
    method: &'static str,
    path: String,
    filters: usize,
}

impl Rule {
    /// least time the limit allows between an admission and the n-th after it
    fn least(&self, n: usize) -> Duration {
        let a = if self.interval > 0 { n as u64 * self.interval as u64 } else { 0 };
        let b = if self.section > 0 { (n / self.count) as u64 * self.section as u64 } else { 0 };
        Duration::from_millis(a.max(b))
    }
    fn show(&self) -> Value {
        json!({"section ms": self.section, "count": self.count, "interval ms": self.interval, "route": format!("{} {}", self.method, self.path), "filters": self.filters})
    }
}

struct World {
    srv: Srv,
    rules: Vec<Rule>,
    /// handler starts per limited route, with the case
    log: Vec<Mutex<Vec<(Instant, u64)>>>,
    /// suspicious cases
    suspects: Mutex<Vec<(Instant, Instant)>>,
    /// batches: route, when the last of it had been sent, when the last of it was admitted, case
    batches: Mutex<Vec<(usize, Instant, Instant, u64)>>,
}

static W: OnceLock<World> = OnceLock::new();
/// (end of the stall, its length)
static STALLS: Mutex<Vec<(Instant, Duration)>> = Mutex::new(Vec::new());
static BEATS: AtomicU64 = AtomicU64::new(0);

fn heartbeat() {
    let mut last = Instant::now();
    loop {
        std::thread::sleep(Duration::from_millis(1));
        let now = Instant::now();
        if now - last > Duration::from_millis(8) {
            lock(&STALLS).push((now, now - last))
        }
        last = now;
        BEATS.fetch_add(1, Ordering::Relaxed);
    }
}

fn stalled(from: Instant, to: Instant) -> Duration {
    let from = from.checked_sub(Duration::from_millis(500)).unwrap_or(from);
    let to = to + Duration::from_millis(200);
    lock(&STALLS).iter().filter(|s| s.0 >= from && s.0 - s.1 <= to).map(|s| s.1).sum()
}

/// sets the system clock again and again: by less than a limit, by hours, back and forth
fn setter(mut r: Rng) {
    loop {
        std::thread::sleep(Duration::from_millis(r.range(20, 900) as u64));
        inject::set_clock(match r.below(6) {
            0 => 0,
            1 => r.irange(-900, 900),
            2 => r.irange(-20_000, 20_000),
            3 => 3_600_000,
            _ => r.irange(-10_000_000, 10_000_000),
        })
    }
}

/// number of the case in which the limits are long
const PATIENT: u64 = 1 << 41;

/// a limit of half a minute and more: nobody passes early. Every stall only makes the gaps longer
/// or delays one observation, and the margin is a quarter of the window
fn long(rep: &'static Report) {
    static PASSED: [Mutex<Vec<Instant>>; 2] = [Mutex::new(vec![]), Mutex::new(vec![])];
    fn pass(ctx: &mut starry::Context) {
        let i = if ctx.req_path() == "/0" { 0 } else { 1 };
        lock(&PASSED[i]).push(Instant::now());
        ctx.response();
    }
    let ms: i64 = if rep.opts.thorough { 150_000 } else { 31_000 };
    let made: Vec<_> = vec![std::thread::spawn(move || Limit::new(ms, 1, 0)), std::thread::spawn(move || Limit::new(0, 1, ms))];
    let limits: Vec<Limit> = made.into_iter().map(|h| h.join().unwrap()).collect();
    let srv = match srv::start(Cfg { pool: 16, ..Cfg::default() }, move |s| {
        for (i, l) in limits.into_iter().enumerate() {
            register(s, "", "GET", &format!("/{}", i), pass, Some(Extend::e2(l)), None);
        }
    }) {
        Ok(s) => s,
        Err(e) => return rep.violation(PATIENT, format!("server did not start: {}", e), json!({})),
    };
    let start = Instant::now();
    let mut waiting = vec![];
    for i in 0..2 {
        for _ in 0..3 {
            if let Ok(mut c) = crate::raw::Conn::open(srv.port) {
                c.send(&crate::raw::Req::new("GET", &format!("/{}", i)).bytes());
                waiting.push(c);
            }
        }
    }
    let until = start + Duration::from_millis(2 * ms as u64 + 4000);
    while Instant::now() < until && !rep.violated() {
        std::thread::sleep(Duration::from_millis(50));
        still_alive(PATIENT);
        for (i, p) in PASSED.iter().enumerate() {
            let p = lock(p).clone();
            for x in p.windows(2) {
                let gap = x[1] - x[0];
                if gap + Duration::from_millis(ms as u64 / 4) < Duration::from_millis(ms as u64) {
                    return rep.violation(PATIENT, format!("two requests passed a limit of one within {:?} of each other, {} is {} ms", gap, ["the window", "the interval"][i], ms), json!({}));
                }
            }
        }
    }
    for p in &PASSED {
        rep.count("requests that passed limits of half a minute and more", lock(p).len() as u64);
    }
}

pub fn c12(rep: &'static Report) {
    std::thread::spawn(heartbeat);
    if rep.opts.only_case == Some(PATIENT) {
        return long(rep);
    }
    let patient = if rep.opts.shard == 0 && rep.opts.only_case.is_none() { Some(std::thread::spawn(move || long(rep))) } else { None };
    struct Join(Option<std::thread::JoinHandle<()>>);
    impl Drop for Join {
        fn drop(&mut self) {
            if let Some(h) = self.0.take() {
                let _ = h.join();
            }
        }
    }
    let _join = Join(patient);
    if rep.opts.shard % 2 == 1 {
        let r = Rng::new(rep.opts.seed, 0xC12_C10C);
        std::thread::spawn(|| setter(r));
    }
    let mut r = Rng::new(rep.opts.seed, 0xC12_0000 + rep.opts.shard as u64);
    let mut rules = vec![];
    for i in 0..N {
        let (section, interval) = match r.below(6) {
            0 => (0, *r.pick(&[15, 40, 120])),
            1 => (-5, *r.pick(&[15, 40, 120])),
            2 => (*r.pick(&[150, 300, 600]), *r.pick(&[10, 25, 60])),
            3 => (*r.pick(&[150, 300, 600]), -3),
            _ => (*r.pick(&[100, 200, 400, 700]), 0),
        };
        let count = *r.pick(&[1usize, 1, 2, 3, 5, 8]);
        rules.push(Rule { section, count, interval, method: *r.pick(&["GET", "POST", "DELETE", "PUT"]), path: format!("/l{}", i), filters: r.below(3) });
    }
    for i in N..FREE {
        let (section, interval) = *r.pick(&[(300, 0), (500, 0), (400, 20), (0, 60), (500, 15)]);
        let count = *r.pick(&[4usize, 6, 8, 8]);
        rules.push(Rule { section, count, interval, method: *r.pick(&["GET", "POST"]), path: format!("/q{}", i), filters: r.below(2) });
    }
    // Limit::new takes count * interval
    let limits: Vec<Limit> = rules
        .iter()
        .map(|x| {
            let x = x.clone();
            std::thread::spawn(move || Limit::new(x.section, x.count, x.interval))
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap())
        .collect();
    let rs = rules.clone();
    let started = srv::start(Cfg { pool: 160, ..Cfg::default() }, move |s| {
        for (i, (x, l)) in rs.iter().zip(limits).enumerate() {
            let fs: Vec<fn(&mut starry::Context)> = srv::filters()[..x.filters].to_vec();
            let e = if x.filters == 0 { Extend::e2(l) } else { Extend::e3(fs, l) };
            // half of them inside a group that has a filter of its own
            let g = if i % 2 == 0 { Some(Extend::e1(vec![srv::filters()[40]])) } else { None };
            register(s, "", x.method, &x.path, srv::handlers()[i], Some(e), g);
            // a sibling without a limit, of another method
            register(s, "", "PATCH", &x.path, srv::handlers()[FREE], None, None);
        }
        register(s, "", "GET", "/free", srv::handlers()[FREE], None, None);
    });
    let srv = match started {
        Ok(s) => s,
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    };
    let w = World { srv, log: rules.iter().map(|_| Mutex::new(vec![])).collect(), rules, suspects: Mutex::new(vec![]), batches: Mutex::new(vec![]) };
    let _ = W.set(w);
    let max = if rep.opts.thorough { 3000 } else { 90 };
    run_cases(rep, 8, max, |rep, case, r| one(rep, case, r));
    if rep.violated() {
        return;
    }
    // the whole history of every route once more
    let w = W.get().unwrap();
    for i in 0..w.rules.len() {
        judge(rep, u64::MAX, i);
        rep.count("admissions in the histories", lock(&w.log[i]).len() as u64);
    }
    waits(rep);
    if !rep.violated() && rep.opts.only_case.map(|c| c >= QUEUES).unwrap_or(true) {
        queues(rep);
        for i in N..FREE {
            judge(rep, QUEUES, i);
        }
    }
    rep.count("heartbeats", BEATS.load(Ordering::Relaxed));
    rep.count("stalls over 8 ms", lock(&STALLS).len() as u64);
    let s = lock(&w.suspects).len();
    if s > 0 {
        rep.count("suspicious windows that did not come back", s as u64);
    }
}

/// checks every window of the history
fn judge(rep: &Report, case: u64, i: usize) {
    let w = W.get().unwrap();
    let rule = &w.rules[i];
    let mut t = lock(&w.log[i]).clone();
    t.sort();
    let mut windows = 0;
    for a in 0..t.len() {
        for b in a + 1..t.len().min(a + 1 + 4 * rule.count.max(6)) {
            windows += 1;
            let gap = t[b].0 - t[a].0;
            let least = rule.least(b - a);
            if gap + SLACK < least && gap + SLACK + 2 * stalled(t[a].0, t[b].0) < least {
                // one admission observed late makes every window that starts with it look short,
                // and a stall can delay several routes: it takes two windows apart in time
                let mut s = lock(&w.suspects);
                let who = t[b].1;
                if !s.iter().any(|x| x.0 <= t[b].0 && t[a].0 <= x.1) {
                    s.push((t[a].0, t[b].0))
                }
                let n = s.len();
                drop(s);
                if n >= 2 || rep.opts.only_case.is_some() {
                    let d = json!({"rule": rule.show(), "admission times ms": t[a..=b].iter().map(|x| (x.0 - t[a].0).as_millis() as u64).collect::<Vec<_>>()});
                    rep.violation(who, format!("{} requests admitted within {:?}, the limit asks for at least {:?} between the first and the last", b - a + 1, gap, least), d);
                    return;
                }
            }
        }
    }
    if case == u64::MAX {
        rep.count("windows checked in the histories", windows);
    } else {
        rep.count("windows checked", windows);
    }
}

/// nobody waits much longer than the limit asks for, given all that was admitted in the meantime
fn waits(rep: &Report) {
    let w = W.get().unwrap();
    let mut late = vec![];
    for (i, sent, last, case) in lock(&w.batches).iter() {
        let rule = &w.rules[*i];
        let m = lock(&w.log[*i]).iter().filter(|t| t.0 > *sent && t.0 <= *last).count();
        let took = last.saturating_duration_since(*sent);
        let bound = 3 * rule.least(m) + 3 * Duration::from_millis((rule.section.max(0) + rule.interval.max(0)) as u64) + Duration::from_secs(2) + 3 * stalled(*sent, *last);
        rep.count("batches of waiting requests timed", 1);
        if took > bound {
            late.push((*case, format!("a batch of requests waited {:?} for the last of {} admissions, the limit asks for {:?}", took, m, rule.least(m)), rule.show()));
        }
    }
    if late.len() >= 2 || (rep.opts.only_case.is_some() && !late.is_empty()) {
        let (case, what, d) = late.pop().unwrap();
        rep.violation(case, what, d)
    }
}

/// number of the first case that is a long queue
const QUEUES: u64 = 1 << 40;

/// one long queue per limit while nothing else runs: it moves on as fast as the limit allows, give
/// or take
fn queues(rep: &Report) {
    std::thread::scope(|s| {
        for i in N..FREE {
            s.spawn(move || {
                let w = W.get().unwrap();
                let rule = &w.rules[i];
                let case = QUEUES + i as u64;
                let mut late = vec![];
                for _ in 0..3 {
                    let mut sent = vec![];
                    for _ in 0..4 * rule.count + 1 {
                        let id = script(Some(rule), i);
                        match Conn::open(w.srv.port) {
                            Ok(mut c) => {
                                c.send(&Req::new(rule.method, &rule.path).h("X-Id", &id.to_string()).bytes());
                                sent.push(Sent { id, at: Instant::now(), conn: Some(c) });
                            }
                            Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                        }
                    }
                    let m = sent.len();
                    let from = sent[0].at;
                    let n = lock(&w.log[i]).len();
                    if !collect(rep, case, i, &mut sent) {
                        return;
                    }
                    let last = lock(&w.log[i])[n..].iter().map(|x| x.0).max().unwrap();
                    let took = last.saturating_duration_since(from);
                    let least = rule.least(m - 1);
                    let bound = least * 17 / 10 + Duration::from_millis((rule.section.max(0) + rule.interval.max(0)) as u64) + Duration::from_secs(1) + 4 * stalled(from, last);
                    rep.count("long queues timed", 1);
                    rep.sample(|| json!({"rule": rule.show(), "long queue of": m, "took ms": took.as_millis() as u64, "the limit asks for ms": least.as_millis() as u64}));
                    if took <= bound {
                        return;
                    }
                    late.push(took);
                }
                let d = json!({"rule": rule.show(), "requests": 4 * rule.count + 1});
                rep.violation(case, format!("a queue of requests waited {:?} while the limit asks for {:?}", late, rule.least(4 * rule.count)), d);
            });
        }
    });
}

fn script(rule: Option<&Rule>, i: usize) -> u64 {
    let mut s = Script::reply(Ask::default(), "ok");
    for f in 0..3 {
        s.stage.insert(1000 + f, vec![]);
    }
    s.stage.insert(1040, vec![]);
    let _ = (rule, i);
    srv::script(s)
}

struct Sent {
    id: u64,
    at: Instant,
    conn: Option<Conn>,
}

fn one(rep: &Report, case: u64, r: &mut Rng) {
    let w = W.get().unwrap();
    let i = r.below(N);
    let rule = &w.rules[i];
    let bytes = |id: u64, m: &str, keep: bool| {
        let q = Req::new(m, &rule.path).h("X-Id", &id.to_string());
        if keep { q.keep().bytes() } else { q.bytes() }
    };
    let mut sig = vec![];
    let mut sent: Vec<Sent> = vec![];
    let mut kept: Option<Conn> = None;
    let rounds = r.range(1, 4);
    let mut total = 0;
    for _ in 0..rounds {
        // not more than a few seconds of queue
        let room = (Duration::from_secs(5).as_millis() / rule.least(rule.count * 4).as_millis().max(1)) as usize * 4 * rule.count;
        let n = match r.below(4) {
            0 => r.range(1, 3),
            1 => 2 * rule.count + 1,
            2 => rule.count + r.range(0, 3),
            _ => r.range(2, 12),
        };
        let n = n.min(14).min(room.saturating_sub(total)).max(1);
        total += n;
        let how = r.below(4);
        let idle = if r.chance(1, 3) { r.below(2 * rule.section.max(rule.interval).max(1) as usize + 30) as u64 } else { 0 };
        sig.push(format!("{}x{} idle {}", how, n, idle / 50));
        std::thread::sleep(Duration::from_millis(idle));
        match how {
            // one after the other on one kept connection
            0 => {
                for _ in 0..n {
                    if rep.violated() {
                        return;
                    }
                    if kept.is_none() {
                        match Conn::open(w.srv.port) {
                            Ok(c) => kept = Some(c),
                            Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                        }
                    }
                    let id = script(Some(rule), i);
                    let c = kept.as_mut().unwrap();
                    c.send(&bytes(id, rule.method, true));
                    let res = c.response_within(Duration::from_secs(60));
                    if !settle(rep, case, i, id, res) {
                        return;
                    }
                }
            }
            // all at once on connections of their own; some give up
            _ => {
                for _ in 0..n {
                    let id = script(Some(rule), i);
                    let mut c = match Conn::open(w.srv.port) {
                        Ok(c) => c,
                        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                    };
                    c.send(&bytes(id, rule.method, false));
                    if how == 3 {
                        std::thread::sleep(Duration::from_millis(r.below(20) as u64))
                    }
                    let gone = r.chance(1, 15);
                    sent.push(Sent { id, at: Instant::now(), conn: if gone { None } else { Some(c) } });
                    if gone {
                        rep.count("clients gone while waiting", 1)
                    }
                }
                if r.chance(1, 2) && !free(rep, case, r, rule) {
                    return;
                }
            }
        }
        if r.chance(1, 2) && !collect(rep, case, i, &mut sent) {
            return;
        }
    }
    if !collect(rep, case, i, &mut sent) {
        return;
    }
    judge(rep, case, i);
    rep.distinct(format!("{:?} {:?}", rule, sig).as_bytes());
    rep.sample(|| json!({"rule": rule.show(), "rounds (kind x requests, idle)": sig, "admissions so far": lock(&w.log[i]).len()}));
}

fn settle(rep: &Report, case: u64, i: usize, id: u64, res: Result<crate::raw::Resp, Bad>) -> bool {
    let w = W.get().unwrap();
    let obs = srv::take(id);
    let starts: Vec<Instant> = obs.iter().filter(|o| o.tag == i as u32).map(|o| o.at).collect();
    rep.count("limited requests", 1);
    match &res {
        Ok(x) if x.code == 200 && x.carries(b"ok") && starts.len() == 1 => {
            lock(&w.log[i]).push((starts[0], case));
            true
        }
        _ => {
            let d = json!({"rule": w.rules[i].show()});
            rep.violation(case, format!("a request above the limit has to be delayed and handled once: {:?}, {} handler runs", res.map(|x| (x.code, crate::report::show(&x.body))), starts.len()), d);
            false
        }
    }
}

fn collect(rep: &Report, case: u64, i: usize, sent: &mut Vec<Sent>) -> bool {
    let w = W.get().unwrap();
    let mut batch: Option<(Instant, Instant)> = None;
    for s in sent.drain(..) {
        if rep.violated() {
            return false;
        }
        match s.conn {
            Some(mut c) => {
                let res = c.response_within(Duration::from_secs(60));
                let start = srv::peek(s.id).iter().find(|o| o.tag == i as u32).map(|o| o.at);
                if !settle(rep, case, i, s.id, res) {
                    return false;
                }
                if let Some(t) = start {
                    batch = Some(batch.map(|b| (b.0.max(s.at), b.1.max(t))).unwrap_or((s.at, t)));
                }
            }
            None => {
                // nobody reads the answer, the request was complete nevertheless
                let ran = wait_until(60, || srv::peek(s.id).iter().any(|o| o.tag == i as u32));
                let starts: Vec<Instant> = srv::take(s.id).iter().filter(|o| o.tag == i as u32).map(|o| o.at).collect();
                if starts.len() > 1 {
                    rep.violation(case, format!("a limited request was handled {} times", starts.len()), json!({"rule": w.rules[i].show()}));
                    return false;
                }
                if !ran {
                    // a connection closed this early may be refused on accept
                    rep.count("clients gone before the request was read", 1)
                }
                for s in starts {
                    lock(&w.log[i]).push((s, case))
                }
            }
        }
    }
    if let Some((sent, last)) = batch {
        lock(&w.batches).push((i, sent, last, case))
    }
    true
}

/// requests of unlimited routes while limited ones are waiting
fn free(rep: &Report, case: u64, r: &mut Rng, rule: &Rule) -> bool {
    let w = W.get().unwrap();
    let (m, p) = if r.chance(1, 2) { ("GET", "/free".to_string()) } else { ("PATCH", rule.path.clone()) };
    let n = 20;
    let bound = rule.least(n) / 2;
    let mut slow = vec![];
    for _ in 0..3 {
        let mut c = match Conn::open(w.srv.port) {
            Ok(c) => c,
            Err(e) => {
                rep.inconclusive(format!("connect: {}", e));
                return false;
            }
        };
        let t = Instant::now();
        for _ in 0..n {
            let id = script(None, FREE);
            c.send(&Req::new(m, &p).h("X-Id", &id.to_string()).keep().bytes());
            let res = c.response_within(Duration::from_secs(60));
            let k = srv::take(id).len();
            rep.count("requests of unlimited routes", 1);
            if !matches!(&res, Ok(x) if x.code == 200 && x.carries(b"ok")) || k != 1 {
                rep.violation(case, format!("{} {} has no limit: {:?}, {} handler runs", m, p, res.map(|x| x.code), k), json!({"limit of another route": rule.show()}));
                return false;
            }
        }
        let d = t.elapsed();
        if d < bound || bound < Duration::from_millis(300) {
            return true;
        }
        slow.push(d);
    }
    rep.violation(case, format!("{} {} has no limit, yet {} requests took {:?} while another route is limited", m, p, n, slow), json!({"limit of another route": rule.show()}));
    false
}
