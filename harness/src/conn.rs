//! C11: persistence, idle time-out and isolation of connections.

use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use serde_json::{json, Value};
use starry::header::Cookie;
use starry::Context;

use crate::inject;
use crate::raw::{hot_spots, Bad, Conn, Plan, Req, Resp};
use crate::report::{lock, run_cases, Report, DELIBERATE};
use crate::request::b64;
use crate::rng::Rng;
use crate::route::{register, METHODS};
use crate::srv::{self, Cfg, Srv};

/// token -> (dispatches, instant just before the last response call)
static SEEN: Mutex<Option<HashMap<String, (u32, Instant)>>> = Mutex::new(None);
static SRVS: OnceLock<Vec<(u64, Srv)>> = OnceLock::new();
const KEEP: [u64; 4] = [500, 1000, 2500, 30000];
const PATIENT: Duration = Duration::from_secs(40);

fn seen(tok: &str) -> Option<(u32, Instant)> {
    lock(&SEEN).get_or_insert_with(HashMap::new).get(tok).cloned()
}

fn forget(tok: &str) {
    lock(&SEEN).get_or_insert_with(HashMap::new).remove(tok);
}

fn or(o: Option<String>) -> String {
    o.unwrap_or_else(|| "-".into())
}

/// answers with everything it sees; the token decides nothing
fn echo(ctx: &mut Context) {
    let tok = or(ctx.req_header_get("X-Tok"));
    lock(&SEEN).get_or_insert_with(HashMap::new).entry(tok.clone()).and_modify(|e| e.0 += 1).or_insert((1, Instant::now()));
    let ms = |c: &mut Context, n: &str| c.req_header_get(n).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let pause = ms(ctx, "X-Pause");
    let size = ms(ctx, "X-Size") as usize;
    // half of the pause before anything is read
    std::thread::sleep(Duration::from_millis(pause / 2));
    let form = match ctx.req_form("f") {
        Ok(f) => or(f),
        Err(e) => format!("error {}", e),
    };
    let mut v: Vec<String> = vec![
        tok.clone(),
        ctx.req_path(),
        or(ctx.req_field("tok")),
        or(ctx.req_param("p")),
        or(ctx.req_header_get("X-H")),
        or(ctx.req_cookie_get("c").map(|c| c.to_string())),
        or(ctx.req_userinfo().map(|u| format!("{}:{}", u.username(), u.password()))),
        form,
        ctx.req_count_param().to_string(),
        ctx.req_count_form().map(|n| n.to_string()).unwrap_or_else(|e| e.to_string()),
        ctx.req_cookies().len().to_string(),
    ];
    let mut extra: Vec<String> = ctx.req_header().map().into_iter().map(|h| h.0).filter(|k| k.starts_with("X-Only-")).collect();
    extra.sort();
    v.push(extra.join(","));
    if ctx.req_header_get("X-Panic").is_some() {
        panic!("{}", DELIBERATE)
    }
    ctx.resp_add_header_str("X-Tok", &tok);
    ctx.resp_add_header_str(&format!("X-Only-{}", tok), "1");
    ctx.resp_add_cookie(Cookie::new("tok".to_string(), tok.clone()));
    std::thread::sleep(Duration::from_millis(pause - pause / 2));
    let mut b = v.join("|").into_bytes();
    if b.len() < size {
        b.resize(size, b'.');
    }
    ctx.resp_body(b);
    lock(&SEEN).get_or_insert_with(HashMap::new).entry(tok).and_modify(|e| e.1 = Instant::now());
    ctx.response();
}

#[derive(Clone)]
struct Ex {
    tok: String,
    bytes: Vec<u8>,
    want: String,
    size: usize,
    /// does the request ask for the connection to be kept?
    keep: bool,
}

/// an exchange with values that occur nowhere else
fn exchange(r: &mut Rng, tok: String, connection: Option<&str>, pause: u64, size: usize) -> Ex {
    let noise: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.".chars().collect();
    let mut val = |k: &str| {
        let n = r.string(&noise, 0, 12);
        format!("{}{}{}", k, tok, n)
    };
    let (p, h, c, u, pw, f) = (val("p"), val("h"), val("c"), val("u"), val("w"), val("f"));
    let has: Vec<bool> = (0..6).map(|_| r.chance(2, 3)).collect();
    let method = if has[5] { *r.pick(&["POST", "PUT", "PATCH"]) } else { *r.pick(&["GET", "DELETE", "OPTIONS", "POST", "LINK"]) };
    let target = if has[0] { format!("/iso/{}/x?p={}", tok, p) } else { format!("/iso/{}/x", tok) };
    let mut q = Req::new(method, &target);
    if r.chance(1, 6) {
        q.version = "HTTP/1.0".into()
    }
    q = q.h("X-Tok", &tok);
    let mut only = String::new();
    if has[1] {
        q = q.h("X-H", &h);
        only = format!("X-Only-{}", tok);
        q = q.h(&only, "1");
    }
    if has[2] {
        q = q.h("Cookie", &format!("c={}", c));
    }
    if has[3] {
        q = q.h("Authorization", &format!("Basic {}", b64(format!("{}:{}", u, pw).as_bytes())));
    }
    if pause > 0 {
        q = q.h("X-Pause", &pause.to_string());
    }
    if size > 0 {
        q = q.h("X-Size", &size.to_string());
    }
    if let Some(v) = connection {
        q = q.h("Connection", v);
    }
    let mut forms = 0;
    if has[5] {
        forms = 1;
        let mut b = format!("f={}", f);
        if r.chance(1, 3) {
            forms = 2;
            b = format!("g={}&{}", r.string(&noise, 1, 3000), b);
        }
        q = q.body(b.into_bytes(), "application/x-www-form-urlencoded");
    }
    let dash = |b: bool, s: &str| if b { s.to_string() } else { "-".into() };
    let want = [
        tok.clone(),
        format!("/iso/{}/x", tok),
        tok.clone(),
        dash(has[0], &p),
        dash(has[1], &h),
        dash(has[2], &format!("c={}", c)),
        dash(has[3], &format!("{}:{}", u, pw)),
        dash(has[5], &f),
        (has[0] as u32).to_string(),
        forms.to_string(),
        (has[2] as u32).to_string(),
        only,
    ]
    .join("|");
    let has = |t: &str| connection.map_or(false, |c| c.split(',').any(|x| x.trim().eq_ignore_ascii_case(t)));
    let keep = has("keep-alive") && !has("close");
    Ex { tok, bytes: q.bytes(), want, size, keep }
}

/// None: the response belongs to the exchange
fn wrong(e: &Ex, x: &Resp) -> Option<String> {
    if x.code != 200 {
        return Some(format!("status {}", x.code));
    }
    let mut want = e.want.clone().into_bytes();
    if want.len() < e.size {
        want.resize(e.size, b'.')
    }
    if x.body != want {
        return Some(format!("body {} ({} bytes), expected {} ({} bytes)", crate::report::show(&x.body), x.body.len(), crate::report::show(&want), want.len()));
    }
    if x.all("X-Tok") != vec![e.tok.clone()] {
        return Some(format!("X-Tok {:?}", x.all("X-Tok")));
    }
    let only: Vec<&String> = x.headers.iter().map(|h| &h.0).filter(|k| k.to_ascii_lowercase().starts_with("x-only-")).collect();
    if only.len() != 1 || !only[0].eq_ignore_ascii_case(&format!("X-Only-{}", e.tok)) {
        return Some(format!("headers of other responses: {:?}", only));
    }
    let sc = x.all("Set-Cookie");
    if sc.len() != 1 || !sc[0].starts_with(&format!("tok={}", e.tok)) {
        return Some(format!("cookies of other responses: {:?}", sc));
    }
    // what is said about the connection goes with what was asked for
    let said = x.all("Connection").join(",").to_ascii_lowercase();
    let said: Vec<&str> = said.split(',').map(|t| t.trim()).collect();
    if said.contains(&"keep-alive") != e.keep || (e.keep && said.contains(&"close")) {
        return Some(format!("Connection {:?} in the response, the request asked {}", said, if e.keep { "to keep it" } else { "for no keep-alive" }));
    }
    match seen(&e.tok) {
        Some((1, _)) => None,
        o => Some(format!("{:?} dispatches", o.map(|o| o.0))),
    }
}

fn port(k: u64) -> u16 {
    SRVS.get().unwrap().iter().find(|s| s.0 == k).unwrap().1.port
}

pub fn c11(rep: &'static Report) {
    let mut v = vec![];
    for k in KEEP {
        let cfg = Cfg { pool: if k == 30000 { 110 } else { 20 }, keepalive: if k == 30000 { None } else { Some(k as i64) }, ..Cfg::default() };
        match srv::start(cfg, |s| {
            for m in METHODS.iter() {
                register(s, "/iso", m, "/:tok/x", echo, None, None);
            }
        }) {
            Ok(s) => v.push((k, s)),
            Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
        }
    }
    let _ = SRVS.set(v);
    let max = if rep.opts.thorough { 6000 } else { 220 };
    // the documented default (30 s) takes its time, alongside the other cases
    let mut alongside = vec![];
    if rep.opts.only_case.is_none() {
        if rep.opts.shard == 0 {
            alongside.push(std::thread::spawn(move || default_keepalive(rep)));
        }
        if rep.opts.shard == 1 {
            alongside.push(std::thread::spawn(move || long_keepalive(rep)));
        }
        crowd(rep);
        if rep.opts.shard > 1 {
            no_keepalive(rep)
        }
    }
    if rep.opts.shard % 2 == 1 {
        let mut r = Rng::new(rep.opts.seed, 0xC11_C10C);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(r.range(20, 900) as u64));
            let h = if r.chance(1, 3) { 900 } else { 10_000_000 };
            inject::set_clock(r.irange(-h, h));
        });
    }
    run_cases(rep, 10, max, move |rep, case, r| match r.below(5) {
        _ if case % 150 == 7 => long_line(rep, case, r),
        0 | 1 => isolation(rep, case, r),
        2 => ending(rep, case, r),
        _ => timing(rep, case, r),
    });
    for h in alongside {
        let _ = h.join();
    }
    if !rep.violated() && rep.opts.only_case.is_none() {
        refused(rep);
    }
}

/// the system has no thread to give when a connection is to be kept alive
fn refused(rep: &Report) {
    let mut r = Rng::new(rep.opts.seed, 0xC11_0000 + rep.opts.shard as u64);
    for i in 0..8 {
        let k = *r.pick(&KEEP[..3]);
        let mut c = match Conn::open(port(k)) {
            Ok(c) => c,
            Err(e) => return rep.inconclusive(format!("connect: {}", e)),
        };
        inject::refuse_pools(1);
        let e = exchange(&mut r, format!("refused{}z", i), Some("keep-alive"), 0, 0);
        c.send(&e.bytes);
        let x = c.response_within(PATIENT);
        let bad = match &x {
            Ok(x) => wrong(&e, x),
            Err(b) => Some(format!("{:?}", b)),
        };
        let d = json!({"keep-alive ms": k, "request": crate::report::show(&e.bytes)});
        if let Some(b) = bad {
            inject::refuse_pools(0);
            return rep.violation(0, format!("no thread to be had: {}", b), d);
        }
        forget(&e.tok);
        let res = c.eof_within(PATIENT + Duration::from_millis(k));
        if inject::left_to_refuse() == 0 {
            rep.count("kept connections the system refused a thread for", 1)
        }
        inject::refuse_pools(0);
        // closed at once or when its idle time was over, and nothing in between
        if let Err(b) = res {
            return rep.violation(0, format!("no thread to be had for a connection to be kept alive: after the response {:?}", b), d);
        }
    }
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static GO: AtomicBool = AtomicBool::new(false);

/// stays until it is told to go on
fn crowded(ctx: &mut Context) {
    ACTIVE.fetch_add(1, SeqCst);
    let t = Instant::now();
    while !GO.load(SeqCst) && t.elapsed() < Duration::from_secs(100) {
        std::thread::sleep(Duration::from_millis(2));
    }
    ACTIVE.fetch_sub(1, SeqCst);
    ctx.resp_body(or(ctx.req_param("n")).into_bytes());
    ctx.response();
}

/// the pool size is the number of connections that are served at once; the others wait
fn crowd(rep: &Report) {
    let size = [1usize, 3, 20, 33, 66, 130][rep.opts.shard % 6];
    let s = match srv::start(Cfg { pool: size, ..Cfg::default() }, |s| register(s, "", "GET", "/crowd", crowded, None, None)) {
        Ok(s) => s,
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    };
    let d = json!({"pool size": size});
    let mut conns = vec![];
    for i in 0..size + 5 {
        match Conn::open(s.port) {
            Ok(mut c) => {
                c.send(&Req::new("GET", &format!("/crowd?n={}", i)).bytes());
                conns.push(c)
            }
            Err(e) => return rep.inconclusive(format!("connect: {}", e)),
        }
    }
    let all = crate::report::wait_until(60, || ACTIVE.load(SeqCst) >= size);
    std::thread::sleep(Duration::from_millis(150));
    let n = ACTIVE.load(SeqCst);
    GO.store(true, SeqCst);
    if !all || n != size {
        return rep.violation(0, format!("with a pool size of {} and {} requests waiting, {} are being handled", size, conns.len(), n), d);
    }
    for (i, c) in conns.iter_mut().enumerate() {
        match c.response_within(PATIENT) {
            Ok(x) if x.code == 200 && x.body == i.to_string().as_bytes() => {}
            x => return rep.violation(0, format!("of {} connections with a pool size of {}, number {} got {:?}", size + 5, size, i, x.map(|x| (x.code, crate::report::show(&x.body)))), d),
        }
    }
    rep.count("connections served at once by a pool of as many threads", size as u64);
}

/// with a keep-alive time of nothing, every response is still whole and the connection ends after it
fn no_keepalive(rep: &Report) {
    let k = if rep.opts.shard % 2 == 0 { -5 } else { 0 };
    let s = match srv::start(Cfg { pool: 4, keepalive: Some(k), ..Cfg::default() }, |s| {
        for m in METHODS.iter() {
            register(s, "/iso", m, "/:tok/x", echo, None, None);
        }
    }) {
        Ok(s) => s,
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    };
    let mut r = Rng::new(rep.opts.seed, u64::MAX - 2);
    for i in 0..20 {
        let mut c = match Conn::open(s.port) {
            Ok(c) => c,
            Err(e) => return rep.inconclusive(format!("connect: {}", e)),
        };
        let size = if i % 3 == 0 { 300_000 } else { 0 };
        let e = exchange(&mut r, format!("nokeep{}z", i), Some("keep-alive"), 3 * i, size);
        c.send(&e.bytes);
        match c.response_within(PATIENT) {
            Ok(x) if wrong(&e, &x).is_none() => {}
            x => return rep.violation(0, format!("keep-alive of {} ms, request {}: {:?}", k, i, x.map(|x| x.code)), json!({})),
        }
        if let Err(b) = c.eof_within(PATIENT) {
            return rep.violation(0, format!("keep-alive of {} ms: the idle connection: {:?}", k, b), json!({}));
        }
        rep.count("connections with a keep-alive time of 0", 1);
    }
}

/// a keep-alive time of minutes is kept, too
fn long_keepalive(rep: &Report) {
    let s = match srv::start(Cfg { pool: 2, keepalive: Some(150_000), ..Cfg::default() }, |s| {
        for m in METHODS.iter() {
            register(s, "/iso", m, "/:tok/x", echo, None, None);
        }
    }) {
        Ok(s) => s,
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    };
    let mut r = Rng::new(rep.opts.seed, u64::MAX - 1);
    let mut c = match Conn::open(s.port) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    for i in 0..2 {
        if i == 1 {
            std::thread::sleep(Duration::from_secs(62));
        }
        let e = exchange(&mut r, format!("long{}", i), Some("keep-alive"), 0, 0);
        c.send(&e.bytes);
        match c.response_within(PATIENT) {
            Ok(x) if wrong(&e, &x).is_none() => {}
            x => return rep.violation(0, format!("keep-alive of 150 s, request {}, sent after {} s of quiet: {:?}", i, 62 * i, x.map(|x| x.code)), json!({})),
        }
    }
    rep.count("connections kept for more than a minute", 1);
}

fn default_keepalive(rep: &Report) {
    let mut r = Rng::new(rep.opts.seed, u64::MAX);
    let mut c = match Conn::open(port(30000)) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    for i in 0..2 {
        let e = exchange(&mut r, format!("d{}", i), Some("keep-alive"), 0, 0);
        c.send(&e.bytes);
        match c.response_within(PATIENT) {
            Ok(x) if wrong(&e, &x).is_none() => {}
            x => return rep.violation(0, format!("default keep-alive: request {}: {:?}", i, x.map(|x| x.code)), json!({})),
        }
        if i == 0 {
            std::thread::sleep(Duration::from_secs(2))
        }
    }
    let last = seen("d1").unwrap().1;
    let res = c.eof_within(Duration::from_secs(70));
    let idle = last.elapsed();
    rep.count("default idle time observed", 1);
    match res {
        Ok(()) if idle >= Duration::from_secs(30) => {}
        Ok(()) => rep.violation(0, format!("with the default keep-alive of 30 s the idle connection was closed after {:?}", idle), json!({})),
        Err(e) => rep.violation(0, format!("with the default keep-alive of 30 s the idle connection: {:?} after {:?}", e, idle), json!({})),
    }
}

/// several connections at once, their bytes interleaved on the way in
fn isolation(rep: &Report, case: u64, r: &mut Rng) {
    let k = r.range(2, 8);
    let p = port(*r.pick(&[30000u64, 30000, 30000, 2500]));
    let mut conns: Vec<Option<Conn>> = (0..k).map(|_| None).collect();
    let mut order: Vec<u8> = vec![];
    for round in 0..r.range(2, 7) {
        if rep.violated() {
            return;
        }
        let n = r.range(1, k);
        let mut who: Vec<usize> = (0..k).collect();
        r.shuffle(&mut who);
        who.truncate(n);
        let mut sent: Vec<(usize, Ex, usize)> = vec![];
        for w in who {
            let pause = if r.chance(1, 3) { r.range(1, 12) as u64 } else { 0 };
            let size = if r.chance(1, 8) { r.size(200_000) } else { 0 };
            let e = exchange(r, format!("{}a{}b{}z", case, w, round), Some("keep-alive"), pause, size);
            if conns[w].is_none() {
                match Conn::open(p) {
                    Ok(c) => conns[w] = Some(c),
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                }
            }
            sent.push((w, e, 0));
        }
        let mut left: Vec<usize> = (0..sent.len()).collect();
        while !left.is_empty() {
            let i = *r.pick(&left);
            let (w, e, at) = &mut sent[i];
            let n = if r.chance(1, 2) { e.bytes.len() } else { r.range(1, 120) };
            let to = (*at + n).min(e.bytes.len());
            conns[*w].as_mut().unwrap().send(&e.bytes[*at..to]);
            *at = to;
            order.push(*w as u8);
            if to == e.bytes.len() {
                left.retain(|x| *x != i)
            }
        }
        r.shuffle(&mut sent);
        for (w, e, _) in sent {
            let res = conns[w].as_mut().unwrap().response_within(PATIENT);
            rep.count("exchanges on concurrent connections", 1);
            let bad = match &res {
                Ok(x) => wrong(&e, x),
                Err(b) => Some(format!("{:?} ({:?} dispatches)", b, seen(&e.tok).map(|s| s.0))),
            };
            forget(&e.tok);
            if let Some(b) = bad {
                return rep.violation(case, format!("connection {} of {}, round {}: {}", w, k, round, b), json!({"request": crate::report::show(&e.bytes), "order of pieces": order}));
            }
            if r.chance(1, 25) {
                conns[w] = None // gone, a new one next time
            }
        }
        if r.chance(1, 6) {
            // a panicking neighbour
            let mut c = match Conn::open(p) {
                Ok(c) => c,
                Err(e) => return rep.inconclusive(format!("connect: {}", e)),
            };
            c.send(&Req::new("GET", "/iso/panic/x").h("X-Tok", "panic").h("X-Panic", "1").keep().bytes());
            rep.count("panicking neighbours", 1);
            conns.push(Some(c));
            conns.pop();
        }
    }
    rep.distinct(&[&case.to_le_bytes()[..], &order].concat());
    rep.sample(|| json!({"connections": k, "order of pieces": order}));
}

/// one connection with very many requests: few paths, some differing in case only, ever new values
fn long_line(rep: &Report, case: u64, r: &mut Rng) {
    let mut c = match Conn::open(port(30000)) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    let n = if rep.opts.thorough { r.range(3000, 20000) } else { r.range(1200, 2500) };
    for i in 0..n {
        if rep.violated() {
            return;
        }
        let letter = *r.pick(&["m", "M", "mm", "mM", "Mm"]);
        let size = if r.chance(1, 200) { r.size(100_000) } else { 0 };
        let tok = format!("{}{}{}", case, letter, r.below(3));
        let e = exchange(r, tok, Some("keep-alive"), 0, size);
        c.send(&e.bytes);
        let bad = match c.response_within(PATIENT) {
            Ok(x) => wrong(&e, &x),
            Err(b) => Some(format!("{:?} ({:?} dispatches)", b, seen(&e.tok).map(|s| s.0))),
        };
        forget(&e.tok);
        if let Some(b) = bad {
            return rep.violation(case, format!("request {} on one connection: {}", i, b), json!({"request": crate::report::show(&e.bytes)}));
        }
        rep.count("exchanges on connections with over 1000 requests", 1);
    }
    rep.distinct(format!("line {} {}", case, n).as_bytes());
}

/// what ends a connection at once: no keep-alive asked for
fn ending(rep: &Report, case: u64, r: &mut Rng) {
    let k = *r.pick(&KEEP);
    let mut c = match Conn::open(port(k)) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    let n = r.below(6);
    for i in 0..=n {
        let last = i == n;
        let conn = if last { *r.pick(&[Some("close"), None, Some("Close"), Some("close"), Some("keep-alive, close"), Some("CLOSE, keep-alive"), Some("x, close"), Some("keep-alive-not")]) } else { *r.pick(&[Some("keep-alive"), Some("keep-alive"), Some("Keep-Alive"), Some("x , KEEP-ALIVE"), Some("keep-alive, TE")]) };
        let size = if r.chance(1, 6) { r.size(400_000) } else { 0 };
        let e = exchange(r, format!("{}e{}z", case, i), conn, 0, size);
        let t = Instant::now();
        let plan = if r.chance(1, 3) { Plan::random(r, e.bytes.len(), &hot_spots(&e.bytes)) } else { Plan::whole() };
        c.send_plan(&e.bytes, &plan);
        let res = c.response_within(PATIENT);
        let bad = match &res {
            Ok(x) => wrong(&e, x),
            Err(b) => Some(format!("{:?}", b)),
        };
        let detail = || json!({"request": crate::report::show(&e.bytes), "number on this connection": i, "keep-alive ms": k});
        if let Some(b) = bad {
            // a stall of the machine longer than the idle time would explain it
            if i > 0 && k < 2000 && t.elapsed() > Duration::from_millis(k / 4) {
                return rep.count("skipped: machine too slow", 1);
            }
            return rep.violation(case, format!("request {} of {} on one connection: {}", i, n + 1, b), detail());
        }
        forget(&e.tok);
        rep.count("exchanges before an ending", 1);
        if last {
            // whatever follows must not be dispatched any more
            let again = exchange(r, format!("{}after", case), Some("keep-alive"), 0, 0);
            let follow = r.chance(1, 2);
            if follow {
                c.send(&again.bytes)
            }
            let t = Instant::now();
            let res = c.eof_within(PATIENT);
            rep.count("closes after the response", 1);
            rep.distinct(format!("{:?} {} {} {}", conn, n, k, follow).as_bytes());
            if let Err(b) = res {
                return rep.violation(case, format!("Connection {:?}: not closed after the response: {:?} after {:?}", conn, b, t.elapsed()), detail());
            }
            if k == 30000 && t.elapsed() > Duration::from_secs(25) {
                return rep.violation(case, format!("Connection {:?}: closed only {:?} after the response", conn, t.elapsed()), detail());
            }
            if seen(&again.tok).is_some() {
                return rep.violation(case, format!("Connection {:?}: a request sent after it was dispatched", conn), detail());
            }
        }
    }
}

enum Step {
    Fine,
    /// closed although the idle time was far from over
    Early(String, Value),
    Bad(String, Value),
    Slow,
}

fn timing(rep: &Report, case: u64, r: &mut Rng) {
    let state = r.u64();
    // a single unexpected close may be the machine's: it has to come back
    let mut early = 0;
    for attempt in 0..3 {
        let mut r = Rng::new(state, 1);
        match history(rep, case, attempt, &mut r) {
            Step::Fine | Step::Slow => break,
            Step::Bad(what, d) => return rep.violation(case, what, d),
            Step::Early(what, d) => {
                early += 1;
                rep.count("early closes seen", 1);
                if early == 2 {
                    return rep.violation(case, what, d);
                }
            }
        }
    }
}

/// one connection with idle times, slow handlers, slow readers; at last it goes idle
fn history(rep: &Report, case: u64, attempt: u32, r: &mut Rng) -> Step {
    let k = *r.pick(&KEEP[..3]);
    let mut c = match Conn::open(port(k)) {
        Ok(c) => c,
        Err(_) => return Step::Slow,
    };
    let n = r.range(1, 6);
    let mut log: Vec<String> = vec![];
    let mut last: Option<Instant> = None;
    let mut sig = vec![];
    for i in 0..n {
        if rep.violated() {
            return Step::Slow;
        }
        let wait = match r.below(3) {
            0 => 0,
            _ => r.below((k as usize - 450).max(50)) as u64,
        };
        let pause = match r.below(5) {
            0 => k * 3 / 2,
            1 if k < 2000 => k * 22 / 10,
            2 => k / 2,
            _ => 0,
        };
        let size = if r.chance(1, 6) { r.range(1, 6) * 1_000_000 } else { 0 };
        let lazy = if size > 0 && r.chance(1, 2) { k * 13 / 10 } else { 0 };
        sig.push(format!("{}/{}/{}", wait * 8 / k, pause * 8 / k, lazy > 0));
        let e = exchange(r, format!("{}t{}n{}z", case, attempt, i), Some("keep-alive"), pause, size);
        if i > 0 {
            std::thread::sleep(Duration::from_millis(wait));
        }
        // the request itself takes longer to arrive than an idle connection is kept
        let slow = if r.chance(1, 5) { k * 13 / 10 } else { 0 };
        let cut = if slow > 0 { r.range(1, e.bytes.len() - 1) } else { e.bytes.len() };
        c.send(&e.bytes[..cut]);
        let gone = last.map(|l| l.elapsed()).unwrap_or_default();
        if slow > 0 {
            rep.count("requests that arrive slowly", 1);
            std::thread::sleep(Duration::from_millis(slow));
            c.send(&e.bytes[cut..]);
        }
        log.push(format!("idle {} ms, first {} bytes, then {} ms, handler {} ms, body {}, reader waits {} ms", wait, cut, slow, pause, size, lazy));
        std::thread::sleep(Duration::from_millis(lazy));
        let res = c.response_within(PATIENT + Duration::from_millis(2 * k));
        let d = json!({"keep-alive ms": k, "history": log, "since the last response": format!("{:?}", gone), "dispatches": seen(&e.tok).map(|s| s.0)});
        rep.count("exchanges with idle times", 1);
        match &res {
            Ok(x) => {
                if let Some(b) = wrong(&e, x) {
                    return Step::Bad(b, d);
                }
            }
            Err(b) => {
                let dispatched = seen(&e.tok).is_some();
                if !dispatched && gone + Duration::from_millis(400) > Duration::from_millis(k) {
                    rep.count("skipped: machine too slow", 1);
                    return Step::Slow;
                }
                let what = if dispatched { format!("the response of a request being handled was cut off: {:?}", b) } else { format!("a request sent {:?} after the last response was not answered: {:?}", gone, b) };
                // a dispatched request was received in time, no delay of the machine explains its loss
                return if dispatched || !matches!(b, Bad::Closed) { Step::Bad(what, d) } else { Step::Early(what, d) };
            }
        }
        last = seen(&e.tok).map(|s| s.1);
        forget(&e.tok);
        if lazy > 0 {
            break; // when the response ended is not known
        }
        if i + 1 == n && r.chance(2, 3) {
            // idle to the end
            let last = last.unwrap();
            let res = c.eof_within(PATIENT + Duration::from_millis(k));
            let idle = last.elapsed();
            let d = json!({"keep-alive ms": k, "history": log, "idle": format!("{:?}", idle)});
            rep.count("idle times to the end", 1);
            match res {
                Ok(()) if idle < Duration::from_millis(k) => return Step::Bad(format!("closed {:?} after the last response, keep-alive is {} ms", idle, k), d),
                Ok(()) => {}
                Err(b) => return Step::Bad(format!("idle connection not closed: {:?} after {:?}, keep-alive is {} ms", b, idle, k), d),
            }
        }
    }
    rep.distinct(format!("{} {:?}", k, sig).as_bytes());
    rep.sample(|| json!({"keep-alive ms": k, "history": log}));
    Step::Fine
}
