//! C03 / C04: random route tables and filter chains on the real server, compared with a reference
//! matcher and a reference pipeline.

use std::collections::HashSet;
use std::sync::{Mutex, OnceLock};

use serde_json::json;
use starry::{Context, Extend, HttpServer};

use crate::raw::{Bad, Conn, Req};
use crate::report::{clip, lock, run_cases, Report};
use crate::rng::Rng;
use crate::srv::{self, Act, Ask, Cfg, Script, Srv, H};

pub const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

pub fn register(server: &HttpServer, group: &str, method: &str, pattern: &str, f: fn(&mut Context), ext: Option<Extend>, group_ext: Option<Extend>) {
    let g = match group_ext {
        Some(e) => server.router_wf(group, e),
        None => server.router(group),
    };
    match (method, ext) {
        ("OPTIONS", None) => g.option(pattern, f),
        ("GET", None) => g.get(pattern, f),
        ("POST", None) => g.post(pattern, f),
        ("PUT", None) => g.put(pattern, f),
        ("DELETE", None) => g.delete(pattern, f),
        ("HEAD", None) => g.head(pattern, f),
        ("TRACE", None) => g.trace(pattern, f),
        ("CONNECT", None) => g.connect(pattern, f),
        ("PATCH", None) => g.patch(pattern, f),
        ("LINK", None) => g.link(pattern, f),
        ("UNLINK", None) => g.unlink(pattern, f),
        ("PRI", None) => g.pri(pattern, f),
        ("OPTIONS", Some(e)) => g.option_wf(pattern, f, e),
        ("GET", Some(e)) => g.get_wf(pattern, f, e),
        ("POST", Some(e)) => g.post_wf(pattern, f, e),
        ("PUT", Some(e)) => g.put_wf(pattern, f, e),
        ("DELETE", Some(e)) => g.delete_wf(pattern, f, e),
        ("HEAD", Some(e)) => g.head_wf(pattern, f, e),
        ("TRACE", Some(e)) => g.trace_wf(pattern, f, e),
        ("CONNECT", Some(e)) => g.connect_wf(pattern, f, e),
        ("PATCH", Some(e)) => g.patch_wf(pattern, f, e),
        ("LINK", Some(e)) => g.link_wf(pattern, f, e),
        ("UNLINK", Some(e)) => g.unlink_wf(pattern, f, e),
        ("PRI", Some(e)) => g.pri_wf(pattern, f, e),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
struct Route {
    method: &'static str,
    group: String,
    pattern: String,
    segs: Vec<String>,
}

impl Route {
    fn shape(&self) -> String {
        let s: Vec<&str> = self.segs.iter().map(|s| if s.starts_with(':') { ":" } else { s.as_str() }).collect();
        format!("{} {}", self.method, s.join("/"))
    }
}

/// reference matcher: alternatives of a level in the order of first registration, backtracking
fn find(routes: &[Route], cands: &[usize], level: usize, path: &[&str]) -> Option<usize> {
    if level == path.len() {
        return cands.iter().cloned().find(|c| routes[*c].segs.len() == level);
    }
    let mut groups: Vec<(String, Vec<usize>)> = vec![];
    for c in cands {
        if let Some(s) = routes[*c].segs.get(level) {
            let key = if s.starts_with(':') { ":".to_string() } else { s.clone() };
            match groups.iter_mut().find(|g| g.0 == key) {
                Some(g) => g.1.push(*c),
                None => groups.push((key, vec![*c])),
            }
        }
    }
    for (key, g) in groups {
        if key == ":" || key == path[level] {
            if let Some(r) = find(routes, &g, level + 1, path) {
                return Some(r);
            }
        }
    }
    None
}

const LITERALS: [&str; 16] = ["a", "b", "c", "ab", "A", "a.b", "user", "x-1", "%41", "héé", "*", "~z", "a:b", "b:", "x=y;z", ".."];
const NAMES: [&str; 14] = ["p", "q", "id", "name", "Z", "a", "größe", "user-id", "x_y", "0", "pp", "P", "a:b", "a_rather_long_name_of_a_parameter_that_goes_on_and_on"];

fn segments(r: &mut Rng, lo: usize, hi: usize, names: &mut Vec<&'static str>) -> Vec<String> {
    (0..r.range(lo, hi))
        .map(|_| {
            if r.chance(2, 5) && !names.is_empty() {
                let i = r.below(names.len());
                format!(":{}", names.remove(i))
            } else if r.chance(1, 25) {
                String::new()
            } else if r.chance(1, 60) {
                "long".repeat(r.range(5, 200))
            } else if r.chance(3, 4) {
                LITERALS[r.below(3)].to_string()
            } else {
                r.pick(&LITERALS).to_string()
            }
        })
        .collect()
}

fn table(r: &mut Rng, base: &str) -> Vec<Route> {
    let methods: Vec<&'static str> = match r.below(3) {
        0 => vec![*r.pick(&METHODS)],
        1 => (0..3).map(|_| *r.pick(&METHODS)).collect(),
        _ => METHODS.to_vec(),
    };
    let n = if r.chance(1, 8) { r.range(24, srv::SLOTS) } else { r.range(1, 24) };
    let mut out: Vec<Route> = vec![];
    let mut tries = 0;
    while out.len() < n && tries < 200 {
        tries += 1;
        let mut names: Vec<&'static str> = NAMES.to_vec();
        r.shuffle(&mut names);
        let (mut group, gsegs) = match r.below(4) {
            0 | 1 => (String::new(), vec![]),
            _ => {
                let g = segments(r, 1, 2, &mut names);
                (format!("/{}", g.join("/")), g)
            }
        };
        // sometimes extend or vary an existing route: shared prefixes and overlaps
        let psegs = if !out.is_empty() && r.chance(2, 5) {
            let o = r.pick(&out).clone();
            let mut s: Vec<String> = o.segs.clone();
            match r.below(4) {
                0 => {
                    s.truncate(s.len().saturating_sub(1));
                }
                1 => s.push(LITERALS[r.below(3)].to_string()),
                2 => {
                    let i = r.below(s.len());
                    s[i] = LITERALS[r.below(3)].to_string()
                }
                _ => {
                    let used: Vec<String> = s.clone();
                    let i = r.below(s.len());
                    if let Some(n) = NAMES.iter().find(|n| !used.contains(&format!(":{}", n))) {
                        s[i] = format!(":{}", n)
                    }
                }
            }
            group = String::new();
            s
        } else {
            let deep = if r.chance(1, 20) { 60 } else { 4 };
            segments(r, if gsegs.is_empty() { 1 } else { 0 }, deep, &mut names)
        };
        if psegs.is_empty() && group.is_empty() {
            continue;
        }
        let segs: Vec<String> = if group.is_empty() { psegs.clone() } else { gsegs.into_iter().chain(psegs.iter().cloned()).collect() };
        if !base.is_empty() && group.is_empty() && psegs.is_empty() {
            continue;
        }
        let route = Route {
            method: methods[r.below(methods.len())],
            group,
            pattern: if psegs.is_empty() { String::new() } else { format!("/{}", psegs.join("/")) },
            segs,
        };
        let mut params: Vec<&String> = route.segs.iter().filter(|s| s.starts_with(':')).collect();
        params.sort();
        let before = params.len();
        params.dedup();
        if params.len() != before || out.iter().any(|o| o.shape() == route.shape()) {
            continue;
        }
        out.push(route);
    }
    out.truncate(srv::SLOTS);
    out
}

fn request_path(r: &mut Rng, routes: &[Route]) -> Vec<String> {
    let values = ["a", "b", "c", "1", "zz", "ab", "A", ":p", "x=y;z", "%2F", "%61", "one%20two", "%2e%2e", "a+b", "%C3%BC", "%253A", "%00", "ü", "a.b", "user", "", "-", "@", "p,q", "\"q\"", "a:b", "b:", "a:", "..", "."];
    let mut segs: Vec<String> = if r.chance(9, 10) {
        let o = r.pick(routes);
        o.segs
            .iter()
            .map(|s| {
                if !s.starts_with(':') {
                    s.clone()
                } else if r.chance(1, 80) {
                    "value".repeat(r.range(10, 2000))
                } else {
                    r.pick(&values).to_string()
                }
            })
            .collect()
    } else {
        (0..r.range(1, 5)).map(|_| r.pick(&values).to_string()).collect()
    };
    match r.below(14) {
        0 => {
            segs.pop();
        }
        1 => segs.push(r.pick(&values).to_string()),
        2 => segs.push(String::new()),
        3 => {
            let i = r.below(segs.len().max(1));
            if i < segs.len() {
                segs[i] = r.pick(&values).to_string()
            }
        }
        4 => {
            let i = r.below(segs.len().max(1));
            if i < segs.len() {
                let up = segs[i].to_uppercase();
                segs[i] = if up == segs[i] { segs[i].to_lowercase() } else { up }
            }
        }
        5 => {
            let i = r.below(segs.len().max(1));
            if i < segs.len() {
                let s = segs[i].clone();
                segs[i] = if s.chars().count() > 1 && r.chance(1, 2) { s.chars().take(s.chars().count() - 1).collect() } else { format!("{}x", s) }
            }
        }
        6 => segs.insert(0, String::new()),
        _ => {}
    }
    if segs.is_empty() {
        segs.push(String::new())
    }
    segs
}

static SHARED: OnceLock<Srv> = OnceLock::new();
static REGISTER: Mutex<()> = Mutex::new(());

pub fn c03(rep: &'static Report) {
    let max = if rep.opts.thorough { 4000 } else { 600 };
    match srv::start(srv::varied(rep.opts.shard), |_| {}) {
        Ok(s) => {
            let _ = SHARED.set(s);
        }
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    }
    run_cases(rep, 3, max, |rep, case, r| {
        let own = r.chance(1, 6);
        let base = if own { String::new() } else { format!("/case{}", case) };
        let routes = table(r, &base);
        if routes.is_empty() {
            return;
        }
        let hs = srv::handlers();
        let install = |server: &HttpServer| {
            for (i, t) in routes.iter().enumerate() {
                register(server, &format!("{}{}", base, t.group), t.method, &t.pattern, hs[i], None, None);
            }
        };
        let started;
        let port = if own {
            match srv::start(Cfg { pool: 3, ..srv::varied(case as usize) }, |s| install(s)) {
                Ok(s) => {
                    started = s;
                    started.port
                }
                Err(e) => return rep.violation(case, format!("server did not start: {}", e), json!({"routes": format!("{:?}", routes)})),
            }
        } else {
            let s = SHARED.get().unwrap();
            let _g = lock(&REGISTER);
            install(&s.server);
            s.port
        };
        let all: Vec<usize> = (0..routes.len()).collect();
        let keys: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        let mut conn: Option<Conn> = None;
        for _ in 0..r.range(20, 60) {
            let segs = request_path(r, &routes);
            let path: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
            let method = if r.chance(4, 5) { r.pick(&routes).method } else { *r.pick(&METHODS) };
            let cands: Vec<usize> = all.iter().cloned().filter(|i| routes[*i].method == method).collect();
            let want = find(&routes, &cands, 0, &path);
            let target = format!("{}/{}{}", base, segs.join("/"), if r.chance(1, 6) { "?a=b&p=1" } else { "" });
            let id = srv::script(Script::reply(Ask { fields: keys.clone(), ..Ask::default() }, "ok"));
            let req = Req::new(method, &target).h("X-Id", &id.to_string()).keep();
            if conn.is_none() {
                match Conn::open(port) {
                    Ok(c) => conn = Some(c),
                    Err(e) => {
                        rep.inconclusive(format!("connect: {}", e));
                        return;
                    }
                }
            }
            let c = conn.as_mut().unwrap();
            c.send(&req.bytes());
            let res = c.response();
            let obs = srv::take(id);
            let detail = || {
                json!({"request": format!("{} {}", method, target), "routes": routes.iter().map(|t| format!("{} {}{}", t.method, t.group, t.pattern)).collect::<Vec<_>>(),
                "expected_route": want.map(|w| w as i64).unwrap_or(-1), "dispatched_tags": obs.iter().map(|o| o.tag).collect::<Vec<_>>()})
            };
            rep.count("requests", 1);
            let multi = cands.iter().filter(|c| matches(&routes[**c].segs, &path)).count();
            if multi > 1 {
                rep.count("requests matched by several routes", 1)
            }
            rep.distinct(format!("{:?}{}{:?}", routes.iter().map(|t| t.shape()).collect::<Vec<_>>(), method, segs).as_bytes());
            match (want, &res) {
                (None, Ok(x)) => {
                    if x.code != 404 {
                        return rep.violation(case, format!("no route matches but the answer is {}", x.code), detail());
                    }
                    if !obs.is_empty() {
                        return rep.violation(case, "no route matches but a handler was called".into(), detail());
                    }
                    rep.count("answers 404", 1);
                    conn = None;
                }
                (Some(w), Ok(x)) => {
                    if x.code != 200 || obs.len() != 1 {
                        return rep.violation(case, format!("route {} matches, answer is {} and {} handlers were called", w, x.code, obs.len()), detail());
                    }
                    if obs[0].tag as usize != w {
                        return rep.violation(case, format!("route {} matches first, dispatched to {}", w, obs[0].tag), detail());
                    }
                    let mut n = 0;
                    for (k, got) in keys.iter().zip(&obs[0].fields) {
                        let exp = routes[w].segs.iter().position(|s| s.as_str() == format!(":{}", k)).map(|i| segs[i].clone());
                        n += exp.is_some() as usize;
                        if got.0 != exp || got.1 != exp.is_some() {
                            return rep.violation(case, format!("field {:?} is {:?} (present: {}), expected {:?}", k, got.0, got.1, exp), detail());
                        }
                    }
                    if obs[0].n_fields != n {
                        return rep.violation(case, format!("req_count_fields is {}, expected {}", obs[0].n_fields, n), detail());
                    }
                    if obs[0].path != target.split('?').next().unwrap_or("") {
                        return rep.violation(case, format!("req_path is {:?}", obs[0].path), detail());
                    }
                    rep.count("dispatches", 1);
                    rep.count(&format!("dispatches {}", method), 1);
                    rep.sample(|| detail());
                }
                (_, Err(Bad::Timeout(t))) => {
                    return rep.violation(case, format!("no answer: {}", t), detail());
                }
                (_, Err(e)) => {
                    return rep.violation(case, format!("no well-formed answer: {:?}", e), detail());
                }
            }
        }
    });
}

fn matches(segs: &[String], path: &[&str]) -> bool {
    segs.len() == path.len() && segs.iter().zip(path).all(|(s, p)| s.starts_with(':') || s == p)
}

// ---------------------------------------------------------------- C04

static FSRV: OnceLock<(Srv, Vec<(&'static str, String, Vec<u32>)>)> = OnceLock::new();

/// mostly up to four filters, sometimes up to twenty; some compositions draw from so few that the same filter is listed repeatedly
fn filter_list(r: &mut Rng) -> Vec<u32> {
    let of = if r.chance(1, 2) { r.range(1, 3) } else { srv::SLOTS };
    let n = if r.chance(1, 8) { r.range(5, 20) } else { r.below(5) };
    (0..n).map(|_| r.below(of) as u32).collect()
}

pub fn c04(rep: &'static Report) {
    let max = if rep.opts.thorough { 6000 } else { 2000 };
    // the routes of this shard: random compositions of group and route filters
    let mut r = Rng::new(rep.opts.seed, 0xf117e5 + rep.opts.shard as u64);
    let mut chains: Vec<(&'static str, String, Vec<u32>)> = vec![];
    let hs = srv::handlers();
    let fs = srv::filters();
    let mut setup: Vec<(String, Option<Vec<u32>>, &'static str, String, Option<Vec<u32>>, H, bool)> = vec![];
    for g in 0..14 {
        let group_filters: Option<Vec<u32>> = if r.chance(1, 3) { None } else { Some(filter_list(&mut r)) };
        for k in 0..r.range(1, 4) {
            let m = METHODS[r.below(12)];
            let route_filters: Option<Vec<u32>> = if r.chance(1, 3) { None } else { Some(filter_list(&mut r)) };
            let hid = r.below(srv::SLOTS);
            let limited = route_filters.is_some() && r.chance(1, 10);
            let group = format!("/g{}", g);
            let pattern = format!("/r{}", k);
            let mut chain: Vec<u32> = vec![];
            for f in route_filters.iter().chain(group_filters.iter()) {
                chain.extend(f.iter().map(|x| 1000 + x));
            }
            chain.push(hid as u32);
            chains.push((m, format!("{}{}", group, pattern), chain));
            setup.push((group, group_filters.clone(), m, pattern, route_filters, hs[hid], limited));
        }
    }
    let start = srv::start(srv::varied(rep.opts.shard), |s| {
        let fl = |v: &Vec<u32>| v.iter().map(|i| fs[*i as usize]).collect::<Vec<H>>();
        for (group, gf, m, pattern, rf, h, limited) in &setup {
            let ext = rf.as_ref().map(|v| if *limited { Extend::e3(fl(v), starry::Limit::new(0, 1, 0)) } else { Extend::e1(fl(v)) });
            register(s, group, m, pattern, *h, ext, gf.as_ref().map(|v| Extend::e1(fl(v))));
        }
    });
    match start {
        Ok(s) => {
            let _ = FSRV.set((s, chains));
        }
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    }
    run_cases(rep, 4, max, |rep, case, r| {
        let (srv, chains) = FSRV.get().unwrap();
        let mut conn: Option<Conn> = None;
        for _ in 0..r.range(5, 20) {
            let (m, path, chain) = r.pick(chains).clone();
            // which stage answers: a filter, or the handler
            let at = if r.chance(1, 2) { chain.len() - 1 } else { r.below(chain.len()) };
            // a filter listed twice answers at its first position
            let at = chain.iter().position(|t| *t == chain[at]).unwrap();
            let mut s = Script::default();
            // what each stage makes of the response: its status, its body, its fields
            let plain = r.chance(1, 3);
            let formed = ["POST", "PUT", "PATCH"].contains(&m) && r.chance(1, 2);
            let mut does: std::collections::HashMap<u32, (Option<u16>, Option<Vec<u8>>)> = std::collections::HashMap::new();
            for (i, t) in chain.iter().enumerate() {
                let code = if plain {
                    Some(if i % 2 == 0 { 200 } else { 202 })
                } else if r.chance(2, 3) {
                    Some(*r.pick(&crate::respond::CODES))
                } else {
                    None
                };
                let body = if plain {
                    Some(format!("stage {}", t).into_bytes())
                } else {
                    match r.below(5) {
                        0 => None,
                        1 => Some(vec![]),
                        2 => {
                            let n = r.size(3000);
                            Some(r.blob(n))
                        }
                        _ => Some(format!("stage {}", t).into_bytes()),
                    }
                };
                let mut acts = vec![Act::Add("X-Stage".into(), t.to_string())];
                if let Some(c) = code {
                    acts.push(Act::Status(c))
                }
                if let Some(b) = &body {
                    acts.push(Act::Body(b.clone()))
                }
                if !plain && r.chance(1, 5) {
                    acts.push(match r.below(4) {
                        0 => Act::Ct(starry::header::ContentType::APPLICATION_JSON),
                        1 if formed => Act::Form("a".into()),
                        1 | 2 => Act::Set("Location".into(), "/elsewhere".into()),
                        _ => Act::Cookie(crate::respond::cookie(r)),
                    })
                }
                if r.chance(1, 12) {
                    acts.push(Act::SleepMs(1))
                }
                if i == at || i == chain.len() - 1 {
                    acts.push(Act::Respond);
                }
                does.entry(*t).or_insert((code, body));
                s.stage.entry(*t).or_insert(acts);
            }
            let id = srv::script(s);
            if conn.is_none() {
                match Conn::open(srv.port) {
                    Ok(c) => conn = Some(c),
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                }
            }
            let c = conn.as_mut().unwrap();
            let last_one = r.chance(1, 8);
            let mut q = Req::new(m, &path).h("X-Id", &id.to_string());
            if last_one {
                if r.chance(1, 2) {
                    q = q.h("Connection", "close")
                }
            } else {
                q = q.keep()
            }
            if formed {
                q = q.body(b"a=1&b=2".to_vec(), "application/x-www-form-urlencoded")
            }
            if r.chance(1, 6) {
                q = q.h("Authorization", "Basic dTpw").h("Cookie", "a=b")
            }
            c.send(&q.bytes());
            let res = c.response();
            // a later stage that runs although the response is out gets a moment to show itself
            if r.chance(1, 4) {
                std::thread::sleep(std::time::Duration::from_millis(2))
            }
            let ran: Vec<u32> = srv::peek(id).iter().map(|o| o.tag).collect();
            let want: Vec<u32> = chain[..=at].to_vec();
            let detail = || json!({"request": format!("{} {}", m, path), "chain": chain, "responding_stage": at, "stages_run": ran});
            rep.count("requests", 1);
            rep.count("stage runs", ran.len() as u64);
            if want.iter().collect::<HashSet<_>>().len() < want.len() {
                rep.count("requests whose expected run has a filter twice", 1)
            }
            rep.count(if at + 1 == chain.len() { "answered by the handler" } else { "answered by a filter" }, 1);
            rep.distinct(format!("{:?} {}", chain, at).as_bytes());
            let x = match res {
                Ok(x) => x,
                Err(e) => return rep.violation(case, format!("no well-formed answer: {:?}", e), detail()),
            };
            if ran != want {
                return rep.violation(case, format!("stages run {:?}, expected {:?}", ran, want), detail());
            }
            let stages: Vec<String> = x.all("X-Stage");
            let exp: Vec<String> = want.iter().map(|t| t.to_string()).collect();
            // what the stages have made of it, one after the other
            let (mut code, mut body) = (200, vec![]);
            for t in &want {
                let (c, b) = &does[t];
                code = c.unwrap_or(code);
                if let Some(b) = b {
                    body = b.clone()
                }
            }
            if code / 100 > 2 {
                rep.count("answers that are no success", 1)
            }
            if stages != exp || !x.carries(&body) || x.code != code {
                return rep.violation(case, format!("response carries stages {:?}, status {}, body {:?}, expected {:?}, {}, {:?}", stages, x.code, clip(&String::from_utf8_lossy(&x.body), 200), exp, code, clip(&String::from_utf8_lossy(&body), 200)), detail());
            }
            if last_one {
                conn = None
            }
            srv::take(id);
            rep.sample(|| detail());
        }
        // nothing ran late
        if let Some(c) = conn.as_mut() {
            if let Err(e) = c.silent_for(std::time::Duration::from_millis(1)) {
                rep.violation(case, format!("after the last response: {:?}", e), json!({}))
            }
        }
    });
}
