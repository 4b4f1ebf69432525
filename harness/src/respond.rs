//! C09, C10, C15 (response side): bytes on the wire against the calls the handler made.

use std::collections::BTreeMap;
use std::io::Read;
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

use serde_json::{json, Value};
use starry::header::cookie::SameSite;
use starry::header::{ContentType, Cookie, CookieBuilder};
use starry::{HttpClient, Response};
use starry::utils::Time;

use crate::peer::{Peer, Reply};
use crate::raw::{Conn, Plan, Req, Resp};
use crate::report::{clip, guarded, run_cases, show, Report};
use crate::request::{cookie_name, cookie_server, cookie_value, cookies_in, Link};
use crate::rng::Rng;
use crate::route::{register, METHODS};
use crate::srv::{self, Act, Ask, Cfg, Script, Srv};

static PLAIN: OnceLock<Srv> = OnceLock::new();
static COMPRESSING: OnceLock<Srv> = OnceLock::new();
static POOL: Mutex<Vec<Link>> = Mutex::new(vec![]);
static SLICES: OnceLock<Vec<&'static [u8]>> = OnceLock::new();

fn servers(rep: &Report) -> bool {
    let mut r = Rng::new(rep.opts.seed, 0x511ce5 + rep.opts.shard as u64);
    let mut v: Vec<&'static [u8]> = vec![b"", b"x", b"hello"];
    for _ in 0..40 {
        let n = r.size(9000);
        v.push(Box::leak(r.blob(n).into_boxed_slice()));
    }
    let _ = SLICES.set(v);
    for (compress, cell) in [(false, &PLAIN), (true, &COMPRESSING)] {
        let s = srv::start(Cfg { compress, ..srv::varied(rep.opts.shard) }, |s| {
            for m in METHODS.iter() {
                register(s, "", m, "/r", srv::handlers()[0], None, None);
            }
        });
        match s {
            Ok(s) => {
                let _ = cell.set(s);
            }
            Err(e) => {
                rep.violation(0, format!("server did not start: {}", e), json!({}));
                return false;
            }
        }
    }
    true
}

pub const CODES: [u16; 59] = [
    200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422,
    423, 424, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511, 200, 404,
];

/// what the calls made so far must put on the wire
#[derive(Clone, Debug, Default)]
struct Model {
    status: u16,
    version: String,
    headers: BTreeMap<String, Vec<String>>,
    cookies: Vec<String>,
    body: Vec<u8>,
    /// content types that are acceptable: what was asked for last
    ctypes: Vec<String>,
}

fn media(r: &mut Rng) -> ContentType {
    match r.below(8) {
        0 => ContentType::TEXT_HTML,
        1 => ContentType::APPLICATION_JSON,
        2 => ContentType::IMAGE_PNG,
        3 => ContentType::APPLICATION_OCTET_STREAM,
        4 => ContentType::custom_str("text/html; charset=utf-8"),
        5 => ContentType::custom(format!("application/x-{}", r.below(1000))),
        6 => ContentType::TEXT_XML,
        _ => ContentType::APPLICATION_XHTML_XML,
    }
}

fn body_bytes(r: &mut Rng, big: usize) -> Vec<u8> {
    let n = if r.chance(1, 25) { r.range(0, big) } else { r.size(20000) };
    match r.below(4) {
        // bytes that look like framing
        0 if n > 0 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend_from_slice(r.pick(&["\r\n\r\n", "HTTP/1.1 200 OK\r\n", "Content-Length: 3\r\n", "0\r\n\r\n", "\r", "\n", "x"]).as_bytes())
            }
            v.truncate(n);
            v
        }
        _ => r.blob(n),
    }
}

/// a path of any length, with anything in it but what ends an attribute
pub fn cookie_path(r: &mut Rng) -> String {
    let n = *r.pick(&[3usize, 20, 100, 300, 1100]);
    let n = r.range(1, n);
    let mut p = String::from("/");
    while p.len() < n {
        let w = *r.pick(&[3usize, 12, 40]);
        p.push_str(&r.string(&['a', 'b', 'Z', '0', '-', '_', '.', '~', '%', '=', ',', '+', ':', '@', '&', '(', '?', '#'], 0, w));
        p.push('/');
    }
    if r.chance(1, 2) {
        p.pop();
    }
    if r.chance(1, 4) {
        p = r.spice(&p)
    }
    if p.is_empty() { "/".into() } else { p }
}

pub fn cookie_domain(r: &mut Rng) -> String {
    let n = *r.pick(&[1usize, 2, 4, 9]);
    let mut d = String::new();
    for i in 0..n {
        if i > 0 || r.chance(1, 5) {
            d.push('.')
        }
        let w = *r.pick(&[3usize, 20, 63]);
        d.push_str(&r.string(&['a', 'b', 'Z', 'x', 'n', '0', '9', '-', '_'], 1, w));
    }
    d
}

pub fn cookie(r: &mut Rng) -> Cookie {
    let name = cookie_name(r);
    let mut value = cookie_value(r);
    if r.chance(1, 10) {
        value = format!("\"{}\"", value)
    }
    match r.below(6) {
        0 => return Cookie::new(name, value),
        1 => {
            let m = if r.chance(1, 2) { Some(r.irange(-5, 100000) as isize) } else { None };
            return Cookie::create(name, value, Some("/".into()), if r.chance(1, 2) { Some("example.com".into()) } else { None }, None, m, r.chance(1, 2), r.chance(1, 2));
        }
        _ => {}
    }
    let mut b = CookieBuilder::new();
    b.name_value(name, value);
    if r.chance(1, 2) {
        let p = if r.chance(1, 3) { cookie_path(r) } else { r.pick(&["/", "/a", "/a/b=c", "/x y", "/path,1", "", "/é", "/a/", "/Dir/Sub//", "no/slash", "/%41?x#y"]).to_string() };
        b.path(p);
    }
    if r.chance(1, 2) {
        let d = if r.chance(1, 3) { cookie_domain(r) } else { r.pick(&["example.com", ".example.com", "localhost", "a.b.c.d", "xn--e1afmkfd.example", "Example.COM", "..x", "example.com.", "127.0.0.1"]).to_string() };
        b.domain(d);
    }
    if r.chance(1, 2) {
        let m = match r.below(4) {
            0 => 0,
            1 => -1,
            2 => r.irange(i64::MIN, i64::MAX),
            _ => r.irange(1, 100000000),
        };
        b.max_age(m as isize);
    }
    b.secure(r.chance(1, 2));
    b.httponly(r.chance(1, 2));
    if r.chance(2, 3) {
        b.same_site(match r.below(3) {
            0 => SameSite::None,
            1 => SameSite::Strict,
            _ => SameSite::Lax,
        });
    }
    b.build()
}

fn program(r: &mut Rng, method: &str, big: usize) -> (Vec<Act>, Model) {
    let mut m = Model { status: 200, version: "HTTP/1.1".into(), ..Model::default() };
    let mut acts = vec![];
    let names = ["X-A", "X-B", "Vary", "ETag", "Location", "Warning", "X-Long", "Cache-Control"];
    // further names, of any token characters
    let mut more: Vec<String> = vec![];
    for _ in 0..r.below(6) {
        let n = r.range(1, 20);
        let t: String = (0..n).map(|_| *r.pick(b"abcdefghXYZ0189-_.!#$%&'*+^`|~") as char).collect();
        let own = ["content-length", "content-type", "connection", "set-cookie", "date", "server", "keep-alive", "cookie", "content-encoding", "transfer-encoding"];
        let l = t.to_ascii_lowercase();
        if !own.contains(&l.as_str()) && !names.iter().any(|x| x.eq_ignore_ascii_case(&t)) && !more.iter().any(|x| x.eq_ignore_ascii_case(&t)) {
            more.push(t)
        }
    }
    let name = |r: &mut Rng| if more.is_empty() || r.chance(1, 2) { r.pick(&names).to_string() } else { r.pick(&more).clone() };
    let steps = match r.below(8) {
        0 if r.chance(1, 4) => r.range(100, 600),
        0 => 0,
        1 => r.range(10, 40),
        _ => r.range(1, 8),
    };
    let slices = SLICES.get().unwrap();
    for _ in 0..steps {
        match r.below(12) {
            11 => acts.push(Act::Look(m.cookies.len(), r.u64())),
            0 => {
                let c = *r.pick(&CODES);
                m.status = c;
                acts.push(Act::Status(c));
            }
            1 => {
                let v = *r.pick(&["HTTP/1.1", "HTTP/1.0"]);
                m.version = v.to_string();
                acts.push(Act::Version(v));
            }
            2 | 3 => {
                let k = name(r);
                let v = header_text(r);
                m.headers.entry(k.clone()).or_default().push(v.clone());
                acts.push(Act::Add(k, v));
            }
            4 => {
                let k = name(r);
                let v = header_text(r);
                m.headers.insert(k.clone(), vec![v.clone()]);
                acts.push(Act::Set(k, v));
            }
            5 => {
                let c = cookie(r);
                m.cookies.push(c.to_string());
                acts.push(Act::Cookie(c));
            }
            6 => {
                m.body = body_bytes(r, big);
                // the plain body calls set text/plain; an explicitly chosen type may be kept as well
                m.ctypes.push("text/plain".into());
                acts.push(Act::Body(m.body.clone()));
            }
            7 => {
                let s = *r.pick(slices);
                m.body = s.to_vec();
                m.ctypes.push("text/plain".into());
                acts.push(Act::Slice(s));
            }
            8 => {
                let c = media(r);
                m.ctypes = vec![c.as_str().to_string()];
                if r.chance(1, 2) {
                    m.body = body_bytes(r, big);
                    acts.push(Act::Bodies(m.body.clone(), c));
                } else {
                    let s = *r.pick(slices);
                    m.body = s.to_vec();
                    acts.push(Act::Slices(s, c));
                }
            }
            9 => {
                let c = media(r);
                m.ctypes = vec![c.as_str().to_string()];
                acts.push(Act::Ct(c));
            }
            _ if steps < 50 => acts.push(Act::SleepMs(r.below(2) as u64)),
            _ => {}
        }
    }
    // some of those that end with their header have no body set, and some of the others that rarely have one
    if (m.status == 205 && r.chance(1, 3)) || ((method == "HEAD" || m.status == 204 || m.status == 304) && r.chance(1, 4)) {
        m.body = vec![];
        m.ctypes.push("text/plain".into());
        acts.push(Act::Body(vec![]));
    }
    acts.push(Act::Respond);
    (acts, m)
}

fn header_text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => "a: b; c=\"d\", e".into(),
        2 => {
            let most = if r.chance(1, 40) { 100_000 } else { 2000 };
            let n = r.range(1, most);
            (0..n).map(|_| (b'!' + r.below(94) as u8) as char).collect()
        }
        3 => r.pick(&["ünï漢", "\u{a0}ü\u{3000}", "\u{85}x\u{2028}"]).to_string(),
        4 => r.string(&['a', 'b', ' ', ':', ';', ',', '=', '/', '"', '\'', '\\', '?', '#', '%', '+', '{', '}', '$', '0', '9', '.', 'é'], 0, 30).trim().to_string(),
        _ => format!("v{}", r.below(100000)),
    }
}

fn check_framed(x: &Resp, m: &Model) -> Result<(), String> {
    if x.code != m.status || x.version != m.version {
        return Err(format!("status line {} {} {:?}, set were {} {}", x.version, x.code, x.phrase, m.version, m.status));
    }
    if x.bodiless {
        // what a response with the body would have said, if anything
        if let Some(l) = x.one("Content-Length") {
            if l != m.body.len().to_string() {
                return Err(format!("Content-Length {} of a response without its body of {} bytes", l, m.body.len()));
            }
        }
    }
    if !x.carries(&m.body) {
        let at = x.body.iter().zip(&m.body).position(|(a, b)| a != b);
        return Err(format!("body of {} bytes arrived as {} bytes, first difference at {:?}", m.body.len(), x.body.len(), at));
    }
    for (k, v) in &m.headers {
        let got = x.all(k);
        if got != *v {
            return Err(format!("header {:?} was set to {} and arrived as {}", k, clip(&format!("{:?}", v), 400), clip(&format!("{:?}", got), 400)));
        }
    }
    for (k, _) in &x.headers {
        let own = ["content-length", "content-type", "connection", "set-cookie", "date", "server", "keep-alive"];
        if !own.contains(&k.to_ascii_lowercase().as_str()) && !m.headers.keys().any(|n| n.eq_ignore_ascii_case(k)) {
            return Err(format!("header {:?} was never set", k));
        }
    }
    let got = x.all("Set-Cookie");
    if got != m.cookies {
        return Err(format!("Set-Cookie lines {}, added were {}", clip(&format!("{:?}", got), 600), clip(&format!("{:?}", m.cookies), 600)));
    }
    let ct = x.all("Content-Type");
    if ct.len() > 1 || (!m.ctypes.is_empty() && !m.ctypes.contains(&ct.get(0).cloned().unwrap_or_default())) {
        return Err(format!("Content-Type {:?}, set was one of {:?}", ct, m.ctypes));
    }
    Ok(())
}

/// a body of many MiB, and another response after it on the same connection
fn huge(rep: &Report, case: u64, r: &mut Rng, port: u16, coding: Option<&'static str>) {
    let n = if coding.is_some() { r.range(5 << 20, 20 << 20) } else { r.range(9 << 20, 40 << 20) };
    let unit = r.bytes(1013);
    let body: Vec<u8> = unit.iter().cycle().take(n).cloned().collect();
    let id = srv::script(Script { acts: vec![Act::Body(body.clone()), Act::Respond], ..Script::default() });
    let next = srv::script(Script { acts: vec![Act::Body(b"next".to_vec()), Act::Respond], ..Script::default() });
    let mut c = match Conn::open(port) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    let detail = || json!({"body_bytes": n, "coding": coding});
    for (id, want) in [(id, &body[..]), (next, b"next")] {
        let mut req = Req::new("GET", "/r").h("X-Id", &id.to_string()).keep();
        if let Some(c) = coding {
            req = req.h("Accept-Encoding", c);
        }
        c.send(&req.bytes());
        let x = match c.response() {
            Ok(x) => x,
            Err(e) => return rep.violation(case, format!("a body of {} bytes got no well-formed answer: {:?}", want.len(), e), detail()),
        };
        srv::take(id);
        let same = match (coding, x.one("Content-Encoding").as_deref()) {
            (_, None) => x.carries(want),
            (Some(k), Some(l)) => k == l && decode(k, &x.body).map(|b| b == want).unwrap_or(false),
            _ => false,
        };
        if x.code != 200 || !same {
            return rep.violation(case, format!("a body of {} bytes arrives as {} bytes, status {}, Content-Encoding {:?}", want.len(), x.body.len(), x.code, x.one("Content-Encoding")), detail());
        }
    }
    rep.count("bodies of many MiB", 1);
    rep.distinct(format!("huge {}", n).as_bytes());
}

/// a reader that looks away for half a minute, a handler that takes as long
fn patient(rep: &Report, case: u64, r: &mut Rng, port: u16) {
    let n = r.range(12 << 20, 16 << 20);
    let body = if case == 8 { r.blob(n) } else { r.blob(20_000) };
    let mut acts = vec![Act::Body(body.clone()), Act::Respond];
    if case == 9 {
        acts.insert(1, Act::SleepMs(32_000));
    }
    let mut c = match Conn::open(port) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    let detail = || json!({"body_bytes": body.len(), "the reader waits": case == 8, "the handler waits": case == 9});
    for want in [&body[..], b"next"] {
        let next = vec![Act::Body(b"next".to_vec()), Act::Respond];
        let id = srv::script(Script { acts: if want == b"next" { next } else { acts.clone() }, ..Script::default() });
        c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
        if want != b"next" {
            std::thread::sleep(Duration::from_millis(32_000))
        }
        let x = c.response();
        let runs = srv::take(id).len();
        match x {
            Ok(x) if x.code == 200 && x.carries(want) && runs == 1 => {}
            x => return rep.violation(case, format!("after half a minute of waiting, a body of {} bytes, handled {} times: {:?}", want.len(), runs, x.map(|x| (x.code, x.body.len()))), detail()),
        }
    }
    rep.count(if case == 8 { "responses read half a minute late" } else { "handlers that take half a minute" }, 1);
    rep.distinct(format!("patient {}", n).as_bytes());
}

pub fn c09(rep: &'static Report) {
    if !servers(rep) {
        return;
    }
    let max = if rep.opts.thorough { 12000 } else { 1200 };
    let big = if rep.opts.thorough { 24 << 20 } else { 2 << 20 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let port = PLAIN.get().unwrap().port;
        let mut conn: Option<Conn> = None;
        if case % 4000 == 7 {
            return huge(rep, case, r, port, None);
        }
        if case == 8 || case == 9 {
            return patient(rep, case, r, port);
        }
        for _ in 0..r.range(2, 8) {
            if rep.violated() {
                return;
            }
            let method = *r.pick(&METHODS);
            let (mut acts, m) = program(r, method, big);
            // a form parse error while handling: exactly one response, whichever of the two
            let form_error = ["POST", "PUT", "PATCH"].contains(&method) && r.chance(1, 3);
            let mut late = false;
            if form_error {
                let at = r.below(acts.len());
                for _ in 0..r.range(1, 3) {
                    acts.insert(at, Act::Form("x".into()));
                }
            }
            // calls after the response are without effect
            if r.chance(1, 3) {
                late = true;
                for _ in 0..r.range(1, 3) {
                    acts.push(match r.below(4) {
                        0 => Act::Body(b"late body".to_vec()),
                        1 => Act::Status(500),
                        2 => Act::Add("X-Late".into(), "1".into()),
                        _ => Act::Respond,
                    });
                }
                acts.push(Act::Respond);
            }
            let id = srv::script(Script { ask: Ask::default(), acts: acts.clone(), ..Script::default() });
            let mut req = Req::new(method, "/r").h("X-Id", &id.to_string()).keep();
            if form_error {
                req = req.body(r.pick(&["--b\r\nno disposition\r\n\r\nv\r\n--b--\r\n", "not a boundary\r\n", "--b\r\nContent-Disposition: form-data\r\n\r\nv\r\n--b--\r\n", "garbage"]).as_bytes().to_vec(), "multipart/form-data; boundary=b");
            } else if r.chance(1, 4) {
                req = req.h("Accept-Encoding", "gzip, deflate");
            }
            if conn.is_none() {
                match Conn::open(port) {
                    Ok(c) => conn = Some(c),
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                }
            }
            let c = conn.as_mut().unwrap();
            c.send(&req.bytes());
            if m.body.len() > 100_000 && r.chance(1, 2) {
                // a slow reader: the server has to write in pieces
                std::thread::sleep(Duration::from_millis(30))
            }
            let res = c.response();
            let short: Vec<String> = acts.iter().map(|a| clip(&format!("{:?}", a), 120)).collect();
            let detail = || -> Value { json!({"method": method, "calls": short, "body_bytes": m.body.len()}) };
            rep.count("responses", 1);
            rep.count("response body bytes", m.body.len() as u64);
            if form_error {
                rep.count("form errors during handling", 1)
            }
            if late {
                rep.count("responses with calls after response()", 1)
            }
            rep.distinct(format!("{} {:?}", method, short).as_bytes());
            let x = match res {
                Ok(x) => {
                    if x.bodiless && !m.body.is_empty() {
                        rep.count("bodies set for responses that end with their header", 1)
                    }
                    x
                }
                Err(e) => return rep.violation(case, format!("no well-formed answer: {:?}", e), detail()),
            };
            let runs = srv::take(id).len();
            if runs != 1 {
                return rep.violation(case, format!("{} dispatches of one request", runs), detail());
            }
            for a in acts.iter() {
                if let Act::Look(_, t) = a {
                    rep.count("copies of the response taken by handlers", 1);
                    if let Some((_, w)) = crate::report::lock(&srv::LOOKS).iter().find(|l| l.0 == *t) {
                        return rep.violation(case, w.clone(), detail());
                    }
                }
            }
            let is_error = form_error && x.code == 400 && x.body.is_empty();
            if !is_error {
                if let Err(e) = check_framed(&x, &m) {
                    return rep.violation(case, e, detail());
                }
            }
            // nothing may follow before the next request
            let quiet = c.silent_for(Duration::from_micros(if form_error || late { 3000 } else { 300 }));
            match quiet {
                Ok(()) => {}
                Err(crate::raw::Bad::Closed) if is_error => conn = None,
                Err(e) => return rep.violation(case, format!("after the response: {:?}", e), detail()),
            }
            if x.code >= 400 && r.chance(1, 6) {
                conn = None
            }
            rep.sample(|| detail());
        }
    });
}

// ---------------------------------------------------------------- C10

fn decode(coding: &str, b: &[u8]) -> Result<Vec<u8>, String> {
    fn all<R: Read>(mut d: R) -> Result<Vec<u8>, String> {
        let mut v = vec![];
        d.read_to_end(&mut v).map(|_| v).map_err(|e| e.to_string())
    }
    let mut rest: &[u8] = b;
    let out = match coding {
        "gzip" => all(flate2::bufread::GzDecoder::new(&mut rest)),
        "zlib" => all(flate2::bufread::ZlibDecoder::new(&mut rest)),
        "deflate" => match all(flate2::bufread::DeflateDecoder::new(&mut rest)) {
            Ok(v) if rest.is_empty() => Ok(v),
            _ => {
                rest = b;
                all(flate2::bufread::ZlibDecoder::new(&mut rest))
            }
        },
        _ => Err(format!("unknown content coding {:?}", coding)),
    }?;
    if !rest.is_empty() {
        return Err(format!("{} bytes follow the {} stream", rest.len(), coding));
    }
    Ok(out)
}

fn encoded_len(coding: &str, b: &[u8]) -> usize {
    use flate2::Compression;
    let mut v = vec![];
    let l = Compression::default();
    match coding {
        "gzip" => flate2::bufread::GzEncoder::new(b, l).read_to_end(&mut v).unwrap(),
        "zlib" => flate2::bufread::ZlibEncoder::new(b, l).read_to_end(&mut v).unwrap(),
        _ => flate2::bufread::DeflateEncoder::new(b, l).read_to_end(&mut v).unwrap(),
    }
}

pub fn c10(rep: &'static Report) {
    if !servers(rep) {
        return;
    }
    let max = if rep.opts.thorough { 15000 } else { 2500 };
    let big = if rep.opts.thorough { 8 << 20 } else { 1 << 20 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let mut conns: [Option<Conn>; 2] = [None, None];
        if case % 8000 == 7 {
            let coding = *r.pick(&["gzip", "deflate", "zlib"]);
            return huge(rep, case, r, COMPRESSING.get().unwrap().port, Some(coding));
        }
        for _ in 0..r.range(2, 8) {
            if rep.violated() {
                return;
            }
            let on = r.chance(4, 5);
            let port = if on { COMPRESSING.get().unwrap().port } else { PLAIN.get().unwrap().port };
            // Accept-Encoding: codings, whitespace, case, weights
            let mut items: Vec<(String, &str)> = vec![];
            for _ in 0..r.below(6) {
                let name = *r.pick(&["gzip", "gzip", "deflate", "deflate", "zlib", "zlib", "br", "identity", "zstd", "compress", "gzipp", ""]);
                let w = if r.chance(1, 8) { *r.pick(&[";q=0", "; q=0", ";q=0.5", ";q=1.0"]) } else { "" };
                items.push((name.to_string(), if name.is_empty() { "" } else { w }));
            }
            let header: Option<String> = if items.is_empty() && r.chance(1, 2) {
                None
            } else {
                let mut s = String::new();
                for (i, (n, w)) in items.iter().enumerate() {
                    if i > 0 {
                        s += r.pick(&[",", ", ", " , ", ",\t"])
                    }
                    let n = if r.chance(1, 5) { n.to_uppercase() } else { n.clone() };
                    s += &n;
                    s += w;
                }
                Some(s)
            };
            let listed = |c: &str| items.iter().any(|(n, w)| n == c && !w.ends_with("q=0"));
            let weighted = items.iter().any(|(_, w)| !w.is_empty());
            let best = ["gzip", "deflate", "zlib"].iter().find(|c| listed(c)).cloned();
            // the body may be set several times: the last one counts
            let mut acts = vec![];
            let mut body: Vec<u8> = vec![];
            let slices = SLICES.get().unwrap();
            let mut plain_calls = 0;
            for _ in 0..r.range(1, 4) {
                match r.below(4) {
                    0 => {
                        let s = *r.pick(slices);
                        body = s.to_vec();
                        acts.push(if r.chance(1, 2) { Act::Slice(s) } else { Act::Slices(s, ContentType::TEXT_HTML) });
                    }
                    1 if plain_calls == 0 => {
                        plain_calls += 1;
                        acts.push(Act::Add("X-Other".into(), "1".into()));
                    }
                    _ => {
                        body = match r.below(3) {
                            0 => vec![r.u64() as u8; r.range(0, 5000)],
                            1 => {
                                let n = r.range(0, 60);
                                r.bytes(n)
                            }
                            _ => body_bytes(r, big),
                        };
                        acts.push(if r.chance(1, 2) { Act::Body(body.clone()) } else { Act::Bodies(body.clone(), ContentType::APPLICATION_JSON) });
                    }
                }
            }
            acts.push(Act::Respond);
            let id = srv::script(Script { acts: acts.clone(), ..Script::default() });
            let mut req = Req::new(*r.pick(&["GET", "POST", "PUT", "DELETE"]), "/r").h("X-Id", &id.to_string()).keep();
            if let Some(h) = &header {
                let name = *r.pick(&["Accept-Encoding", "Accept-Encoding", "accept-encoding", "ACCEPT-ENCODING"]);
                req = req.h(name, h);
            }
            let conn = &mut conns[on as usize];
            if conn.is_none() {
                match Conn::open(port) {
                    Ok(c) => *conn = Some(c),
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                }
            }
            let c = conn.as_mut().unwrap();
            c.send(&req.bytes());
            let res = c.response();
            let short: Vec<String> = acts.iter().map(|a| clip(&format!("{:?}", a), 80)).collect();
            let detail = || json!({"compression": on, "Accept-Encoding": header, "calls": short, "body_bytes": body.len(), "body": show(&body[..body.len().min(80)])});
            srv::take(id);
            let x = match res {
                Ok(x) => x,
                Err(e) => return rep.violation(case, format!("no well-formed answer: {:?}", e), detail()),
            };
            rep.count("responses", 1);
            rep.distinct(format!("{} {:?} {:?}", on, header, short).as_bytes());
            let ce = x.all("Content-Encoding");
            if ce.len() > 1 {
                return rep.violation(case, format!("Content-Encoding sent {} times: {:?}", ce.len(), ce), detail());
            }
            let verdict = match ce.get(0).map(|s| s.to_ascii_lowercase()) {
                None => {
                    rep.count("identity responses", 1);
                    if x.body != body {
                        Err(format!("response without Content-Encoding carries {} bytes that are not the body set ({} bytes): {}", x.body.len(), body.len(), show(&x.body[..x.body.len().min(60)])))
                    } else if on && !weighted && best.map(|c| encoded_len(c, &body) * 2 < body.len()).unwrap_or(false) {
                        Err(format!("a compressible body of {} bytes was not encoded although {:?} is listed", body.len(), best))
                    } else {
                        Ok(())
                    }
                }
                Some(coding) => {
                    rep.count(&format!("{} responses", coding), 1);
                    if !on {
                        Err(format!("compression is off, response is labelled {}", coding))
                    } else if !listed(&coding) {
                        Err(format!("response is encoded with {}, which the client did not list", coding))
                    } else if !weighted && best != Some(coding.as_str()) {
                        Err(format!("response is encoded with {}, preferred is {:?}", coding, best))
                    } else {
                        match decode(&coding, &x.body) {
                            Err(e) => Err(format!("the {} response does not decode: {}", coding, e)),
                            Ok(d) if d != body => Err(format!("the {} response decodes to {} bytes that differ from the {} bytes set", coding, d.len(), body.len())),
                            Ok(_) => Ok(()),
                        }
                    }
                }
            };
            if let Err(e) = verdict {
                return rep.violation(case, e, detail());
            }
            rep.sample(|| detail());
        }
    });
}

// ---------------------------------------------------------------- C15, response side

#[derive(Clone, Debug, Default, PartialEq)]
struct Line {
    name: String,
    value: String,
    path: Option<String>,
    domain: Option<String>,
    max_age: Option<String>,
    secure: bool,
    httponly: bool,
    same_site: Option<String>,
    /// seconds since the epoch on the wire; seconds from now when set
    expires: Option<i64>,
}

impl Line {
    fn cookie(&self, expires: Option<i64>) -> Cookie {
        let mut b = CookieBuilder::new();
        b.name_value(self.name.clone(), self.value.clone());
        if let Some(p) = &self.path {
            b.path(p.clone());
        }
        if let Some(d) = &self.domain {
            b.domain(d.clone());
        }
        if let Some(m) = &self.max_age {
            b.max_age(m.parse().unwrap());
        }
        b.secure(self.secure);
        b.httponly(self.httponly);
        match self.same_site.as_deref() {
            Some("None") => b.same_site(SameSite::None),
            Some("Strict") => b.same_site(SameSite::Strict),
            Some("Lax") => b.same_site(SameSite::Lax),
            _ => &mut b,
        };
        if let Some(e) = expires {
            b.expires(Time::from_secs(e));
        }
        b.build()
    }
}

fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

/// independent RFC 6265 reader of a Set-Cookie line
fn read_line(s: &str) -> Result<Line, String> {
    let mut it = s.split(';');
    let first = it.next().unwrap_or("").trim_matches(' ');
    let (n, v) = first.split_once('=').ok_or("no name=value pair")?;
    let mut l = Line { name: n.into(), value: v.into(), ..Line::default() };
    for a in it {
        let a = a.trim_matches(' ');
        let (k, v) = match a.split_once('=') {
            Some((k, v)) => (k, Some(v.to_string())),
            None => (a, None),
        };
        let twice = match k.to_ascii_lowercase().as_str() {
            "path" => l.path.replace(v.ok_or("Path without value")?).is_some(),
            "domain" => l.domain.replace(v.ok_or("Domain without value")?).is_some(),
            "max-age" => l.max_age.replace(v.ok_or("Max-Age without value")?).is_some(),
            "samesite" => l.same_site.replace(v.ok_or("SameSite without value")?).is_some(),
            "expires" => {
                let v = v.ok_or("Expires without value")?;
                let t = chrono::NaiveDateTime::parse_from_str(&v, "%a, %d %b %Y %H:%M:%S GMT").map_err(|e| format!("Expires {:?}: {}", v, e))?;
                if t.format("%a, %d %b %Y %H:%M:%S GMT").to_string() != v {
                    return Err(format!("Expires {:?} is not in the form of HTTP dates", v));
                }
                l.expires.replace(t.and_utc().timestamp()).is_some()
            }
            "secure" => std::mem::replace(&mut l.secure, true),
            "httponly" => std::mem::replace(&mut l.httponly, true),
            k => return Err(format!("attribute {:?} was never set", k)),
        };
        if twice {
            return Err(format!("attribute {:?} sent twice", k));
        }
    }
    Ok(l)
}

/// a cookie together with what was asked for
fn cookie_and_line(r: &mut Rng) -> (Cookie, Line) {
    let mut l = Line { name: cookie_name(r), value: cookie_value(r), ..Line::default() };
    if r.chance(1, 10) {
        l.value = format!("\"{}\"", l.value)
    }
    if r.chance(1, 2) {
        l.path = Some(if r.chance(1, 3) { cookie_path(r) } else { r.pick(&["/", "/a", "/a/b=c", "/x/y%20z", "/path,1", "/é", "/x y", "/a/", "/Dir/Sub//", "no/slash"]).to_string() })
    }
    if r.chance(1, 2) {
        l.domain = Some(if r.chance(1, 3) { cookie_domain(r) } else { r.pick(&["example.com", ".example.com", "localhost", "a.b.c.d", "xn--e1afmkfd.example", "Example.COM", "..x", "example.com.", "127.0.0.1"]).to_string() })
    }
    if r.chance(1, 2) {
        let m = match r.below(5) {
            0 => 0,
            1 => -1,
            2 => r.irange(i64::MIN, i64::MAX),
            _ => r.irange(1, 100000000),
        };
        l.max_age = Some(m.to_string())
    }
    l.secure = r.chance(1, 2);
    l.httponly = r.chance(1, 2);
    let max_age = l.max_age.as_ref().map(|m| m.parse::<isize>().unwrap());
    if r.chance(1, 4) {
        // constructor without SameSite
        return (Cookie::create(l.name.clone(), l.value.clone(), l.path.clone(), l.domain.clone(), None, max_age, l.secure, l.httponly), l);
    }
    if r.chance(1, 8) {
        let l = Line { name: l.name, value: l.value, ..Line::default() };
        return (Cookie::new(l.name.clone(), l.value.clone()), l);
    }
    let mut b = CookieBuilder::new();
    if r.chance(1, 3) {
        // a builder that was used before: the last call of each counts
        b.name_value(cookie_name(r), cookie_value(r)).secure(r.chance(1, 2)).httponly(r.chance(1, 2));
        if l.path.is_some() {
            b.path("/before".into());
        }
        if l.domain.is_some() {
            b.domain("before.example".into());
        }
        if max_age.is_some() {
            b.max_age(77);
        }
        let _ = b.build().to_string();
        b.secure(l.secure).httponly(l.httponly);
    }
    b.name_value(l.name.clone(), l.value.clone());
    let mut order = vec![0, 1, 2, 3, 4, 5, 6];
    r.shuffle(&mut order);
    for o in order {
        match o {
            6 => {
                if r.chance(1, 4) {
                    let e = *r.pick(&[0, 1, 59, 3600, 86400, 31536000, -1, -86400, 63072000000]);
                    l.expires = Some(e);
                    b.expires(Time::from_secs(e));
                }
            }
            0 => {
                if let Some(p) = &l.path {
                    b.path(p.clone());
                }
            }
            1 => {
                if let Some(d) = &l.domain {
                    b.domain(d.clone());
                }
            }
            2 => {
                if let Some(m) = max_age {
                    b.max_age(m);
                }
            }
            3 => {
                b.secure(l.secure);
            }
            4 => {
                b.httponly(l.httponly);
            }
            _ => {
                if r.chance(2, 3) {
                    let (s, t) = match r.below(3) {
                        0 => (SameSite::None, "None"),
                        1 => (SameSite::Strict, "Strict"),
                        _ => (SameSite::Lax, "Lax"),
                    };
                    b.same_site(s);
                    l.same_site = Some(t.into());
                }
            }
        }
    }
    (b.build(), l)
}

pub fn c15(rep: &'static Report) {
    let port = match cookie_server(rep) {
        Some(p) => p,
        None => return,
    };
    let max = if rep.opts.thorough { 60000 } else { 4000 };
    run_cases(rep, 3, max, move |rep, case, r| {
        if r.chance(1, 2) {
            return cookies_in(rep, case, r, port);
        }
        let n = if r.chance(1, 8) { r.range(0, 30) } else { r.range(1, 5) };
        let made: Vec<(Cookie, Line)> = (0..n).map(|_| cookie_and_line(r)).collect();
        let detail = || json!({"cookies": made.iter().map(|(c, _)| clip(&c.to_string(), 300)).collect::<Vec<_>>()});
        rep.count("response cookies", n as u64);
        rep.distinct(format!("{:?}", made.iter().map(|(c, _)| c.to_string()).collect::<Vec<_>>()).as_bytes());
        let cookies: Vec<Cookie> = made.iter().map(|(c, _)| c.clone()).collect();
        let begun = now();
        // what was serialised with a time relative to now comes back as that moment
        let same = |got: &[Cookie]| {
            got.len() == made.len()
                && got.iter().zip(&made).all(|(g, (c, l))| match l.expires {
                    None => g == c,
                    Some(e) => (begun - 1..=now() + 1).any(|t| *g == l.cookie(Some(t + e))),
                })
        };
        // library only
        let back = guarded(|| {
            let mut x = Response::success();
            for c in &cookies {
                x.add_set_cookie(c.clone());
            }
            x.read_set_cookies()
        });
        match back {
            Ok(Ok(v)) if same(&v) => {}
            Ok(Ok(v)) => return rep.violation(case, format!("read_set_cookies returns {}", clip(&format!("{:?}", v), 800)), detail()),
            Ok(Err(e)) => return rep.violation(case, format!("read_set_cookies fails: {}", e), detail()),
            Err(p) => return rep.violation(case, p, detail()),
        }
        // over the wire, read by an independent reader
        let mut acts: Vec<Act> = cookies.iter().map(|c| Act::Cookie(c.clone())).collect();
        acts.push(Act::Body(b"ok".to_vec()));
        acts.push(Act::Respond);
        let id = srv::script(Script { acts, ..Script::default() });
        let mut link = match POOL.lock().unwrap_or_else(|e| e.into_inner()).pop() {
            Some(l) => l,
            None => Link::new(port),
        };
        let x = match link.exchange(&Req::new("GET", "/c").h("X-Id", &id.to_string()).keep().bytes(), &Plan::whole()) {
            Ok(x) => x,
            Err(e) => return rep.violation(case, format!("no well-formed answer: {:?}", e), detail()),
        };
        let lines = x.all("Set-Cookie");
        if lines.len() != n {
            return rep.violation(case, format!("{} cookies were added, {} Set-Cookie lines were sent", n, lines.len()), detail());
        }
        for (line, (_, want)) in lines.iter().zip(&made) {
            match read_line(line) {
                Ok(l) if (Line { expires: want.expires, ..l.clone() }) == *want && (l.expires.is_some() == want.expires.is_some()) && l.expires.map(|e| (begun - 1..=now() + 1).contains(&(e - want.expires.unwrap()))).unwrap_or(true) => {}
                Ok(l) => return rep.violation(case, format!("Set-Cookie line {:?} says {:?}, set was {:?}", clip(line, 300), l, want), detail()),
                Err(e) => return rep.violation(case, format!("Set-Cookie line {:?}: {}", clip(line, 300), e), detail()),
            }
        }
        srv::take(id);
        POOL.lock().unwrap_or_else(|e| e.into_inner()).push(link);
        // and by the library's own client
        if r.chance(1, 3) {
            let lines = lines.clone();
            let mut t = String::from("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n");
            for l in lines {
                t += &format!("Set-Cookie: {}\r\n", l)
            }
            let peer = match Peer::local(r, Reply::of((t + "\r\n").into_bytes())) {
                Ok(p) => p,
                Err(e) => return rep.inconclusive(format!("bind: {}", e)),
            };
            let got = guarded(|| crate::inject::disturbed(|| HttpClient::get(&format!("http://{}/", peer.addr))).and_then(|x| x.read_set_cookies()));
            peer.done();
            rep.count("read back by HttpClient", 1);
            match got {
                Ok(Ok(v)) if same(&v) => {}
                Ok(Ok(v)) => return rep.violation(case, format!("the client reads {}", clip(&format!("{:?}", v), 800)), detail()),
                Ok(Err(e)) => return rep.violation(case, format!("the client fails: {}", e), detail()),
                Err(p) => return rep.violation(case, p, detail()),
            }
        }
        rep.sample(|| detail());
    });
}
