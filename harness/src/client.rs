//! C13, C14: the library's client against scripted servers.

use std::collections::BTreeMap;
use std::net::IpAddr;
use std::time::{Duration, Instant};

use serde_json::json;
use starry::header::cookie::SameSite;
use starry::header::{Cookie, CookieBuilder};
use starry::utils::Time;
use starry::{HttpClient, Response};

use crate::inject::disturbed;
use crate::peer::{End, Peer, Reply};
use crate::raw::{find, hot_spots, Plan};
use crate::report::{clip, guarded, run_cases, show, Report};
use crate::request::{any_case, b64, cookie_name, cookie_value};
use crate::respond::{cookie_domain, cookie_path, CODES};
use crate::rng::Rng;

/// what the client reports about a response; status and headers only through the observation hook
#[derive(Debug, PartialEq, Clone)]
struct Got {
    status: Option<u16>,
    version: Option<String>,
    headers: Option<BTreeMap<String, Vec<String>>>,
    body: Vec<u8>,
    cookies: Result<Vec<starry::header::Cookie>, String>,
}

#[cfg(starry_verif)]
fn look(mut x: Response) -> Got {
    Got {
        status: Some(x.verif_status()),
        version: Some(x.verif_version()),
        headers: Some(x.verif_header().map().into_iter().collect()),
        cookies: x.read_set_cookies().map_err(|e| e.to_string()),
        body: x.body(),
    }
}

#[cfg(not(starry_verif))]
fn look(mut x: Response) -> Got {
    Got { status: None, version: None, headers: None, cookies: x.read_set_cookies().map_err(|e| e.to_string()), body: x.body() }
}

fn token(r: &mut Rng) -> String {
    let n = r.range(1, 14);
    (0..n).map(|_| *r.pick(b"abcdefghXYZ0189-_.!#$%&'*+^`|~") as char).collect()
}

fn value(r: &mut Rng) -> String {
    let s: String = match r.below(6) {
        0 => String::new(),
        1 => r.pick(&[":", "a:b", "a: b", "x=1; y=2", "\"q\"", "http://h:80/p?q#f", "Mon, 01 Jan 2024 00:00:00 GMT", "naïve 漢", "a  b\tc"]).to_string(),
        2 => {
            let most = if r.chance(1, 60) { 100_000 } else { 3000 };
            let n = r.range(0, most);
            (0..n).map(|_| (b'!' + r.below(94) as u8) as char).collect()
        }
        _ => {
            let n = r.range(0, 30);
            r.string(&['a', 'b', ' ', ':', ';', ',', '=', '/', '"', '\\', '%', '0', '9', '\t', 'é', '\u{a0}', '\u{3000}', '\u{85}', '\u{2028}', '\u{feff}'], 0, n)
        }
    };
    s.trim_matches(|c| c == ' ' || c == '\t').to_string()
}

const OWS: [&str; 6] = [" ", " ", " ", "", "  ", "\t"];

struct Made {
    bytes: Vec<u8>,
    head: usize,
    code: u16,
    version: &'static str,
    headers: BTreeMap<String, Vec<String>>,
    cookies: Vec<Cookie>,
    /// the names of the Set-Cookie lines differ in case
    mixed: bool,
    body: Vec<u8>,
    declared: bool,
}

/// a Set-Cookie line and the cookie it stands for
fn set_cookie(r: &mut Rng) -> (String, Cookie) {
    let (k, v) = (cookie_name(r), cookie_value(r));
    let mut line = format!("{}={}", k, v);
    let mut b = CookieBuilder::new();
    b.name_value(k, v);
    let mut order = vec![0, 1, 2, 3, 4, 5, 6, 7];
    r.shuffle(&mut order);
    order.truncate(*r.pick(&[0usize, 1, 2, 4, 8]));
    let all = order.clone();
    for o in order {
        let (k, v) = match o {
            0 => {
                let p = if r.chance(1, 3) { cookie_path(r) } else { r.pick(&["/", "/a", "/a/b=c", "/x/y%20z", "/a/", "/Dir/Sub//", "no/slash"]).to_string() };
                b.path(p.clone());
                ("Path", Some(p))
            }
            1 => {
                let d = if r.chance(1, 3) { cookie_domain(r) } else { r.pick(&["example.com", ".example.com", "localhost", "Example.COM", "example.com.", "127.0.0.1"]).to_string() };
                b.domain(d.clone());
                ("Domain", Some(d))
            }
            2 => {
                let m = if r.chance(1, 2) { r.irange(-1, 5) } else { r.irange(1, 1_000_000_000_000) };
                b.max_age(m as isize);
                ("Max-Age", Some(m.to_string()))
            }
            3 => {
                b.secure(true);
                ("Secure", None)
            }
            4 => {
                b.httponly(true);
                ("HttpOnly", None)
            }
            5 => {
                let (s, t) = match r.below(3) {
                    0 => (SameSite::None, "None"),
                    1 => (SameSite::Strict, "Strict"),
                    _ => (SameSite::Lax, "Lax"),
                };
                b.same_site(s);
                ("SameSite", Some(any_case(r, t)))
            }
            6 => {
                // 1601 to 9999
                let t = match r.below(4) {
                    0 => 0,
                    1 => *r.pick(&[253402300799i64, -11644473600, 9223372036, 9223372037, -1, 4102444800, 951782400]),
                    2 => r.irange(0, 4102444800),
                    _ => r.irange(-11644473600, 253402300799),
                };
                b.expires(Time::from_secs(t));
                ("Expires", Some(chrono::DateTime::from_timestamp(t, 0).unwrap().format("%a, %d %b %Y %H:%M:%S GMT").to_string()))
            }
            _ => {
                // an attribute that says nothing
                let bare: Vec<&str> = [(0, "Path"), (1, "Domain"), (2, "Max-Age"), (5, "SameSite"), (6, "Expires")].iter().filter(|b| !all.contains(&b.0)).map(|b| b.1).collect();
                if bare.is_empty() || r.chance(1, 2) {
                    ("Priority", Some("High".into()))
                } else {
                    (*r.pick(&bare), None)
                }
            }
        };
        let k = if r.chance(1, 3) { any_case(r, k) } else { k.to_string() };
        line += *r.pick(&["; ", "; ", ";", ";  "]);
        line += &k;
        if let Some(v) = v {
            line += "=";
            line += &v
        }
    }
    (line, b.build())
}

/// a well-formed final response
fn response(r: &mut Rng, big: usize, huge: bool) -> Made {
    let code = if huge { 200 } else { *r.pick(&CODES) };
    let version = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
    let phrase = match r.below(4) {
        0 => String::new(),
        1 => "Some other reason: with 200 text".to_string(),
        2 => "OK".to_string(),
        _ => "I'm   spaced  ".to_string(),
    };
    let empty = [204u16, 205, 304].contains(&code);
    let body = if empty {
        vec![]
    } else {
        let n = if huge { r.range(9 << 20, 40 << 20) } else if r.chance(1, 20) { r.range(0, big) } else { r.size(20000) };
        match if huge { 9 } else { r.below(5) } {
            9 => {
                let unit = r.bytes(1009);
                unit.iter().cycle().take(n).cloned().collect()
            }
            0 if n > 0 => {
                let mut v = vec![];
                while v.len() < n {
                    v.extend_from_slice(r.pick(&["\r\n\r\n", "HTTP/1.1 200 OK\r\n", "Content-Length: 3\r\n", "\n\n", "\r", "\n", "x"]).as_bytes())
                }
                v.truncate(n);
                v
            }
            _ => r.blob(n),
        }
    };
    let declared = r.chance(2, 3);
    // (name, value) lines in order
    let mut lines: Vec<(String, String)> = vec![];
    let n = match r.below(8) {
        0 => 0,
        1 => r.range(10, 80),
        _ => r.range(1, 8),
    };
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let name = if !names.is_empty() && r.chance(1, 3) {
            r.pick(&names).clone()
        } else {
            let t = match r.below(3) {
                0 => r.pick(&["X-A", "Server", "Date", "Vary", "ETag", "Location", "Connection", "Cache-Control", "x-lower", "Content-Type", "Cookie", "cookie", "Authorization", "Host", "Accept-Encoding", "Upgrade"]).to_string(),
                _ => token(r),
            };
            // names that differ in case only would be one header; Content-Length and Set-Cookie are made below
            if names.iter().any(|k| k.eq_ignore_ascii_case(&t)) || ["content-length", "set-cookie", "transfer-encoding"].contains(&t.to_ascii_lowercase().as_str()) {
                continue;
            }
            names.push(t.clone());
            t
        };
        lines.push((name, value(r)));
    }
    if r.chance(1, 1500) {
        // one header in very many lines
        for i in 0..r.range(30_000, 120_000) {
            lines.push(("X-Many".into(), if i % 3 == 0 { i.to_string() } else { String::new() }))
        }
    }
    let mut cookies = vec![];
    let mut mixed = false;
    if r.chance(1, 3) {
        let mut name = any_case(r, "Set-Cookie");
        let mut at = 0;
        let most = if r.chance(1, 30) { 300 } else { 4 };
        // lines of one response whose names differ in case
        mixed = r.chance(1, 10);
        for _ in 0..r.range(1, most) {
            let (line, c) = set_cookie(r);
            if mixed {
                name = any_case(r, "Set-Cookie")
            }
            // their order is the order of their lines
            at = r.range(at, lines.len());
            lines.insert(at, (name.clone(), line));
            at += 1;
            cookies.push(c);
        }
    }
    if declared {
        let at = r.below(lines.len() + 1);
        let name = any_case(r, "Content-Length");
        // a 304 may say how long the body would have been
        let len = if code == 304 && r.chance(2, 3) { r.range(1, 90_000) } else { body.len() };
        lines.insert(at, (name, len.to_string()));
    }
    let mut b = format!("{} {} {}\r\n", version, code, phrase).into_bytes();
    let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in &lines {
        headers.entry(k.clone()).or_default().push(v.clone());
        b.extend_from_slice(format!("{}:{}{}{}\r\n", k, r.pick(&OWS), v, r.pick(&["", "", "", "", " ", "\t "])).as_bytes());
    }
    b.extend_from_slice(b"\r\n");
    let head = b.len();
    b.extend_from_slice(&body);
    Made { bytes: b, head, code, version, headers, cookies, mixed, body, declared }
}

enum Expect {
    /// exactly this response
    Same,
    /// Err
    Refused(&'static str),
    /// no panic, no hang; a declared body is never short
    Survives,
    /// exactly this response, or Err
    Either,
}

pub fn c13(rep: &'static Report) {
    let max = if rep.opts.thorough { 200000 } else { 6000 };
    let big = if rep.opts.thorough { 16 << 20 } else { 2 << 20 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let huge = case % 8000 == 7;
        if huge {
            rep.count("responses of many MiB", 1)
        }
        let m = response(r, big, huge);
        let mut bytes = m.bytes.clone();
        let mut end = End::Close;
        let mut linger = 0;
        let mut eager = false;
        // does it say itself where it ends?
        let bounded = m.declared || matches!(m.code, 204 | 304);
        let expect = match r.below(12) {
            0..=5 => {
                if bounded && r.chance(1, 3) {
                    end = End::Open;
                    rep.count("responses on connections the server keeps open", 1)
                }
                Expect::Same
            }
            _ if case % 4000 == 6 || huge => Expect::Same,
            6 => {
                // cut off inside the head, or inside a declared body
                let limit = if m.declared { bytes.len() } else { m.head };
                let cut = if r.chance(1, 4) { *r.pick(&hot_spots(&bytes)) } else { r.below(limit) };
                let cut = cut.min(limit - 1);
                bytes.truncate(cut);
                if r.chance(1, 4) {
                    end = End::Reset
                }
                Expect::Refused("truncated")
            }
            7 => {
                end = End::Reset;
                linger = r.below(3) as u64;
                if r.chance(1, 2) {
                    let cut = r.below(bytes.len() + 1);
                    bytes.truncate(cut);
                }
                // an undeclared body ends with the connection closing; a reset is no end
                if bounded && bytes.len() == m.bytes.len() {
                    Expect::Either
                } else {
                    Expect::Refused("reset before the end")
                }
            }
            8 => {
                // the status line
                let bad = [
                    "", " ", "\r\n", "200 OK", "HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 20 OK", "HTTP/1.1 2000 OK", "HTTP/1.1 abc OK", "HTTP/1.1 -20 OK", "HTTP/1.1 +20 OK", "HTTP/1.1 +200 OK", "HTTP/1.1 0200 OK", "HTTP/1.1 00200 OK", "HTTP/1.1 200.0 OK", "HTTP/1.1  200 OK", "HTTX/1.1 200 OK", "HTTP/9.9 200 OK",
                    "HTTP/1 200 OK", "HTTP/1.1. 200 OK", "HTTP 200 OK", "ICY 200 OK", "HTTP/1.1 2\u{661}0 OK", "HTTP/1.1 0x1 OK", "garbage", "HTTP/1.1\t200 OK",
                ];
                let line = r.pick(&bad).to_string();
                let at = find(&bytes, b"\r\n").unwrap();
                bytes.splice(..at, line.into_bytes());
                Expect::Refused("malformed status line")
            }
            9 => {
                let at = find(&bytes, b"\r\n").unwrap() + 2;
                match r.below(2) {
                    0 => {
                        let line = *r.pick(&["no colon here\r\n", "x\r\n", "HTTP/1.1 200 OK\r\n", "=\r\n"]);
                        bytes.splice(at..at, line.bytes());
                        Expect::Refused("header line without a colon")
                    }
                    _ if !m.declared => {
                        let v = *r.pick(&["abc", "", "1 2", "-5", "0x10", "1e3", "5,5", "99999999999999999999999", "12abc", "٣", "1.0", "--1"]);
                        bytes.splice(at..at, format!("Content-Length: {}\r\n", v).bytes());
                        Expect::Refused("invalid Content-Length")
                    }
                    _ => Expect::Same,
                }
            }
            10 => {
                // more bytes than declared
                if m.declared {
                    let n = r.range(1, 3000);
                    let extra = r.blob(n);
                    bytes.extend_from_slice(&extra);
                    if r.chance(1, 3) {
                        end = End::Open
                    }
                    Expect::Same
                } else {
                    bytes.clear();
                    end = if r.chance(1, 2) { End::Reset } else { End::Close };
                    Expect::Refused("no response")
                }
            }
            _ => {
                // random damage
                match r.below(3) {
                    0 => {
                        let n = r.range(1, 4);
                        for _ in 0..n {
                            let at = r.below(m.head);
                            bytes[at] = r.u64() as u8
                        }
                    }
                    1 => {
                        let n = r.size(4000);
                        bytes = r.blob(n);
                        eager = r.chance(1, 3);
                    }
                    _ => {
                        let at = r.below(m.head);
                        let n = r.range(1, 20);
                        let ins = r.bytes(n);
                        bytes.splice(at..at, ins);
                    }
                }
                Expect::Survives
            }
        };
        let mut plan = if huge { Plan { cuts: vec![(m.head + 5_000_000, 30_000)] } } else { Plan::random(r, bytes.len(), &hot_spots(&bytes[..bytes.len().min(m.head + 2)])) };
        if r.chance(1, 12) && !plan.cuts.is_empty() {
            // a stall in the middle
            let i = r.below(plan.cuts.len());
            plan.cuts[i].1 = r.range(20_000, 120_000) as u64
        }
        if (6..12).contains(&case) && m.bytes == bytes && end == End::Close {
            // a server that takes its time, before its answer, within the head or within the body
            let at = *r.pick(&[0, 1, m.head - 3, m.head, bytes.len() - 1]);
            plan = Plan { cuts: vec![(at, 31_500_000)] };
            rep.count("responses with pauses of half a minute", 1);
        }
        let cuts = plan.describe();
        let peer = match Peer::local(r, Reply { bytes: bytes.clone(), plan, end: end.clone(), linger_ms: linger, eager }) {
            Ok(p) => p,
            Err(e) => return rep.inconclusive(format!("bind: {}", e)),
        };
        let url = format!("http://{}/x?a=b", peer.addr);
        let got = guarded(|| disturbed(|| HttpClient::get(&url)).map(look));
        let heard = peer.done();
        let what = match expect {
            Expect::Same => "well-formed",
            Expect::Refused(w) => w,
            Expect::Survives => "damaged",
            Expect::Either => "well-formed, then a reset",
        };
        let detail = || json!({"class": what, "response": show(&bytes[..bytes.len().min(m.head + 60)]), "bytes": bytes.len(), "segments": cuts, "end": format!("{:?}", end)});
        rep.count(&format!("responses: {}", what), 1);
        rep.count("response bytes", bytes.len() as u64);
        rep.distinct(&[&bytes[..bytes.len().min(6000)], cuts.as_bytes()].concat());
        rep.sample(|| detail());
        let got = match got {
            Err(p) => return rep.violation(case, format!("HttpClient::get panicked: {}", p), detail()),
            Ok(g) => g,
        };
        if !eager && heard.conns.len() != 1 {
            return rep.violation(case, format!("the client opened {} connections", heard.conns.len()), detail());
        }
        if heard.waiting {
            return rep.violation(case, "the response was complete, but the client waited for the connection to close, for 20 s".into(), detail());
        }
        match (expect, got) {
            (Expect::Same | Expect::Either, Ok(g)) => {
                if g.status.map(|s| s != m.code).unwrap_or(false) || g.version.as_ref().map(|v| v != m.version).unwrap_or(false) {
                    return rep.violation(case, format!("status {:?} {:?}, sent were {} {}", g.version, g.status, m.version, m.code), detail());
                }
                if g.body != m.body {
                    let at = g.body.iter().zip(&m.body).position(|(a, b)| a != b);
                    return rep.violation(case, format!("body of {} bytes was returned as {} bytes, first difference at {:?}", m.body.len(), g.body.len(), at), detail());
                }
                if let Some(h) = &g.headers {
                    if *h != m.headers {
                        return rep.violation(case, format!("headers returned {}, sent were {}", clip(&format!("{:?}", h), 900), clip(&format!("{:?}", m.headers), 900)), detail());
                    }
                }
                match &g.cookies {
                    Ok(c) => {
                        let sorted = |c: &[Cookie]| {
                            let mut v: Vec<String> = c.iter().map(|c| format!("{:?}", c)).collect();
                            v.sort();
                            v
                        };
                        // there is no order between lines whose names differ
                        if if m.mixed { sorted(c) != sorted(&m.cookies) } else { *c != m.cookies } {
                            return rep.violation(case, format!("cookies returned {}, sent were {}", clip(&format!("{:?}", c), 600), clip(&format!("{:?}", m.cookies), 600)), detail());
                        }
                    }
                    Err(e) => return rep.violation(case, format!("read_set_cookies fails: {}", e), detail()),
                }
                rep.count("responses returned and equal", 1);
            }
            (Expect::Same, Err(e)) => {
                if !heard.errors.is_empty() || !heard.delivered {
                    return rep.inconclusive(format!("the scripted server could not deliver: {:?}", heard.errors));
                }
                rep.violation(case, format!("a well-formed response is refused: {}", e), detail())
            }
            (Expect::Refused(w), Ok(g)) => rep.violation(case, format!("a bad response ({}) is returned as Ok with status {:?} and {} body bytes", w, g.status, g.body.len()), detail()),
            (Expect::Either, Err(_)) => rep.count("refused after a reset", 1),
            (Expect::Refused(_), Err(_)) => rep.count("refused", 1),
            (Expect::Survives, g) => rep.count(if g.is_ok() { "damaged: Ok" } else { "damaged: Err" }, 1),
        }
    });
}

// ---------------------------------------------------------------- C14

fn seg(r: &mut Rng, alphabet: &[u8], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let alphabet: Vec<char> = alphabet.iter().map(|b| *b as char).collect();
    r.string(&alphabet, n, n)
}

const PCHAR: &[u8] = b"abcXYZ019-._~!$&'()*+,;=:@%";
const QCHAR: &[u8] = b"abcXYZ019-._~!$'()*+,;:@/?%";
const USER: &[u8] = b"abcXYZ019-._~!$&'()*+,;=";

struct Target {
    path: String,
    query: BTreeMap<String, String>,
    fragment: Option<String>,
    text: String,
}

fn target(r: &mut Rng) -> Target {
    let mut text = String::new();
    let path = match r.below(8) {
        0 => String::new(),
        1 => "/".into(),
        _ => {
            let mut p = String::new();
            for _ in 0..r.range(1, 6) {
                p.push('/');
                p += &if r.chance(1, 8) { String::new() } else if r.chance(1, 10) { r.pick(&["http:", "..", ".", "a@b:80", "user:pw@host", "%2F", "http", "x:y"]).to_string() } else { seg(r, PCHAR, 1, 10) };
            }
            if r.chance(1, 12) {
                p += &format!("/{}", seg(r, b"abc/", 500, 3000))
            }
            p
        }
    };
    text += &path;
    let mut query = BTreeMap::new();
    if r.chance(1, 2) {
        text.push('?');
        let n = match r.below(5) {
            0 => 0,
            1 => r.range(5, 30),
            _ => r.range(1, 4),
        };
        let mut items = vec![];
        for _ in 0..n {
            let k = seg(r, QCHAR, 1, 8);
            if query.contains_key(&k) {
                continue;
            }
            let v = match r.below(5) {
                0 => String::new(),
                1 => format!("{}={}", seg(r, QCHAR, 0, 5), seg(r, QCHAR, 0, 5)),
                _ => seg(r, QCHAR, 1, 12),
            };
            items.push(if v.is_empty() && r.chance(1, 2) { k.clone() } else { format!("{}={}", k, v) });
            query.insert(k, v);
        }
        text += &items.join("&");
    }
    let mut fragment = None;
    if r.chance(1, 4) {
        let f = if r.chance(1, 4) { "a?b=c&d#e".to_string() } else { seg(r, QCHAR, 0, 10) };
        text += &format!("#{}", f);
        fragment = Some(f)
    }
    Target { path: if path.is_empty() { "/".into() } else { path }, query, fragment, text }
}

/// checks that the bytes are one well-formed request saying what the URL says
fn check_request(b: &[u8], host: &str, port: u16, t: &Target, user: &Option<(String, String)>) -> Result<(), String> {
    let end = find(b, b"\r\n\r\n").ok_or("no complete request head was sent")?;
    if b.len() != end + 4 {
        return Err(format!("{} bytes follow the request head", b.len() - end - 4));
    }
    let head = std::str::from_utf8(&b[..end]).map_err(|_| "head is not UTF-8")?;
    let mut lines = head.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
    if first.len() != 3 || first[0] != "GET" || !["HTTP/1.0", "HTTP/1.1"].contains(&first[2]) {
        return Err(format!("request line {:?}", first));
    }
    let mut headers: Vec<(String, String)> = vec![];
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("header line {:?}", l))?;
        if k.is_empty() || k.contains(|c: char| c.is_whitespace()) || l.contains('\n') {
            return Err(format!("header line {:?}", l));
        }
        headers.push((k.to_ascii_lowercase(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    let all = |n: &str| headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect::<Vec<_>>();
    let hosts = all("host");
    let named = [host.to_string(), format!("{}:{}", host, port)];
    if hosts.len() != 1 || !(hosts[0] == named[1] || (hosts[0] == named[0] && port == 80)) {
        return Err(format!("Host headers {:?}, the URL names {:?}", hosts, named));
    }
    let auth = all("authorization");
    let want: Vec<String> = user.iter().map(|(u, p)| format!("Basic {}", b64(format!("{}:{}", u, p).as_bytes()))).collect();
    if auth != want {
        return Err(format!("Authorization {:?}, expected {:?}", auth, want));
    }
    let te = [all("transfer-encoding"), all("content-length")].concat();
    if te.iter().any(|v| v != "0") {
        return Err(format!("a body is announced: {:?}", te));
    }
    let tg = first[1];
    if tg.contains('#') {
        return Err(format!("the target {:?} contains a fragment", tg));
    }
    let (path, q) = match tg.split_once('?') {
        Some((p, q)) => (p, q),
        None => (tg, ""),
    };
    if path != t.path {
        return Err(format!("path {:?}, the URL says {:?}", clip(path, 300), clip(&t.path, 300)));
    }
    let mut pairs = BTreeMap::new();
    for i in q.split('&').filter(|i| !i.is_empty()) {
        let (k, v) = i.split_once('=').unwrap_or((i, ""));
        if pairs.insert(k.to_string(), v.to_string()).is_some() {
            return Err(format!("query key {:?} is sent twice", k));
        }
    }
    if pairs != t.query {
        return Err(format!("query {:?}, the URL says {:?}", clip(&format!("{:?}", pairs), 500), clip(&format!("{:?}", t.query), 500)));
    }
    Ok(())
}

pub fn c14(rep: &'static Report) {
    let max = if rep.opts.thorough { 100000 } else { 20000 };
    // port 80 of an address of our own
    let own: IpAddr = [127, 80, (std::process::id() % 250) as u8 + 1, rep.opts.shard as u8 + 1].into();
    run_cases(rep, 4, max, move |rep, case, r| {
        if r.chance(1, 5) {
            return malformed(rep, case, r);
        }
        if r.chance(1, 8) {
            return parsed(rep, case, r);
        }
        let default_port = r.chance(1, 5);
        let ok = Reply { linger_ms: 0, plan: Plan::random(r, 40, &[]), ..Reply::of(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec()) };
        let (ip, name): (IpAddr, String) = if default_port {
            // one address per case, so that cases do not collide on port 80
            let o = match own {
                IpAddr::V4(a) => a.octets(),
                _ => unreachable!(),
            };
            let ip: IpAddr = [o[0], o[1] + (case % 100) as u8, o[2], o[3]].into();
            (ip, ip.to_string())
        } else {
            match r.below(30) {
                0 => ([127, 0, 0, 1].into(), "localhost".into()),
                1 => ([127, 0, 0, 1].into(), "127.0.0.1".into()),
                _ => {
                    let ip: IpAddr = [127, r.below(70) as u8, r.below(250) as u8, r.range(2, 250) as u8].into();
                    (ip, ip.to_string())
                }
            }
        };
        let peer = match Peer::start(ip, if default_port { 80 } else { 0 }, ok) {
            Ok(p) => p,
            Err(_) if default_port => return rep.count("port 80 not available", 1),
            Err(e) if e.contains("in use") => return rep.count("no free port", 1),
            Err(e) => return rep.inconclusive(format!("bind {}: {}", ip, e)),
        };
        let port = peer.addr.port();
        let user = if r.chance(1, 3) {
            let u = if r.chance(1, 6) { r.pick(&["http", "https", "http//", "user"]).trim_end_matches('/').to_string() } else { seg(r, USER, 1, 12) };
            let p = match r.below(5) {
                0 => String::new(),
                1 => format!("{}:{}", seg(r, USER, 0, 5), seg(r, USER, 0, 5)),
                _ => seg(r, USER, 1, 20),
            };
            Some((u, p))
        } else {
            None
        };
        let t = target(r);
        let scheme = if r.chance(2, 3) { "http://" } else { "" };
        let mut url = scheme.to_string();
        if let Some((u, p)) = &user {
            url += &format!("{}:{}@", u, p)
        }
        url += &name;
        if !default_port || r.chance(1, 3) {
            url += &format!(":{}", port)
        }
        url += &t.text;
        let detail = || json!({"url": clip(&url, 800), "server": peer_text(ip, port)});
        let got = guarded(|| disturbed(|| HttpClient::get(&url)).map(look));
        let heard = peer.done();
        rep.count("urls", 1);
        if default_port {
            rep.count("urls without or with default port", 1)
        }
        if user.is_some() {
            rep.count("urls with user info", 1)
        }
        rep.distinct(format!("{}{:?}{}{}", scheme, user, default_port, t.text).as_bytes());
        rep.sample(|| detail());
        let got = match got {
            Err(p) => return rep.violation(case, format!("HttpClient::get panicked: {}", p), detail()),
            Ok(g) => g,
        };
        if !heard.errors.is_empty() && !heard.conns.is_empty() && find(&heard.conns[0], b"\r\n\r\n").is_none() {
            return rep.violation(case, format!("the client did not send a complete request: {:?}", heard.errors), detail());
        }
        if heard.conns.len() != 1 {
            return rep.violation(case, format!("{} connections arrived at the host and port of the URL; the call returned {:?}", heard.conns.len(), got.as_ref().map(|g| g.status).map_err(|e| e.to_string())), detail());
        }
        if let Err(e) = check_request(&heard.conns[0], &name, port, &t, &user) {
            return rep.violation(case, format!("{}; sent was {}", e, show(&heard.conns[0])), detail());
        }
        match got {
            Ok(g) if g.body == b"ok" => {}
            Ok(g) => rep.violation(case, format!("the response body is {}", show(&g.body)), detail()),
            Err(e) => rep.violation(case, format!("the response is refused: {}", e), detail()),
        }
    });
}

/// the parts of many URLs, without a connection
#[cfg(starry_verif)]
fn parsed(rep: &Report, case: u64, r: &mut Rng) {
    for _ in 0..150 {
        let t = target(r);
        let scheme = *r.pick(&["", "http://", "http://", "https://"]);
        let user = if r.chance(1, 3) {
            let u = if r.chance(1, 6) { r.pick(&["http", "https", "u", "user"]).to_string() } else { seg(r, USER, 1, 12) };
            let p = match r.below(4) {
                0 => String::new(),
                1 => format!("{}:{}", seg(r, USER, 0, 5), seg(r, USER, 0, 5)),
                _ => seg(r, USER, 1, 40),
            };
            Some((u, p))
        } else {
            None
        };
        let host = match r.below(6) {
            0 => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256)),
            1 => r.pick(&["http", "https", "localhost", "h", "a-b.example.com", "xn--e1afmkfd.example"]).to_string(),
            2 => seg(r, b"abc.-019XYZ", 200, 250),
            _ => seg(r, b"abc.-019XYZ_", 1, 30),
        };
        let port = match r.below(6) {
            0 | 1 => None,
            2 => Some(*r.pick(&[1u16, 2, 79, 80, 81, 255, 256, 443, 8080, 32767, 32768, 65534, 65535])),
            _ => Some(r.range(1, 65535) as u16),
        };
        let url = format!("{}{}{}{}{}", scheme, user.as_ref().map(|(u, p)| format!("{}:{}@", u, p)).unwrap_or_default(), host, port.map(|p| format!(":{}", p)).unwrap_or_default(), t.text);
        rep.eval();
        rep.count("urls taken apart", 1);
        rep.distinct(url.as_bytes());
        let detail = || json!({"url": clip(&url, 2000)});
        let got = match guarded(|| starry::verif::url(&url)) {
            Err(p) => return rep.violation(case, format!("parsing a URL panicked: {}", p), detail()),
            Ok(Err(e)) => return rep.violation(case, format!("a URL is refused: {}", e), detail()),
            Ok(Ok(g)) => g,
        };
        let tls = scheme == "https://";
        let query: BTreeMap<String, String> = got.query.map().into_iter().map(|(k, v)| (k, v.join("|"))).collect();
        let bad = if got.scheme != if tls { "https" } else { "http" } {
            format!("scheme {:?}", got.scheme)
        } else if got.user != user {
            format!("user info {:?}", got.user)
        } else if got.host != host || got.port != port.unwrap_or(if tls { 443 } else { 80 }) {
            format!("host {:?}, port {}", got.host, got.port)
        } else if got.path != t.path {
            format!("path {:?}, expected {:?}", got.path, t.path)
        } else if query != t.query {
            format!("query {:?}, expected {:?}", query, t.query)
        } else if got.fragment != t.fragment {
            format!("fragment {:?}, expected {:?}", got.fragment, t.fragment)
        } else {
            continue;
        };
        return rep.violation(case, format!("the URL parses to {}", bad), detail());
    }
}

#[cfg(not(starry_verif))]
fn parsed(_: &Report, _: u64, _: &mut Rng) {}

fn peer_text(ip: IpAddr, port: u16) -> String {
    format!("{}:{}", ip, port)
}

fn malformed(rep: &Report, case: u64, r: &mut Rng) {
    // an address of its own, so that a mutated port or host does not reach the server of another case
    let peer = match Peer::start([127, 233, r.range(10, 250) as u8, 99].into(), 0, Reply::of(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok".to_vec())) {
        Ok(p) => p,
        Err(e) => return rep.inconclusive(format!("bind: {}", e)),
    };
    let at = peer.addr.to_string();
    let sc = if r.chance(2, 3) { "http://" } else { "" };
    // None: only survival is asserted
    let (url, must_fail) = match r.below(4) {
        0 => {
            let bad = [
                format!("{}", sc), format!("{}/", sc), format!("{}/path", sc), format!("{}:80/", sc), format!("{}?a=b", sc), format!("{}#f", sc), format!("{}@127.0.0.1/", sc), format!("{}u:p@", sc),
                format!("{}u:p@/x", sc), format!("{}u:p@:80/x", sc), format!("{}127.0.0.1:/", sc), format!("{}127.0.0.1:abc/", sc), format!("{}127.0.0.1:65536/", sc), format!("{}127.0.0.1:99999999999999999999/", sc),
                format!("{}127.0.0.1:-1/", sc), format!("{}127.0.0.1:80:90/", sc), format!("{}127.0.0.1:0x50/", sc), format!("{}127.0.0.1: 80/", sc), format!("ftp://{}/", at), format!("http:/{}/", at), format!("http//{}:x/", at),
            ];
            (r.pick(&bad).clone(), true)
        }
        1 => {
            // blank and control characters anywhere would break the request
            let c = *r.pick(&["\r\n", " ", "\n", "\r", "\t", "\0", "\r\nX-Injected: 1\r\n", " HTTP/1.1\r\n\r\n", "\x7f"]);
            let mut u = format!("{}{}/a/b?c=d&e=f#g", sc, at);
            // keep the authority itself intact
            let lo = sc.len() + at.len();
            let i = r.range(lo, u.len());
            u.insert_str(i, c);
            (u, true)
        }
        2 => {
            // nobody listens there: the port of a listener that is gone
            let p = Peer::start([127, 233, 9, 99].into(), 0, Reply::of(vec![])).map(|p| { let a = p.addr.port(); p.done(); a }).unwrap_or(1);
            // another process may take the port in the meantime: survival only
            (format!("{}127.233.9.99:{}/x", sc, p), false)
        }
        _ => {
            let mut u: Vec<char> = format!("{}u:p@{}/a/b?c=d&e=f#g", sc, at).chars().collect();
            for _ in 0..r.range(1, 5) {
                let i = r.below(u.len());
                match r.below(3) {
                    0 => {
                        u.remove(i);
                    }
                    1 => u.insert(i, *r.pick(&['/', ':', '@', '?', '#', '=', '&', '[', ']', '%', 'é', '漢', '\\', '"', '.', '1'])),
                    _ => u[i] = *r.pick(&['/', ':', '@', '?', '#', '=', '&', '[', ']', '%', 'é', '😀', '\\', '"', '.', 'x']),
                }
            }
            (u.into_iter().collect(), false)
        }
    };
    let detail = || json!({"url": url});
    // survival cases may point to other ports of this machine, where a server under test could keep the
    // connection open: the answer is awaited elsewhere, for a bounded time
    let (tx, rx) = std::sync::mpsc::channel();
    let u = url.clone();
    let started = Instant::now();
    std::thread::spawn(move || {
        let _ = tx.send(guarded(|| disturbed(|| HttpClient::get(&u)).map(look)));
    });
    let got = rx.recv_timeout(Duration::from_secs(if must_fail { 60 } else { 20 }));
    let heard = peer.done();
    rep.count(if must_fail { "malformed urls" } else { "mutated urls" }, 1);
    rep.distinct(url.as_bytes());
    match got {
        Ok(Err(p)) => rep.violation(case, format!("HttpClient::get panicked: {}", p), detail()),
        Ok(Ok(Ok(g))) if must_fail => rep.violation(case, format!("a malformed URL is accepted: status {:?}, the server was sent {:?}", g.status, heard.conns.iter().map(|c| show(c)).collect::<Vec<_>>()), detail()),
        Ok(Ok(_)) => {
            if must_fail && heard.conns.iter().any(|c| !c.is_empty()) {
                rep.violation(case, format!("a malformed URL was requested: {:?}", heard.conns.iter().map(|c| show(c)).collect::<Vec<_>>()), detail())
            }
        }
        Err(_) if must_fail => rep.violation(case, format!("no result after {:?}", started.elapsed()), detail()),
        Err(_) => rep.count("mutated urls without an answer in time", 1),
    }
}
