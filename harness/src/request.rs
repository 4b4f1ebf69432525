//! C05, C06, C07, C15 (request side), C16: what the handler sees against what the client sent.

use std::collections::{BTreeMap, HashSet};
use std::net::SocketAddr;
use std::sync::OnceLock;

use serde_json::{json, Value};
use starry::header::Cookie;

use crate::raw::{find, hot_spots, Bad, Conn, Plan, Req, Resp};
use crate::report::{clip, run_cases, show, Report};
use crate::rng::Rng;
use crate::route::{register, METHODS};
use crate::srv::{self, Ask, Cfg, Obs, Script, Srv};

pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

/// a client connection that is reopened when needed
pub struct Link {
    to: SocketAddr,
    from: Option<[u8; 4]>,
    conn: Option<Conn>,
}

impl Link {
    pub fn new(port: u16) -> Link {
        Link::between(None, ([127, 0, 0, 1], port).into())
    }
    pub fn between(from: Option<[u8; 4]>, to: SocketAddr) -> Link {
        Link { to, from, conn: None }
    }
    pub fn get(&mut self) -> &mut Conn {
        if self.conn.is_none() {
            self.conn = Some(Conn::open_to(self.to, self.from).unwrap_or_else(|e| panic!("harness/src: connect {}", e)));
        }
        self.conn.as_mut().unwrap()
    }
    pub fn drop_conn(&mut self) {
        self.conn = None
    }
    /// sends the request under the plan, reads the response
    pub fn exchange(&mut self, bytes: &[u8], plan: &Plan) -> Result<Resp, Bad> {
        let c = self.get();
        c.send_plan(bytes, plan);
        let r = c.response();
        let close = match &r {
            Ok(x) => x.code >= 400 || !x.one("Connection").map(|v| v.eq_ignore_ascii_case("keep-alive")).unwrap_or(false),
            Err(_) => true,
        };
        if close {
            self.conn = None
        }
        r
    }
}

static SRV: OnceLock<Srv> = OnceLock::new();

/// a server with a single worker, and one that listens on IPv6
static SINGLE: OnceLock<Srv> = OnceLock::new();
static SIX: OnceLock<Srv> = OnceLock::new();

fn server(rep: &Report, patterns: &[&str]) -> Option<u16> {
    let port = server_as(rep, patterns, srv::varied(rep.opts.shard), &SRV)?;
    server_as(rep, patterns, Cfg { pool: 1, ..srv::varied(rep.opts.shard + 1) }, &SINGLE)?;
    if std::net::TcpListener::bind(("::1", 0)).is_ok() {
        server_as(rep, patterns, Cfg { host: "::1", ..srv::varied(rep.opts.shard + 2) }, &SIX)?;
    }
    Some(port)
}

/// a link to one of the servers; true if it has to close after each request
fn link_any(rep: &Report, r: &mut Rng) -> (Link, bool) {
    let six = SIX.get().map(|s| s.port);
    match r.below(16) {
        0 => {
            rep.count("links to a server with one worker", 1);
            (Link::new(SINGLE.get().unwrap().port), true)
        }
        1 | 2 if six.is_some() => {
            rep.count("links over IPv6", 1);
            (Link::between(None, (std::net::Ipv6Addr::LOCALHOST, six.unwrap()).into()), false)
        }
        3..=8 => {
            rep.count("links from other local addresses", 1);
            let from = [127, r.below(256) as u8, r.below(256) as u8, r.range(1, 254) as u8];
            (Link::between(Some(from), ([127, 0, 0, 1], SRV.get().unwrap().port).into()), false)
        }
        _ => (Link::new(SRV.get().unwrap().port), false),
    }
}

fn server_as(rep: &Report, patterns: &[&str], cfg: Cfg, cell: &OnceLock<Srv>) -> Option<u16> {
    let s = srv::start(cfg, |s| {
        for m in METHODS.iter() {
            for (i, p) in patterns.iter().enumerate() {
                // '+': the route has a filter
                let ext = if p.starts_with('+') { Some(starry::Extend::e1(vec![srv::filters()[0]])) } else { None };
                register(s, "", m, p.trim_start_matches('+'), srv::handlers()[i], ext, None);
            }
        }
    });
    match s {
        Ok(s) => {
            let port = s.port;
            let _ = cell.set(s);
            Some(port)
        }
        Err(e) => {
            rep.violation(0, format!("server did not start: {}", e), json!({}));
            None
        }
    }
}

/// the one observation of a request that must have been handled and answered with 200
fn handled(rep: &Report, case: u64, id: u64, res: &Result<Resp, Bad>, detail: &dyn Fn() -> Value) -> Option<Obs> {
    let obs = srv::take(id);
    match res {
        Ok(x) if x.code == 200 && x.carries(b"ok") => {}
        Ok(x) => {
            rep.violation(case, format!("a well-formed request was answered with {} {:?} ({} dispatches)", x.code, show(&x.body), obs.len()), detail());
            return None;
        }
        Err(e) => {
            rep.violation(case, format!("a well-formed request got no well-formed answer: {:?} ({} dispatches)", e, obs.len()), detail());
            return None;
        }
    }
    if obs.len() != 1 {
        rep.violation(case, format!("{} dispatches of one request", obs.len()), detail());
        return None;
    }
    obs.into_iter().next()
}

pub fn any_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

fn token(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-_.!#$%&'*+^`|~") as char).collect()
}

fn header_value(r: &mut Rng, max: usize) -> String {
    let special = ["", ":", "a:b", "::", "a: b", "x", "\"quoted, value\"", "a=b; c=d", "text/html;q=0.9, */*", "Mon, 01 Jan 2024 00:00:00 GMT", "http://h:80/p?q#f", "[::1]:80", "naïve ü 漢", "a  b", "a\tb", "{\"k\":\"v\"}"];
    let s = match r.below(8) {
        0..=2 => r.pick(&special).to_string(),
        3 => {
            let n = r.range(0, max);
            (0..n).map(|_| (b'!' + r.below(94) as u8) as char).collect::<String>()
        }
        _ => {
            let n = r.range(0, 40);
            r.string(&['a', 'b', ' ', ':', ';', ',', '=', '/', '"', '\'', '\\', '?', '#', '%', '0', '9', '.', '-', '\t', 'é', '\u{a0}', '\u{3000}', '\u{85}', '\u{2028}', '\u{feff}'], 0, n)
        }
    };
    s.trim_matches(|c| c == ' ' || c == '\t').to_string()
}

/// a name that resembles the given one
pub fn near(r: &mut Rng, s: &str) -> String {
    let flip = |c: char| {
        if c.is_ascii_uppercase() {
            c.to_ascii_lowercase()
        } else {
            c.to_ascii_uppercase()
        }
    };
    let chars: Vec<char> = s.chars().collect();
    match r.below(5) {
        0 => s.to_ascii_uppercase(),
        1 if !chars.is_empty() => {
            let at = r.below(chars.len());
            chars.iter().enumerate().map(|(i, c)| if i == at { flip(*c) } else { *c }).collect()
        }
        2 if chars.len() > 1 => chars[..chars.len() - 1].iter().collect(),
        3 if chars.len() > 1 => chars[1..].iter().collect(),
        _ => format!("{}{}", s, r.pick(&['a', 'A', '1', '.'])),
    }
}

/// a name that was not sent, often close to one that was
pub fn absent(r: &mut Rng, sent: &[String]) -> String {
    for _ in 0..4 {
        if sent.is_empty() || r.chance(1, 4) {
            break;
        }
        let s = r.pick(sent).clone();
        let n = near(r, &s);
        if !n.is_empty() && !sent.contains(&n) {
            return n;
        }
    }
    "absent/never sent".into()
}

const OWS: [&str; 6] = [" ", " ", " ", "", "  ", "\t"];

/// request bytes with optional whitespace around header values
fn raw_request(r: &mut Rng, method: &str, target: &[u8], version: &str, headers: &[(String, String)], body: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend_from_slice(method.as_bytes());
    b.push(b' ');
    b.extend_from_slice(target);
    b.push(b' ');
    b.extend_from_slice(version.as_bytes());
    b.extend_from_slice(b"\r\n");
    for (k, v) in headers {
        b.extend_from_slice(k.as_bytes());
        b.push(b':');
        b.extend_from_slice(r.pick(&OWS).as_bytes());
        b.extend_from_slice(v.as_bytes());
        if r.chance(1, 10) {
            b.extend_from_slice(r.pick(&[" ", "\t", "   "]).as_bytes())
        }
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(b"\r\n");
    b.extend_from_slice(body);
    b
}

// ---------------------------------------------------------------- multipart

#[derive(Clone, Debug)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub content: Vec<u8>,
}

fn part_name(r: &mut Rng, used: &mut HashSet<String>) -> String {
    let special = ["name", "filename", "a;b", "a; filename=b", "x=y", "form-data", "f", "k1", "é", "a b", "user[0]", "a:b", "--x", "漢字", ";", "=", "a,b", "%22", "'q'", "Content-Type", "a/b", "/a", "..", "a%20b", "+", "[]", "a[]", "a.b", "*"];
    loop {
        let s = if !used.is_empty() && r.chance(1, 6) {
            let mut known: Vec<&String> = used.iter().collect();
            known.sort();
            let k = r.pick(&known).to_string();
            near(r, &k)
        } else if r.chance(1, 2) { r.pick(&special).to_string() } else if r.chance(1, 25) { token(r, 12, 700) } else { token(r, 1, 12) };
        let s = if r.chance(1, 8) { r.spice(&s) } else { s };
        if used.insert(s.clone()) {
            return s;
        }
    }
}

fn part_content(r: &mut Rng, boundary: &str, max: usize) -> Vec<u8> {
    let full = format!("\r\n--{}", boundary).into_bytes();
    loop {
        let mut c = match r.below(5) {
            0 => vec![],
            1 => {
                let n = r.size(max);
                r.blob(n)
            }
            2 => {
                let n = r.range(0, 60);
                (0..n).map(|_| *r.pick(b"\r\n\r\n-a")).collect()
            }
            _ => {
                let mut c = vec![];
                for _ in 0..r.range(1, 8) {
                    match r.below(12) {
                        0 => c.extend_from_slice(b"\r\n"),
                        1 => c.push(b'\n'),
                        2 => c.push(b'\r'),
                        3 => c.extend_from_slice(b"--"),
                        4 => c.extend_from_slice(format!("\n--{}\r\n", boundary).as_bytes()),
                        5 => c.extend_from_slice(format!("x--{}--\r\n", boundary).as_bytes()),
                        6 => {
                            let k = r.below(boundary.len());
                            c.extend_from_slice(format!("\r\n--{}", &boundary[..k]).as_bytes())
                        }
                        7 => c.extend_from_slice(b"\r\n\r\n"),
                        8 => c.extend_from_slice(b"Content-Disposition: form-data; name=\"x\"\r\n\r\n"),
                        9 => c.push(0),
                        10 => {
                            let k = r.range(0, 30);
                            c.extend_from_slice(&r.bytes(k))
                        }
                        _ => {
                            let t = token(r, 1, 20);
                            c.extend_from_slice(t.as_bytes())
                        }
                    }
                }
                c
            }
        };
        if r.chance(1, 6) {
            c.push(b'\r')
        }
        if r.chance(1, 8) {
            c.push(b'\n')
        }
        c.truncate(max);
        if !c.starts_with(&full[2..]) && find(&c, &full).is_none() {
            return c;
        }
    }
}

/// a multipart body as browsers send it, with its Content-Type value
pub fn multipart(r: &mut Rng, max: usize) -> (Vec<Part>, Vec<u8>, String) {
    let boundary = match r.below(5) {
        0 => "----WebKitFormBoundary7MA4YWxkTrZu0gW".to_string(),
        1 => format!("--------------------------{}", r.irange(100000000000, 999999999999)),
        2 => "x".to_string(),
        3 => {
            let n = r.range(1, 70);
            (0..n).map(|_| *r.pick(b"abcXYZ019'()+_,-./:=?") as char).collect()
        }
        _ => token(r, 5, 30).replace(|c: char| !c.is_ascii_alphanumeric(), "-"),
    };
    let mut used = HashSet::new();
    let n = match r.below(6) {
        0 => 1,
        5 if r.chance(1, 8) => r.range(60, 400),
        5 => r.range(0, 12),
        _ => r.range(1, 5),
    };
    let max = if n > 50 { max.min(60) } else { max };
    let mut parts = vec![];
    let mut body = vec![];
    for _ in 0..n {
        let name = part_name(r, &mut used);
        let file = r.chance(1, 2);
        let mut content = part_content(r, &boundary, max);
        if !file {
            content = match r.below(3) {
                0 => content,
                _ => lossy(&content).into_bytes(),
            };
        }
        if content.starts_with(format!("--{}", boundary).as_bytes()) || find(&content, format!("\r\n--{}", boundary).as_bytes()).is_some() {
            content = vec![]
        }
        let filename = if file { Some(r.pick(&["", "a.txt", "a;b.txt", "x=1; name=y.bin", "weird name (1).tar.gz", "漢.png", "--", "a:b", "f'q'.txt", "dir/n.txt", "/etc/passwd", "../up.txt", "..", "a/", "C:/x/y.txt", "a%20b%2Fc.txt", ".hidden", "end.", " edges ", "tar.gz?x=1#y", "a\tb", "\u{feff}bom.txt", "NUL", "e\u{301}.txt"]).to_string()) } else { None };
        let filename = filename.map(|f| if r.chance(1, 6) { r.spice(&f) } else { f });
        let filename = filename.map(|f| if r.chance(1, 25) { format!("{}.txt", token(r, 12, 700)) } else { f });
        let disposition = if r.chance(1, 6) { any_case(r, "Content-Disposition") } else { "Content-Disposition".to_string() };
        let kind = if r.chance(1, 6) { any_case(r, "Content-Type") } else { "Content-Type".to_string() };
        body.extend_from_slice(format!("--{}\r\n{}: form-data; name=\"{}\"", boundary, disposition, name).as_bytes());
        if let Some(f) = &filename {
            body.extend_from_slice(format!("; filename=\"{}\"", f).as_bytes());
        }
        body.extend_from_slice(b"\r\n");
        if file && r.chance(3, 4) {
            let ct = *r.pick(&["text/plain", "application/octet-stream", "image/png", "application/x-unknown; charset=binary", "multipart/mixed; boundary=b", ""]);
            body.extend_from_slice(format!("{}: {}\r\n", kind, ct).as_bytes());
        }
        if !file && r.chance(1, 6) {
            body.extend_from_slice(b"Content-Type: text/plain; charset=utf-8\r\n");
        }
        if r.chance(1, 10) {
            body.extend_from_slice(b"Content-Transfer-Encoding: binary\r\n");
        }
        body.extend_from_slice(b"\r\n");
        body.extend_from_slice(&content);
        body.extend_from_slice(b"\r\n");
        parts.push(Part { name, filename, content });
    }
    body.extend_from_slice(format!("--{}--", boundary).as_bytes());
    match r.below(4) {
        0 => {}
        3 => body.extend_from_slice(b"\r\nepilogue text\r\n"),
        _ => body.extend_from_slice(b"\r\n"),
    }
    let needs_quotes = boundary.bytes().any(|b| b"()<>@,;:\\\"/[]?=".contains(&b));
    let quoted = needs_quotes || r.chance(1, 4);
    let b = if quoted { format!("\"{}\"", boundary) } else { boundary.clone() };
    let ct = match r.below(5) {
        0 => format!("multipart/form-data;boundary={}", b),
        1 => format!("Multipart/Form-Data; Boundary={}", b),
        2 => format!("multipart/form-data; charset=utf-8; boundary={}", b),
        3 => format!("multipart/form-data; boundary={}; charset=utf-8", b),
        _ => format!("multipart/form-data; boundary={}", b),
    };
    (parts, body, ct)
}

fn ask_parts(r: &mut Rng, parts: &[Part]) -> Ask {
    let mut names: Vec<String> = parts.iter().map(|p| p.name.clone()).collect();
    names.push(absent(r, &names));
    Ask { form: true, forms: names.clone(), files: names, ..Ask::default() }
}

fn check_parts(o: &Obs, parts: &[Part]) -> Result<(), String> {
    let fields = parts.iter().filter(|p| p.filename.is_none()).count();
    if o.n_form != Ok(fields) {
        return Err(format!("req_count_form is {:?}, {} fields were sent", o.n_form, fields));
    }
    for (i, p) in parts.iter().enumerate() {
        match &p.filename {
            None => {
                let want = lossy(&p.content);
                if o.forms[i] != Ok((Some(want.clone()), true)) {
                    return Err(format!("field {:?} is {}, sent {:?}", p.name, clip(&format!("{:?}", o.forms[i]), 300), clip(&want, 300)));
                }
                if o.files[i] != Ok(None) {
                    return Err(format!("field {:?} appears as a file", p.name));
                }
            }
            Some(f) => {
                match &o.files[i] {
                    Ok(Some((name, size, content))) => {
                        if name != f || *size != p.content.len() || *content != p.content {
                            let at = content.iter().zip(&p.content).position(|(a, b)| a != b);
                            return Err(format!("file {:?}: filename {:?} size {} content {} bytes; sent {:?}, {} bytes; first difference at {:?}", p.name, name, size, content.len(), f, p.content.len(), at));
                        }
                    }
                    other => return Err(format!("file {:?} is {}, sent {:?} with {} bytes", p.name, clip(&format!("{:?}", other), 200), f, p.content.len())),
                }
                if o.forms[i] != Ok((None, false)) {
                    return Err(format!("file {:?} appears as a form field", p.name));
                }
            }
        }
    }
    let last = parts.len();
    if o.forms[last] != Ok((None, false)) || o.files[last] != Ok(None) {
        return Err("an absent form name is reported present".into());
    }
    Ok(())
}

/// urlencoded body with distinct keys
fn urlencoded(r: &mut Rng) -> (Vec<(String, String)>, Vec<u8>) {
    let mut used = HashSet::new();
    let mut kv: Vec<(String, String)> = vec![];
    let mut body: Vec<u8> = vec![];
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        2 if r.chance(1, 12) => r.range(300, 2500),
        2 => r.range(1, 60),
        _ => r.range(1, 6),
    };
    for i in 0..n {
        let kmax = if r.chance(1, 40) { 900 } else { 6 };
        let k = if !kv.is_empty() && r.chance(1, 8) {
            let k = r.pick(&kv).0.clone();
            near(r, &k)
        } else {
            r.string(&['a', 'A', 'b', 'k', '1', '%', '+', ' ', '.', '[', ']', 'é', ';', '\r', '\n', '?', '#', ':'], 1, kmax)
        };
        if !used.insert(k.clone()) {
            continue;
        }
        let vmax = if n < 100 && r.chance(1, 20) { 3000 } else { 20 };
        let v = match r.below(6) {
            0 => String::new(),
            1 => "a=b=c".to_string(),
            2 => "=".to_string(),
            3 => "%26+%3D%00".to_string(),
            _ => r.string(&['a', 'b', '=', '%', '2', '6', '+', ' ', '\r', '\n', 'ü', '漢', '\0', ';', '?', '/', '"'], 0, vmax),
        };
        if i > 0 {
            body.push(b'&');
            if r.chance(1, 15) {
                body.push(b'&')
            }
        }
        body.extend_from_slice(k.as_bytes());
        if !(v.is_empty() && r.chance(1, 2)) {
            body.push(b'=');
            body.extend_from_slice(v.as_bytes());
        }
        kv.push((k, v));
    }
    if r.chance(1, 10) {
        body.push(b'&')
    }
    (kv, body)
}

fn check_form(o: &Obs, kv: &[(String, String)]) -> Result<(), String> {
    if o.n_form != Ok(kv.len()) {
        return Err(format!("req_count_form is {:?}, {} items were sent", o.n_form, kv.len()));
    }
    for (i, (k, v)) in kv.iter().enumerate() {
        if o.forms[i] != Ok((Some(v.clone()), true)) {
            return Err(format!("form {:?} is {}, sent {:?}", k, clip(&format!("{:?}", o.forms[i]), 300), clip(v, 300)));
        }
    }
    if o.forms[kv.len()] != Ok((None, false)) {
        return Err("an absent form name is reported present".into());
    }
    Ok(())
}

fn ask_form(r: &mut Rng, kv: &[(String, String)]) -> Ask {
    let mut names: Vec<String> = kv.iter().map(|p| p.0.clone()).collect();
    names.push(absent(r, &names));
    Ask { form: true, forms: names, ..Ask::default() }
}

enum Body {
    None,
    Form(Vec<(String, String)>),
    Parts(Vec<Part>),
    Opaque,
}

/// a form of many MiB: one large file or value between two small ones
fn huge(r: &mut Rng, thorough: bool) -> (Body, Vec<u8>, String) {
    let n = if thorough { r.range(9 << 20, 100 << 20) } else { r.range(9 << 20, 24 << 20) };
    if r.chance(1, 2) {
        let unit = r.bytes(977);
        let content: Vec<u8> = unit.iter().cycle().take(n).cloned().collect();
        let part = |name: &str, filename: Option<&str>, content: Vec<u8>| Part { name: name.into(), filename: filename.map(|f| f.into()), content };
        let parts = vec![part("first", None, b"1".to_vec()), part("big", Some("big.bin"), content), part("last", None, b"the end".to_vec())];
        let mut body = vec![];
        for p in &parts {
            body.extend_from_slice(format!("--HuGe\r\nContent-Disposition: form-data; name=\"{}\"", p.name).as_bytes());
            if let Some(f) = &p.filename {
                body.extend_from_slice(format!("; filename=\"{}\"\r\nContent-Type: application/octet-stream", f).as_bytes());
            }
            body.extend_from_slice(b"\r\n\r\n");
            body.extend_from_slice(&p.content);
            body.extend_from_slice(b"\r\n");
        }
        body.extend_from_slice(b"--HuGe--\r\n");
        return (Body::Parts(parts), body, "multipart/form-data; boundary=HuGe".into());
    }
    let unit = r.string(&['a', 'b', '=', '%', '+', ' ', 'ü', '漢', ';'], 1, 500);
    let v = unit.repeat(n / unit.len());
    let kv = vec![("first".to_string(), "1".to_string()), ("big".into(), v), ("last".into(), "the end".into())];
    let body = kv.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join("&").into_bytes();
    (Body::Form(kv), body, "application/x-www-form-urlencoded".into())
}

// ---------------------------------------------------------------- C05

pub fn c05(rep: &'static Report) {
    match server(rep, &["/r", "/r/:v", "/r/:v/x/:w"]) {
        Some(_) => {}
        None => return,
    }
    let max = if rep.opts.thorough { 12000 } else { 900 };
    let thorough = rep.opts.thorough;
    let big = if thorough { 6 << 20 } else { 600_000 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let (mut link, closes) = link_any(rep, r);
        for _ in 0..if case == 6 || case == 7 { 1 } else { r.range(2, 6) } {
            if rep.violated() {
                return;
            }
            let method = if case == 7 || r.chance(1, 2) { *r.pick(&["POST", "PUT", "PATCH"]) } else { *r.pick(&METHODS) };
            let entity = ["POST", "PUT", "PATCH"].contains(&method);
            let version = *r.pick(&["HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"]);
            let seg = |r: &mut Rng| r.string(&['a', 'b', '1', '%', '2', 'F', '.', '-', '_', '~', '!', '$', '\'', '(', ')', '*', '+', ',', ';', '=', ':', '@', 'é', '漢', '&'], 1, 12);
            let (tag, path) = match r.below(3) {
                0 => (0, "/r".to_string()),
                1 => (1, format!("/r/{}", seg(r))),
                _ => (2, format!("/r/{}/x/{}", seg(r), seg(r))),
            };
            let mut target = path.clone();
            let mut params: BTreeMap<String, String> = BTreeMap::new();
            if r.chance(1, 2) {
                let n = if r.chance(1, 8) { r.range(0, 60) } else { r.range(0, 4) };
                let items: Vec<String> = (0..n)
                    .map(|_| {
                        let k = r.string(&['a', 'b', 'c', 'A', 'B', 'é', '.', '%', '['], 1, 3);
                        let v = r.string(&['1', '2', '=', 'x', '/', '?', '%', '+', 'ü', ';'], 0, 12);
                        params.insert(k.clone(), v.clone());
                        format!("{}={}", k, v)
                    })
                    .collect();
                target = format!("{}?{}", path, items.join("&"));
            }
            // body
            let (body, bytes, ct) = if case == 7 {
                rep.count("requests with a body of many MiB", 1);
                let (b, bytes, ct) = huge(r, thorough);
                (b, bytes, Some(ct))
            } else if entity && r.chance(4, 5) {
                match r.below(5) {
                    0 | 1 => {
                        let (kv, b) = urlencoded(r);
                        (Body::Form(kv), b, Some(any_case(r, "application/x-www-form-urlencoded")))
                    }
                    2 | 3 => {
                        let m = if r.chance(1, 15) { big } else { 4000 };
                        let (p, b, ct) = multipart(r, m);
                        (Body::Parts(p), b, Some(ct))
                    }
                    _ => {
                        let n = r.size(20000);
                        (Body::Opaque, r.blob(n), Some("application/octet-stream".to_string()))
                    }
                }
            } else if r.chance(1, 5) {
                let n = r.size(5000);
                (Body::Opaque, r.blob(n), None)
            } else {
                (Body::None, vec![], None)
            };
            let ask = match &body {
                Body::Form(kv) => ask_form(r, kv),
                Body::Parts(p) => ask_parts(r, p),
                _ => Ask { form: entity, forms: vec!["absent".into()], ..Ask::default() },
            };
            let mut pnames: Vec<String> = params.keys().cloned().collect();
            pnames.push(absent(r, &pnames));
            let id = srv::script(Script::reply(Ask { params: pnames.clone(), ..ask }, "ok"));
            // headers
            let mut headers: Vec<(String, String)> = vec![("X-Id".into(), id.to_string())];
            let mut used: HashSet<String> = ["x-id", "host", "connection", "content-length", "content-type", "upgrade", "authorization", "cookie", "accept-encoding", "transfer-encoding", "expect"].iter().map(|s| s.to_string()).collect();
            let n = match r.below(12) {
                0 => 0,
                1 => r.range(30, 120),
                2 if r.chance(1, 4) => r.range(200, 900),
                _ => r.range(0, 8),
            };
            for _ in 0..n {
                let most = if r.chance(1, 12) { 600 } else { 24 };
                let k = if r.chance(1, 8) {
                    let known = r.pick(&headers).0.clone();
                    let known = if r.chance(1, 3) { r.pick(&["Host", "Cookie", "Connection", "Content-Length", "Upgrade", "Content-Type", "Authorization"]).to_string() } else { known };
                    near(r, &known)
                } else {
                    token(r, 1, most)
                };
                if used.insert(k.to_ascii_lowercase()) {
                    let m = if r.chance(1, 30) { 30000 } else { 200 };
                    headers.push((k, header_value(r, m)));
                }
            }
            headers.push((any_case(r, "Host"), r.pick(&["localhost", "h:8080", "127.0.0.1", "[::1]:80", "example.com"]).to_string()));
            if !bytes.is_empty() || r.chance(1, 3) {
                headers.push((any_case(r, "Content-Length"), bytes.len().to_string()));
            }
            if let Some(ct) = &ct {
                headers.push((any_case(r, "Content-Type"), ct.clone()));
            }
            if r.chance(1, 6) {
                headers.push((any_case(r, "Accept-Encoding"), r.pick(&["gzip, deflate, br", "", "identity", "*", "gzip;q=1.0"]).to_string()));
            }
            if r.chance(1, 6) {
                headers.push((any_case(r, "Cookie"), "a=b; c=d=e".into()));
            }
            // keep-alive always, so that the next request on the connection shows left-over bytes
            let mut ws = false;
            match if closes { 9 } else { r.below(6) } {
                9 => headers.push((any_case(r, "Connection"), r.pick(&["close", "Close", "close, x"]).to_string())),
                0 => {
                    let conn = *r.pick(&["Upgrade, keep-alive", "keep-alive, upgrade", "keep-alive,UPGRADE", "keep-alive", "keep-alive, upgraded", "keep-alive, x-upgrade", "no-upgrade, keep-alive", "keep-alive,upgrade-insecure", "UpGrAdE , keep-alive"]);
                    let up = *r.pick(&["websocket", "websocket", "WebSocket", "h2c", "", "websocket/2", "websockets", "x-websocket", "web", "websocket;x"]);
                    ws = up.eq_ignore_ascii_case("websocket") && conn.split(',').any(|t| t.trim().eq_ignore_ascii_case("upgrade"));
                    headers.push(("Connection".into(), conn.into()));
                    if !up.is_empty() {
                        headers.push(("Upgrade".into(), up.into()));
                    }
                }
                1 => headers.push((any_case(r, "Connection"), r.pick(&["Keep-Alive", "keep-alive", "KEEP-ALIVE"]).to_string())),
                _ => headers.push(("Connection".into(), "keep-alive".into())),
            }
            r.shuffle(&mut headers);
            let wire = raw_request(r, method, target.as_bytes(), version, &headers, &bytes);
            // one request of the run stops twice for long: in its head and in its last bytes
            let plan = if case == 7 {
                let n = wire.len();
                Plan { cuts: vec![(r.below(n - 1) + 1, 20_000)] }
            } else if case == 6 || case == 8 {
                link.drop_conn();
                rep.count("requests with pauses of half a minute", 1);
                Plan { cuts: vec![(if case == 6 { wire.len() - bytes.len() - 7 } else { wire.len() - 1 }, 31_500_000)] }
            } else {
                Plan::random(r, wire.len(), &hot_spots(&wire))
            };
            let peer = link.get().s.local_addr().map(|a| (a.ip().to_string(), a.port())).unwrap_or_default();
            let detail = || json!({"request": show(&wire[..wire.len().min(600)]), "wire_bytes": wire.len(), "body_bytes": bytes.len(), "segments": plan.describe(), "headers": headers.len()});
            let res = link.exchange(&wire, &plan);
            rep.count("requests", 1);
            rep.count("bytes sent", wire.len() as u64);
            rep.count("segments sent", plan.cuts.len() as u64 + 1);
            if wire.len() - bytes.len() > 1024 {
                rep.count("requests with a head over 1 KiB", 1)
            }
            rep.distinct(&[&wire[..wire.len().min(4000)], plan.describe().as_bytes()].concat());
            let o = match handled(rep, case, id, &res, &detail) {
                Some(o) => o,
                None => return,
            };
            let bad = (|| -> Result<(), String> {
                if o.tag != tag {
                    return Err(format!("route {} was sent, handler {} ran", tag, o.tag));
                }
                if o.path != path {
                    return Err(format!("path {:?} arrived as {:?}", path, o.path));
                }
                if o.n_params != params.len() {
                    return Err(format!("req_count_param is {}, sent {:?}", o.n_params, params));
                }
                for (k, got) in pnames.iter().zip(&o.params) {
                    let want = params.get(k).cloned();
                    if got.1 != want.is_some() || got.0 != want {
                        return Err(format!("param {:?} is {:?}, sent {:?}", k, got, want));
                    }
                }
                if o.headers.len() != headers.len() {
                    return Err(format!("{} headers were sent, {} arrived", headers.len(), o.headers.len()));
                }
                for (k, v) in &headers {
                    let got: Vec<&Vec<String>> = o.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| v).collect();
                    if got.len() != 1 || got[0].len() != 1 || got[0][0] != *v {
                        return Err(format!("header {:?}: {:?} arrived as {}", k, clip(v, 200), clip(&format!("{:?}", got), 300)));
                    }
                }
                if o.addr != peer {
                    return Err(format!("client address is {:?}, connected from {:?}", o.addr, peer));
                }
                if o.ws != ws {
                    return Err(format!("req_is_web_socket is {}", o.ws));
                }
                match &body {
                    Body::Form(kv) => check_form(&o, kv),
                    Body::Parts(p) => check_parts(&o, p),
                    _ if entity => {
                        if o.n_form != Ok(0) || o.forms[0] != Ok((None, false)) {
                            return Err(format!("form values appear from a body that is no form: {:?}", o.forms));
                        }
                        Ok(())
                    }
                    _ => Ok(()),
                }
            })();
            if let Err(e) = bad {
                return rep.violation(case, e, detail());
            }
            rep.sample(|| detail());
        }
    });
}

// ---------------------------------------------------------------- C06

pub fn c06(rep: &'static Report) {
    let port = match server(rep, &["/f", "+/ff"]) {
        Some(p) => p,
        None => return,
    };
    let max = if rep.opts.thorough { 20000 } else { 2400 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let mut link = Link::new(port);
        for round in 0..r.range(2, 8) {
            if rep.violated() {
                return;
            }
            let method = *r.pick(&["POST", "PUT", "PATCH"]);
            let (body, bytes, ct) = match r.below(8) {
                _ if case % 4000 == 7 && round == 0 => {
                    rep.count("bodies of many MiB", 1);
                    huge(r, false)
                }
                0..=2 => {
                    let (kv, b) = urlencoded(r);
                    let ct = r.pick(&["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=UTF-8", "application/x-www-form-urlencoded;charset=utf-8", "Application/X-WWW-Form-URLencoded"]).to_string();
                    (Body::Form(kv), b, ct)
                }
                3..=6 => {
                    let m = if r.chance(1, 12) { 60000 } else { 3000 };
                    let (p, b, ct) = multipart(r, m);
                    (Body::Parts(p), b, ct)
                }
                _ => {
                    let b = urlencoded(r).1;
                    (Body::Opaque, b, r.pick(&["text/plain", "application/json", "application/octet-stream", "application/x-www-form-urlencodedx"]).to_string())
                }
            };
            let ask = Ask { first: r.below(4), ..match &body {
                Body::Form(kv) => ask_form(r, kv),
                Body::Parts(p) => ask_parts(r, p),
                _ => ask_form(r, &[]),
            } };
            // a filter that has looked at the form before the handler does
            let filtered = r.chance(1, 4);
            let mut script = Script::reply(ask, "ok");
            if filtered {
                script.stage.insert(1000, vec![]);
            }
            let id = srv::script(script);
            let wire = Req::new(method, if filtered { "/ff" } else { "/f" }).h("X-Id", &id.to_string()).keep().body(bytes.clone(), &ct).bytes();
            let plan = if wire.len() < 8 << 20 && r.chance(1, 3) { Plan::random(r, wire.len(), &hot_spots(&wire)) } else { Plan::whole() };
            let detail = || json!({"content_type": ct, "body": show(&bytes[..bytes.len().min(200_000)]), "body_bytes": bytes.len(), "segments": plan.describe()});
            let res = link.exchange(&wire, &plan);
            rep.distinct(&bytes[..bytes.len().min(100_000)]);
            let early = if filtered { srv::shift(id) } else { None };
            if filtered && early.is_none() {
                return rep.violation(case, "the filter of the route did not run".into(), detail());
            }
            let o = match handled(rep, case, id, &res, &detail) {
                Some(o) => o,
                None => return,
            };
            if let Some(e) = &early {
                rep.count("forms read by a filter and by the handler", 1);
                if (&e.forms, &e.files, &e.n_form) != (&o.forms, &o.files, &o.n_form) {
                    return rep.violation(case, format!("a filter sees {:?} {:?}, the handler {:?} {:?}", e.n_form, e.forms, o.n_form, o.forms), detail());
                }
            }
            let bad = match &body {
                Body::Form(kv) => {
                    rep.count("urlencoded bodies", 1);
                    rep.count("urlencoded items", kv.len() as u64);
                    check_form(&o, kv)
                }
                Body::Parts(p) => {
                    rep.count("multipart bodies", 1);
                    rep.count("files", p.iter().filter(|p| p.filename.is_some()).count() as u64);
                    rep.count("multipart fields", p.iter().filter(|p| p.filename.is_none()).count() as u64);
                    check_parts(&o, p)
                }
                _ => {
                    rep.count("bodies of other types", 1);
                    check_form(&o, &[])
                }
            };
            if let Err(e) = bad {
                return rep.violation(case, e, detail());
            }
            rep.sample(|| detail());
        }
    });
}

// ---------------------------------------------------------------- C07

/// the parts of many targets, without a connection
#[cfg(starry_verif)]
fn targets_parsed(rep: &Report, case: u64, r: &mut Rng) {
    for _ in 0..200 {
        let n = if r.chance(1, 30) { r.range(0, 5000) } else { r.range(0, 40) };
        let wild = r.chance(1, 3);
        let mut target = b"/".to_vec();
        for _ in 0..n {
            let b = if wild { r.u64() as u8 } else { *r.pick(b"aAbBc==&&&??##//%+;:@12.") };
            // these end the target
            if b > b' ' {
                target.push(b)
            }
        }
        let hash = target.iter().position(|b| *b == b'#');
        let front = &target[..hash.unwrap_or(target.len())];
        let mark = front.iter().position(|b| *b == b'?');
        let path = lossy(&front[..mark.unwrap_or(front.len())]);
        let mut params: BTreeMap<String, String> = BTreeMap::new();
        for item in mark.map(|m| &front[m + 1..]).unwrap_or(&[]).split(|b| *b == b'&').filter(|i| !i.is_empty()) {
            let eq = item.iter().position(|b| *b == b'=');
            params.insert(lossy(&item[..eq.unwrap_or(item.len())]), eq.map(|e| lossy(&item[e + 1..])).unwrap_or_default());
        }
        let fragment = hash.map(|h| lossy(&target[h + 1..]));
        rep.eval();
        rep.count("targets taken apart", 1);
        rep.distinct(&target);
        let detail = || json!({"target": show(&target)});
        let (p, q, f) = match crate::report::guarded(|| starry::verif::target(&target)) {
            Ok(x) => x,
            Err(e) => return rep.violation(case, format!("parsing a target: {}", e), detail()),
        };
        let q: BTreeMap<String, String> = q.map().into_iter().map(|(k, v)| (k, v.join("|"))).collect();
        if p != path {
            return rep.violation(case, format!("the path is {:?}, expected {:?}", p, path), detail());
        }
        if q != params {
            return rep.violation(case, format!("the query is {:?}, expected {:?}", q, params), detail());
        }
        if f != fragment {
            return rep.violation(case, format!("the fragment is {:?}, expected {:?}", f, fragment), detail());
        }
    }
}

#[cfg(not(starry_verif))]
fn targets_parsed(_: &Report, _: u64, _: &mut Rng) {}

pub fn c07(rep: &'static Report) {
    let port = match server(rep, &["/t", "/t/:a", "/t/:a/:b", "/t/:a/:b/:c"]) {
        Some(p) => p,
        None => return,
    };
    let max = if rep.opts.thorough { 30000 } else { 7000 };
    run_cases(rep, 4, max, move |rep, case, r| {
        if r.chance(1, 10) {
            return targets_parsed(rep, case, r);
        }
        let mut link = Link::new(port);
        for _ in 0..r.range(3, 10) {
            if rep.violated() {
                return;
            }
            let n = r.below(4);
            let wild = r.chance(1, 3);
            let piece = |r: &mut Rng, hot: &[u8], max: usize| -> Vec<u8> {
                let len = if r.chance(1, 40) { r.range(0, 3000) } else { r.range(0, max) };
                (0..len)
                    .map(|_| {
                        if wild && r.chance(1, 3) {
                            loop {
                                let b = r.u64() as u8;
                                if b != b' ' && b != b'\r' && b != b'\n' {
                                    return b;
                                }
                            }
                        } else {
                            *r.pick(hot)
                        }
                    })
                    .collect()
            };
            let mut segs: Vec<Vec<u8>> = vec![];
            for _ in 0..n {
                let mut s = piece(r, b"ab1%2F.;:@&=+-~", 8);
                s.retain(|b| *b != b'/' && *b != b'?' && *b != b'#');
                segs.push(s);
            }
            let mut target = b"/t".to_vec();
            for s in &segs {
                target.push(b'/');
                target.extend_from_slice(s);
            }
            let path = target.clone();
            if r.chance(3, 4) {
                target.push(b'?');
                let mut q = piece(r, b"aAbBc==&&&?/%+;:@12", 30);
                q.retain(|b| *b != b'#');
                target.extend_from_slice(&q);
            }
            if r.chance(1, 4) {
                target.push(b'#');
                let f = piece(r, b"ab?&=#/1", 10);
                target.extend_from_slice(&f);
            }
            // reference decomposition
            let before_hash = target.split(|b| *b == b'#').next().unwrap();
            let mut it = before_hash.splitn(2, |b| *b == b'?');
            let rpath = it.next().unwrap();
            assert_eq!(rpath, &path[..]);
            let mut params: BTreeMap<String, String> = BTreeMap::new();
            let mut items = 0;
            for item in it.next().unwrap_or(&[]).split(|b| *b == b'&') {
                if item.is_empty() {
                    continue;
                }
                items += 1;
                let mut kv = item.splitn(2, |b| *b == b'=');
                let k = lossy(kv.next().unwrap_or(&[]));
                let v = lossy(kv.next().unwrap_or(&[]));
                params.insert(k, v);
            }
            let mut names: Vec<String> = params.keys().cloned().collect();
            names.push(absent(r, &names));
            let method = *r.pick(&METHODS);
            let id = srv::script(Script::reply(Ask { params: names.clone(), fields: vec!["a".into(), "b".into(), "c".into()], ..Ask::default() }, "ok"));
            let mut wire = format!("{} ", method).into_bytes();
            wire.extend_from_slice(&target);
            wire.extend_from_slice(format!(" HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nConnection: keep-alive\r\n\r\n", id).as_bytes());
            let detail = || json!({"target": show(&target), "method": method, "expected_params": params});
            let plan = if r.chance(1, 10) { Plan::random(r, wire.len(), &[target.len()]) } else { Plan::whole() };
            let res = link.exchange(&wire, &plan);
            rep.count("targets", 1);
            rep.count("query items", items);
            if items as usize > params.len() {
                rep.count("targets with repeated keys", 1)
            }
            rep.distinct(&target);
            let o = match handled(rep, case, id, &res, &detail) {
                Some(o) => o,
                None => return,
            };
            let bad = (|| -> Result<(), String> {
                if o.tag as usize != n {
                    return Err(format!("path with {} parameters dispatched to handler {}", n, o.tag));
                }
                if o.path != lossy(&path) {
                    return Err(format!("req_path is {:?}, sent {}", o.path, show(&path)));
                }
                for (i, f) in o.fields.iter().enumerate() {
                    if f.0 != segs.get(i).map(|s| lossy(s)) {
                        return Err(format!("field {} is {:?}", i, f));
                    }
                }
                if o.n_params != params.len() {
                    return Err(format!("req_count_param is {}, expected {:?}", o.n_params, params));
                }
                for (k, got) in names.iter().zip(&o.params) {
                    let want = params.get(k).cloned();
                    if got.1 != want.is_some() || got.0 != want {
                        return Err(format!("param {:?} is {:?}, sent {:?}", k, got, want));
                    }
                }
                Ok(())
            })();
            if let Err(e) = bad {
                return rep.violation(case, e, detail());
            }
            rep.sample(|| detail());
        }
    });
}

// ---------------------------------------------------------------- C15, request side

const COOKIE_NAME: &[u8] = b"abcXYZ019!#$%&'*+-.^_`|~";
const COOKIE_VALUE: &[u8] = b"abcXYZ019!#$%&'()*+-./:<=>?@[]^_`{|}~==\"\\,";

pub fn cookie_name(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        return r.pick(&["path", "Domain", "expires", "Secure", "HttpOnly", "SameSite", "Max-Age", "sid", "SID", "a"]).to_string();
    }
    let n = if r.chance(1, 25) { r.range(12, 600) } else { r.range(1, 12) };
    (0..n).map(|_| *r.pick(COOKIE_NAME) as char).collect()
}

pub fn cookie_value(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(200, 4000),
        _ => r.range(1, 24),
    };
    let mut v: String = (0..n).map(|_| *r.pick(COOKIE_VALUE) as char).collect();
    if r.chance(1, 6) {
        // what other conventions take for an encoded character
        let at = r.range(0, v.len());
        v.insert_str(at, r.pick(&["%20", "%3B", "%3D", "%2C", "%22", "%25", "%2F", "%00", "%C3%A9", "+", "\\054", "\\n"]))
    }
    if r.chance(1, 8) { format!("\"{}\"", v) } else { v }
}

pub fn cookies_in(rep: &Report, case: u64, r: &mut Rng, port: u16) {
    let mut link = Link::new(port);
    for _ in 0..r.range(3, 10) {
        if rep.violated() {
            return;
        }
        let n = match r.below(6) {
            0 => 1,
            1 if r.chance(1, 10) => r.range(60, 400),
            1 => r.range(5, 60),
            _ => r.range(1, 5),
        };
        let mut pairs: Vec<(String, String)> = vec![];
        for _ in 0..n {
            let mut k = if !pairs.is_empty() && r.chance(1, 4) { r.pick(&pairs).0.clone() } else { cookie_name(r) };
            if r.chance(1, 6) {
                k = near(r, &k)
            }
            pairs.push((k, cookie_value(r)));
        }
        // pairs are separated by ';' with a space, and by clients that save it without
        let sep = *r.pick(&["; ", "; ", "; ", ";", ";  "]);
        let mut value = String::new();
        for (k, v) in &pairs {
            if !value.is_empty() {
                value.push_str(if r.chance(1, 10) { ";" } else { sep })
            }
            value.push_str(&format!("{}={}", k, v));
        }
        let mut ask: Vec<String> = pairs.iter().map(|p| p.0.clone()).collect();
        ask.push(absent(r, &ask));
        let id = srv::script(Script::reply(Ask { cookies: ask.clone(), ..Ask::default() }, "ok"));
        let name = any_case(r, "Cookie");
        let wire = Req::new(*r.pick(&METHODS), "/c").h("X-Id", &id.to_string()).keep().h(&name, &value).bytes();
        let detail = || json!({"Cookie": clip(&value, 800)});
        let plan = if r.chance(1, 6) { Plan::random(r, wire.len(), &hot_spots(&wire)) } else { Plan::whole() };
        let res = link.exchange(&wire, &plan);
        rep.count("Cookie headers", 1);
        rep.count("cookies sent", pairs.len() as u64);
        rep.distinct(value.as_bytes());
        let o = match handled(rep, case, id, &res, &detail) {
            Some(o) => o,
            None => return,
        };
        let want: Vec<Cookie> = pairs.iter().map(|(k, v)| Cookie::new(k.clone(), v.clone())).collect();
        if o.cookies != want {
            let i = o.cookies.iter().zip(&want).position(|(a, b)| a != b);
            return rep.violation(case, format!("{} cookies sent, {} seen, first difference at {:?}: {}", want.len(), o.cookies.len(), i, clip(&format!("{:?}", o.cookies), 500)), detail());
        }
        // nothing but a name and a value
        for (c, (k, v)) in o.cookies.iter().zip(&pairs) {
            if c.to_string() != format!("{}={}", k, v) {
                return rep.violation(case, format!("the cookie {}={} was seen as {}", k, clip(v, 200), clip(&c.to_string(), 300)), detail());
            }
        }
        for (k, got) in ask.iter().zip(&o.cookie_get) {
            let exp = pairs.iter().find(|p| p.0 == *k).map(|p| Cookie::new(p.0.clone(), p.1.clone()));
            if *got != exp {
                return rep.violation(case, format!("req_cookie_get({:?}) is {:?}", k, got), detail());
            }
        }
        rep.sample(|| detail());
    }
}

// ---------------------------------------------------------------- C16

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// independent RFC 4648 encoder
pub fn b64(src: &[u8]) -> String {
    let mut s = String::new();
    for c in src.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

/// independent strict RFC 4648 decoder; None when the text is not base64
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let pad = b.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut out = vec![];
    let data = &b[..b.len() - pad];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in data {
        let v = B64.iter().position(|x| x == c)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

pub fn c16(rep: &'static Report) {
    let port = match server(rep, &["/c"]) {
        Some(p) => p,
        None => return,
    };
    let max = if rep.opts.thorough { 20000 } else { 2400 };
    run_cases(rep, 4, max, move |rep, case, r| {
        let mut link = Link::new(port);
        let mut before: Option<(String, String)> = None;
        for _ in 0..r.range(3, 10) {
            if rep.violated() {
                return;
            }
            let chars: Vec<char> = "abcXYZ019 !#$%&'()*+,-./;<=>?@[]^_`{|}~é漢😀\u{0}\t\"\\\r\n".chars().collect();
            let user = loop {
                let m = if r.chance(1, 20) { 400 } else { 10 };
                let u = r.string(&chars, 1, m);
                if !u.is_empty() {
                    break u;
                }
            };
            let pass = match r.below(5) {
                0 => String::new(),
                1 => ":".to_string(),
                2 => {
                    let a = r.string(&chars, 0, 6);
                    let b = r.string(&chars, 0, 6);
                    format!("{}:{}::", a, b)
                }
                _ => {
                    let m = if r.chance(1, 20) { 2000 } else { 12 };
                    r.string(&chars, 0, m)
                }
            };
            let (user, pass) = if r.chance(1, 6) { (r.spice(&user), r.spice(&pass)) } else { (user, pass) };
            // credentials that resemble those sent before: all but one character of either
            let (user, pass) = match &before {
                Some((u, p)) if r.chance(1, 3) => {
                    let (mut u, mut p): (Vec<char>, Vec<char>) = (u.chars().collect(), p.chars().collect());
                    let v = if p.is_empty() || r.chance(1, 3) { &mut u } else { &mut p };
                    let i = if r.chance(1, 2) { v.len() - 1 } else { r.below(v.len()) };
                    let c = v[i];
                    v[i] = match r.below(3) {
                        0 if c.is_ascii_uppercase() => c.to_ascii_lowercase(),
                        0 => c.to_ascii_uppercase(),
                        _ => *r.pick(&chars),
                    };
                    rep.count("credentials that resemble the ones before", 1);
                    (u.into_iter().collect(), p.into_iter().collect())
                }
                _ => (user, pass),
            };
            before = Some((user.clone(), pass.clone()));
            let good = b64(format!("{}:{}", user, pass).as_bytes());
            // what the header says, and what the server must make of it
            enum Want {
                Creds(String, String),
                NoCreds,
                Rejected,
                RejectedOrIgnored,
            }
            let (value, want): (Option<String>, Want) = match r.below(16) {
                0 => (None, Want::NoCreds),
                1 => (Some(any_case(r, "Basic").to_string() + &" ".repeat(r.range(1, 3)) + &good), Want::Creds(user.clone(), pass.clone())),
                2 => (Some(r.pick(&["Bearer abc", "Digest username=\"x\"", "Negotiate", "Basi", "B", "", "x", "Basicx dTpw", "BasicdTpw", "漢字漢字 x", "Basi\u{e9} dTpw", "\u{1F600}\u{1F600} dTpw"]).to_string()), Want::RejectedOrIgnored),
                3 => (Some(format!("Basic {}", b64(user.as_bytes()))), if user.contains(':') { continue } else { Want::Rejected }),
                4 => (Some(format!("Basic {}", b64(format!(":{}", pass).as_bytes()))), Want::Rejected),
                5 | 6 => {
                    // corrupt the text
                    let mut t: Vec<u8> = good.clone().into_bytes();
                    match r.below(6) {
                        0 => {
                            t.pop();
                        }
                        1 => {
                            let i = r.below(t.len());
                            t[i] = *r.pick(b"!$%_-.:\"=,");
                        }
                        2 => {
                            let i = r.below(t.len() + 1);
                            t.insert(i, *r.pick(b"!_-=A"));
                        }
                        3 => t.extend_from_slice(b"===="),
                        4 => {
                            let i = r.below(t.len());
                            t[i] = b'='
                        }
                        _ => {
                            let n = r.range(1, t.len());
                            t.truncate(t.len() - n)
                        }
                    }
                    let t = String::from_utf8(t).unwrap();
                    let w = match unb64(&t) {
                        None => Want::Rejected,
                        Some(b) => match b.iter().position(|c| *c == b':') {
                            None | Some(0) => Want::Rejected,
                            Some(i) => match (String::from_utf8(b[..i].to_vec()), String::from_utf8(b[i + 1..].to_vec())) {
                                (Ok(u), Ok(p)) => {
                                    if b64(&b) == t {
                                        Want::Creds(u, p)
                                    } else {
                                        // not the canonical text of these bytes: either reading is acceptable
                                        continue;
                                    }
                                }
                                _ => Want::Rejected,
                            },
                        },
                    };
                    (Some(format!("Basic {}", t)), w)
                }
                7 => {
                    let mut b = format!("{}:{}", user, pass).into_bytes();
                    b.push(*r.pick(&[0xffu8, 0xc0, 0x80]));
                    (Some(format!("Basic {}", b64(&b))), Want::Rejected)
                }
                _ => (Some(format!("Basic {}", good)), Want::Creds(user.clone(), pass.clone())),
            };
            let want = if let Want::Creds(u, p) = want { if u.contains(':') { let full = format!("{}:{}", u, p); let i = full.find(':').unwrap(); if i == 0 { Want::Rejected } else { Want::Creds(full[..i].to_string(), full[i + 1..].to_string()) } } else { Want::Creds(u, p) } } else { want };
            let id = srv::script(Script::reply(Ask::default(), "ok"));
            let mut req = Req::new(*r.pick(&METHODS), "/c").h("X-Id", &id.to_string()).keep();
            if let Some(v) = &value {
                let name = any_case(r, "Authorization");
                req = req.h(&name, v);
            }
            let wire = req.bytes();
            let plan = if r.chance(1, 8) { Plan::random(r, wire.len(), &hot_spots(&wire)) } else { Plan::whole() };
            let detail = || json!({"Authorization": value, "user": user, "password": pass});
            let res = link.exchange(&wire, &plan);
            rep.distinct(value.clone().unwrap_or_default().as_bytes());
            rep.count("requests", 1);
            let seen = srv::peek(id);
            let rejected = matches!(&res, Ok(x) if x.code == 400) && seen.is_empty();
            let verdict: Result<(), String> = match &want {
                Want::Creds(u, p) => {
                    rep.count("valid credentials", 1);
                    match handled(rep, case, id, &res, &detail) {
                        Some(o) if o.user == Some((u.clone(), p.clone())) => Ok(()),
                        Some(o) => Err(format!("credentials {:?}:{:?} arrived as {:?}", u, p, o.user)),
                        None => return,
                    }
                }
                Want::NoCreds => {
                    rep.count("no Authorization header", 1);
                    match handled(rep, case, id, &res, &detail) {
                        Some(o) if o.user.is_none() => Ok(()),
                        Some(o) => Err(format!("no credentials were sent, req_userinfo is {:?}", o.user)),
                        None => return,
                    }
                }
                Want::Rejected => {
                    rep.count("malformed credentials", 1);
                    if rejected {
                        Ok(())
                    } else {
                        Err(format!("malformed Basic credentials: answer {:?}, dispatched with {:?}", res.as_ref().map(|x| x.code), seen.iter().map(|o| o.user.clone()).collect::<Vec<_>>()))
                    }
                }
                Want::RejectedOrIgnored => {
                    rep.count("other schemes", 1);
                    if rejected || (matches!(&res, Ok(x) if x.code == 200) && seen.len() == 1 && seen[0].user.is_none()) {
                        Ok(())
                    } else {
                        Err(format!("no Basic credentials: answer {:?}, dispatched with {:?}", res.as_ref().map(|x| x.code), seen.iter().map(|o| o.user.clone()).collect::<Vec<_>>()))
                    }
                }
            };
            srv::take(id);
            if let Err(e) = verdict {
                return rep.violation(case, e, detail());
            }
            rep.sample(|| detail());
        }
    });
}

pub fn cookie_server(rep: &'static Report) -> Option<u16> {
    server(rep, &["/c"])
}
