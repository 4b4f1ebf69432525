//! C08: hostile input, faults and failing handlers against a live server; canaries on other connections.

use std::io::Write;
use std::net::TcpStream;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use log::LevelFilter;
use serde_json::{json, Value};
use starry::HttpServer;

use crate::inject;
use crate::raw::{find, hot_spots, Bad, Conn, Plan, Req};
use crate::report::{clip, guarded, lock, run_cases, show, wait_until, Report};
use crate::rng::Rng;
use crate::route::{register, METHODS};
use crate::srv::{self, Act, Ask, Cfg, Script, Srv};

static SRV: OnceLock<Srv> = OnceLock::new();
static SMALL: OnceLock<Mutex<Srv>> = OnceLock::new();
static POOLS: AtomicU64 = AtomicU64::new(0);

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

fn reset(s: TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const libc::linger as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

/// one good request on a fresh connection
fn canary(port: u16) -> Result<(), String> {
    let id = srv::script(Script::reply(Ask::default(), "canary"));
    let mut c = Conn::open(port).map_err(|e| format!("connect: {}", e))?;
    c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).bytes());
    let x = c.response_within(Duration::from_secs(40));
    let n = srv::take(id).len();
    match x {
        Ok(x) if x.code == 200 && x.carries(b"canary") && n == 1 => Ok(()),
        Ok(x) => Err(format!("answer {} {} after {} dispatches", x.code, show(&x.body), n)),
        Err(e) => Err(format!("{:?} after {} dispatches", e, n)),
    }
}

struct Case<'a> {
    rep: &'a Report,
    case: u64,
    port: u16,
}

impl<'a> Case<'a> {
    fn alive(&self, what: &str, detail: &Value) -> bool {
        self.rep.count("canary requests", 1);
        match canary(self.port) {
            Ok(()) => true,
            Err(e) => {
                self.rep.violation(self.case, format!("after {}: a good request on another connection fails: {}", what, e), detail.clone());
                false
            }
        }
    }
}

/// a defect and the status it has to be answered with; None: any error status or a closed connection
fn defective(r: &mut Rng, id: u64) -> (Vec<u8>, Option<u16>, String, bool) {
    let ids = id.to_string();
    let m = *r.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"]);
    let bm = *r.pick(&["POST", "PUT", "PATCH"]);
    let good = |m: &str| Req::new(m, "/r").h("X-Id", &ids).h("Connection", "keep-alive");
    match r.below(10) {
        0 => {
            let bad = r.pick(&["FOO", "get", "Get", "", "GETX", "GE", "POSTT", "G\u{e9}T", "HTTP/1.1", "\0GET", "GET\t", "*", "PATCHES", "LOCK"]).to_string();
            let bad = if r.chance(1, 8) { "X".repeat(r.range(20, 700)) } else { bad };
            (good(&bad).bytes(), Some(405), format!("method {:?}", clip(&bad, 40)), true)
        }
        1 => {
            let bad = *r.pick(&["HTTP/2.0", "HTTP/2", "HTTP/1.2", "HTTP/0.9", "http/1.1", "HTTP/1.1x", "HTTP/1", "", "FTP/1.1", "HTTP/11", "HTTP", "XHTTP/1.1", "HTTP/1.1\t", "HTTP/+1.1"]);
            let mut q = good(m);
            q.version = bad.into();
            (q.bytes(), Some(505), format!("version {:?}", bad), true)
        }
        2 => {
            let line = match r.below(4) {
                0 => format!("{} /r HTTP/1.1 x\r\n", m),
                1 => format!("{} /r\r\n", m),
                2 => format!("{}\r\n", m),
                _ => format!("{} /r  HTTP/1.1\r\n", m),
            };
            let mut b = good(m).bytes();
            let at = find(&b, b"\r\n").unwrap() + 2;
            b.splice(..at, line.bytes());
            // two blanks: an empty version for a strict reader, still nothing that may be dispatched
            let want = if line.contains("  ") { None } else { Some(400) };
            (b, want, format!("request line {:?}", line), true)
        }
        3 => {
            let path = *r.pick(&["/nothing", "/", "/r/x", "/R", "//r", "/r/", "/rr", "r", "*", "http://localhost/r", "/r%2F"]);
            let mut q = good(m);
            q.target = path.as_bytes().to_vec();
            (q.bytes(), Some(404), format!("path {:?} without a route", path), true)
        }
        4 => {
            let mut q = good(m);
            q.headers.retain(|h| h.0 != "Host");
            if r.chance(1, 2) {
                q.headers.push(("X-Host".into(), "localhost".into()))
            }
            q.version = r.pick(&["HTTP/1.1", "HTTP/1.0"]).to_string();
            (q.bytes(), Some(417), "no Host header".into(), true)
        }
        5 | 6 => {
            let v = *r.pick(&["abc", "", "-5", "-2", "1 2", "1.0", "0x10", "99999999999999999999", "12abc", "1e3", "9223372036854775808", "٣", "--1", "5,5", "-"]);
            let mut q = good(bm).h("Content-Length", v).h("Content-Type", "application/x-www-form-urlencoded");
            if r.chance(1, 2) {
                q.body = b"a=b".to_vec()
            }
            (q.bytes(), Some(411), format!("Content-Length {:?}", v), true)
        }
        7 => {
            // body shorter than declared, then end of input
            let n = r.range(1, 5000);
            let have = if r.chance(1, 3) { 0 } else { r.below(n) };
            let mut q = good(if r.chance(3, 4) { bm } else { m }).h("Content-Length", &n.to_string()).h("Content-Type", "application/x-www-form-urlencoded");
            q.body = r.bytes(have);
            (q.bytes(), Some(400), format!("body of {} instead of {} bytes", have, n), false)
        }
        _ => {
            // head cut off, then end of input
            let b = good(m).h("X-Long", &"y".repeat(r.size(3000))).bytes();
            let cut = r.range(1, b.len() - 1);
            let mut b = b;
            b.truncate(cut);
            (b, Some(400), format!("request cut off after {} bytes", cut), false)
        }
    }
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => {
            let n = r.size(6000);
            r.bytes(n)
        }
        1 => b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03".iter().cloned().chain(r.bytes(500)).collect(),
        2 => vec![*r.pick(&[b'\n', b'\r', b' ', 0, 0xff, b':', b'A']); r.range(1, 20000)],
        3 => b"\r\n\r\n\r\n".to_vec(),
        4 => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n".to_vec(),
        5 => {
            // an endless request line or header block
            let mut b = if r.chance(1, 2) { b"GET /".to_vec() } else { b"GET /r HTTP/1.1\r\nHost: x\r\nX-Long: ".to_vec() };
            b.resize(r.range(1, 40) * 40_000, b'a');
            b
        }
        6 => {
            let mut b = b"GET /r HTTP/1.1\r\n".to_vec();
            for i in 0..r.range(1, 4000) {
                b.extend_from_slice(format!("X-{}: {}\r\n", i, i).as_bytes())
            }
            // no Host, no end
            b
        }
        7 => {
            let n = r.range(1, 200);
            (0..n).map(|_| *r.pick(b"GET /r HTP1.\r\n:\0\xff\xc3\x28")).collect()
        }
        _ => b"GET /r HTTP/1.1\nnot a header\n\0\0\n".to_vec(),
    }
}

/// odd but possibly acceptable header blocks: any well-formed answer or a closed connection will do
fn odd(r: &mut Rng, id: u64) -> Vec<u8> {
    let mut q = Req::new(*r.pick(&METHODS), *r.pick(&["/r", "/r?", "/r?&&=&==", "/r?a", "/r#?#", "/r?%", "/r?\u{e9}=\u{1F600}"])).h("X-Id", &id.to_string());
    for _ in 0..r.range(1, 6) {
        let names = ["Authorization", "Cookie", "Content-Type", "Accept-Encoding", "Connection", "Upgrade", "Host", "Expect", "Transfer-Encoding", "Range", "", " ", "X", "Content-Length"];
        let values = [
            "", " ", "=", ";", ",", ":", "\0", "Basic", "Basic ", "Basic =", "Basic ====", "Basic Og==", "Basic YQ==", "Basic \u{1F600}", "Bearer x", "basic Og==", "a", "a=b; c", ";;;=;", "multipart/form-data", "multipart/form-data; boundary=",
            "multipart/form-data; boundary=\"", "multipart/form-data; boundary", "multipart/form-data;boundary==;", "gzip;q=", "gzip;q=\u{e9}", ",,,", "*", "chunked", "upgrade", "close, keep-alive", "0", "00", "+0",
        ];
        let n = *r.pick(&names);
        if n == "Content-Length" {
            q = q.h(n, "0");
        } else {
            q = q.h(n, *r.pick(&values));
        }
    }
    let mut b = q.bytes();
    if r.chance(1, 3) {
        // raw damage
        for _ in 0..r.range(1, 4) {
            let at = r.below(b.len());
            b[at] = r.u64() as u8
        }
    }
    if r.chance(1, 6) {
        let n = r.range(1, 3000);
        b.extend(r.bytes(n))
    }
    b
}

fn broken_form(r: &mut Rng) -> (Vec<u8>, String) {
    let b = "b0undary";
    let ct = r.pick(&["multipart/form-data; boundary=b0undary", "multipart/form-data; boundary=\"b0undary\"", "multipart/form-data", "multipart/form-data; boundary=", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b0undary; x=y"]).to_string();
    let pieces: Vec<String> = vec![
        format!("--{}\r\n", b), format!("--{}--\r\n", b), format!("--{}--", b), format!("--{}", b), format!("--{}\n", b), "\r\n".into(), "\n".into(), "\r".into(), "Content-Disposition: form-data; name=\"a\"\r\n".into(),
        "Content-Disposition: form-data; name=\"f\"; filename=\"x.txt\"\r\n".into(), "Content-Disposition: form-data\r\n".into(), "Content-Disposition: form-data; name=\r\n".into(), "Content-Disposition: form-data; name=\"\r\n".into(),
        "content-disposition: form-data; filename=\"\r\n".into(), "Content-Type: \r\n".into(), "Content-Type:\r\n".into(), "content-type: text/plain\r\n".into(), "value".into(), "\u{e9}\u{1F600}".into(), "a=b&c=d&&=&x".into(), "\0\0".into(),
    ];
    let mut v = vec![];
    for _ in 0..r.range(0, 14) {
        v.extend_from_slice(r.pick(&pieces).as_bytes());
        if r.chance(1, 10) {
            let n = r.range(1, 50);
            v.extend(r.bytes(n))
        }
    }
    (v, ct)
}

/// any one well-formed answer, or the connection is closed
fn answered(c: &mut Conn) -> Result<Option<u16>, String> {
    match c.response_within(Duration::from_secs(40)) {
        Ok(x) => Ok(Some(x.code)),
        Err(Bad::Closed) => Ok(None),
        Err(Bad::Malformed(m)) => Err(format!("malformed answer: {}", m)),
        Err(Bad::Timeout(t)) => Err(format!("neither answered nor closed within 40 s ({})", t)),
    }
}

pub fn c08(rep: &'static Report) {
    // part of the shards runs with every log statement of the code switched on
    let level = if rep.opts.shard % 3 == 0 { LevelFilter::Trace } else { LevelFilter::Off };
    let s = srv::start(Cfg { pool: 48, level, compress: rep.opts.shard % 2 == 1, ..Cfg::default() }, |s| {
        for m in METHODS.iter() {
            register(s, "", m, "/r", srv::handlers()[0], None, None);
        }
    });
    let s = match s {
        Ok(s) => s,
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    };
    let port = s.port;
    let _ = SRV.set(s);
    let s = srv::start(Cfg { pool: 2, level, ..Cfg::default() }, |s| {
        for m in METHODS.iter() {
            register(s, "", m, "/r", srv::handlers()[0], None, None);
        }
    });
    match s {
        Ok(s) => {
            let _ = SMALL.set(Mutex::new(s));
        }
        Err(e) => return rep.violation(0, format!("server did not start: {}", e), json!({})),
    }
    if let Err(e) = canary(port) {
        return rep.violation(0, format!("first request fails: {}", e), json!({}));
    }
    let base = (tasks(), fds());
    let max = if rep.opts.thorough { 40000 } else { 700 };
    run_cases(rep, 3, max, move |rep, case, r| one(rep, case, r, port));
    if rep.violated() || rep.opts.only_case.is_some() {
        return;
    }
    // all clients are gone: what they occupied has to be given back
    let pools = POOLS.load(Ordering::SeqCst) as usize;
    let settled = wait_until(60, || tasks() <= base.0 + 2 * pools + 12 && fds() <= base.1 + pools + 24);
    rep.count("resource checks", 1);
    if !settled {
        rep.violation(0, format!("after all clients left, {} threads (at the start {}) and {} file descriptors ({}) remain", tasks(), base.0, fds(), base.1), json!({"listeners started on taken addresses": pools}));
    }
    for spare in 0..14 {
        if !descriptors(rep, port, spare) {
            break;
        }
    }
    replacements(rep);
    for s in [SRV.get().unwrap(), &*lock(SMALL.get().unwrap())] {
        let ended = lock(&s.ended).clone();
        if let Some(e) = ended {
            rep.violation(0, format!("the listener ended: {}", e), json!({}))
        }
    }
}

/// clients that arrive, or go on, while the process has `spare` descriptors left are served or turned away; later ones are served
fn descriptors(rep: &Report, port: u16, spare: usize) -> bool {
    let hang = |rep: &Report, what: &str, x: Result<crate::raw::Resp, Bad>, n: usize, body: &str| {
        // it may have been turned away for want of a descriptor, but it is not left hanging
        let served = matches!(&x, Ok(x) if x.code == 200 && x.carries(body.as_bytes())) && n == 1;
        if !served && !(matches!(&x, Err(Bad::Closed)) && n == 0) {
            rep.violation(0, format!("{} while the process had {} file descriptors left: {:?} after {} dispatches", what, spare, x.map(|x| x.code), n), json!({}));
            return true;
        }
        rep.count(if served { "clients served without descriptors" } else { "clients turned away for want of descriptors" }, 1);
        false
    };
    let mut kept = vec![];
    for i in 0..4 {
        let mut c = match Conn::open(port) {
            Ok(c) => c,
            Err(e) => {
                rep.inconclusive(format!("connect: {}", e));
                return false;
            }
        };
        if i % 2 == 0 {
            let id = srv::script(Script::reply(Ask::default(), "kept"));
            c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
            let x = c.response_within(Duration::from_secs(40));
            if hang(rep, "a client that came", x, srv::take(id).len(), "kept") {
                return false;
            }
        }
        kept.push((c, srv::script(Script::reply(Ask::default(), "on"))));
    }
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) != 0 {
            rep.inconclusive("harness/src: getrlimit".into());
            return false;
        }
        let ids: Vec<u64> = (0..6).map(|_| srv::script(Script::reply(Ask::default(), "late"))).collect();
        let socks: Vec<i32> = ids.iter().map(|_| libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0)).collect();
        let top = 64 + std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| e.file_name().to_string_lossy().parse::<u64>().ok()).max().unwrap_or(0)).unwrap_or(0);
        let new = libc::rlimit { rlim_cur: top, ..old };
        libc::setrlimit(libc::RLIMIT_NOFILE, &new);
        let mut fill = vec![];
        loop {
            let fd = libc::dup(0);
            if fd < 0 {
                break;
            }
            fill.push(fd);
        }
        for _ in 0..spare.min(fill.len()) {
            libc::close(fill.pop().unwrap());
        }
        let mut addr: libc::sockaddr_in = std::mem::zeroed();
        addr.sin_family = libc::AF_INET as u16;
        addr.sin_port = port.to_be();
        addr.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
        let mut connected = 0;
        for (n, (fd, id)) in socks.iter().zip(&ids).enumerate() {
            if let Some((c, id)) = kept.get_mut(n) {
                c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
            }
            if libc::connect(*fd, &addr as *const libc::sockaddr_in as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32) == 0 {
                connected += 1;
                let q = Req::new("GET", "/r").h("X-Id", &id.to_string());
                let b = if n % 2 == 0 { q.keep().bytes() } else { q.bytes() };
                libc::write(*fd, b.as_ptr() as *const libc::c_void, b.len());
            }
        }
        std::thread::sleep(Duration::from_millis(150));
        let early = ids.iter().filter(|id| !srv::peek(**id).is_empty()).count();
        for fd in fill {
            libc::close(fd);
        }
        libc::setrlimit(libc::RLIMIT_NOFILE, &old);
        use std::os::unix::io::FromRawFd;
        let conns: Vec<Conn> = socks.into_iter().map(|fd| Conn::over(TcpStream::from_raw_fd(fd))).collect();
        rep.count("connections made without a descriptor left", (connected - early) as u64);
        for (what, (mut c, id), body) in conns.into_iter().zip(ids).map(|x| ("a client that connected", x, "late")).chain(kept.into_iter().map(|x| ("a connection that went on", x, "on"))) {
            let x = c.response_within(Duration::from_secs(40));
            if hang(rep, what, x, srv::take(id).len(), body) {
                return false;
            }
        }
    }
    if let Err(e) = canary(port) {
        rep.violation(0, format!("after the process had {} file descriptors left for a moment: {}", spare, e), json!({}));
        return false;
    }
    true
}

/// workers die while the system has no thread to replace them with, for a moment
fn replacements(rep: &Report) {
    let port = lock(SMALL.get().unwrap()).port;
    for n in 1..6 {
        inject::refuse_pools(n);
        for _ in 0..2 {
            let mut s = Script::reply(Ask::default(), "never");
            s.stage.insert(0, vec![Act::Panic]);
            let id = srv::script(s);
            if let Ok(mut c) = Conn::open(port) {
                c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).bytes());
                let _ = answered(&mut c);
            }
            srv::take(id);
        }
        wait_until(2, || inject::left_to_refuse() == 0);
        rep.count("replacements of workers refused by the system", (n - inject::left_to_refuse()) as u64);
        inject::refuse_pools(0);
        for _ in 0..2 {
            if let Err(e) = canary(port) {
                return rep.violation(0, format!("after {} replacements of dead workers were refused by the system: {}", n, e), json!({}));
            }
        }
    }
}

fn one(rep: &Report, case: u64, r: &mut Rng, port: u16) {
    let k = Case { rep, case, port };
    // a bystander connection that exists before the trouble starts
    let mut bystander = match Conn::open(port) {
        Ok(c) => c,
        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
    };
    let opened = Instant::now();
    let hello = |c: &mut Conn, body: &str| -> Result<(), String> {
        let id = srv::script(Script::reply(Ask::default(), body));
        c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
        let x = c.response_within(Duration::from_secs(40));
        let n = srv::take(id).len();
        match x {
            Ok(x) if x.code == 200 && x.carries(body.as_bytes()) && n == 1 => Ok(()),
            x => Err(format!("{:?} after {} dispatches", x.map(|x| (x.code, show(&x.body))), n)),
        }
    };
    if let Err(e) = hello(&mut bystander, "before") {
        return rep.violation(case, format!("a good request fails: {}", e), json!({}));
    }
    for _ in 0..r.range(1, 4) {
        if rep.violated() {
            return;
        }
        let mut detail = json!({});
        let what: String;
        match r.below(16) {
            0..=4 => {
                let id = srv::script(Script::reply(Ask::default(), "handled"));
                let (bytes, want, name, whole) = defective(r, id);
                what = name;
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                let second = r.chance(1, 3);
                if second {
                    if let Err(e) = hello(&mut c, "first") {
                        return rep.violation(case, format!("a good request fails: {}", e), json!({}));
                    }
                }
                // bytes the server did not read when it answers early may turn its FIN into a reset
                let split = r.chance(1, 3);
                let plan = if split { Plan::random(r, bytes.len(), &hot_spots(&bytes)) } else { Plan::whole() };
                c.send_plan(&bytes, &plan);
                let small = (!split && bytes.len() < 1000) || !whole;
                if !whole || r.chance(1, 4) {
                    c.half_close()
                }
                let res = answered(&mut c);
                let n = srv::take(id).len();
                detail = json!({"request": show(&bytes), "defect": what, "on a kept-alive connection": second, "segments": plan.describe()});
                rep.count("requests with one defect", 1);
                rep.distinct(&bytes);
                if n > 0 {
                    return rep.violation(case, format!("{}: the request was dispatched, answer {:?}", what, res), detail);
                }
                match res {
                    Err(e) => return rep.violation(case, format!("{}: {}", what, e), detail),
                    Ok(None) if small && want.is_some() && !c.send_error => return rep.violation(case, format!("{}: closed without an answer, expected {}", what, want.unwrap()), detail),
                    Ok(None) => rep.count("defects: closed", 1),
                    Ok(Some(code)) => {
                        if want.map(|w| w != code).unwrap_or(code < 400) {
                            return rep.violation(case, format!("{}: answered with {}, expected {:?}", what, code, want), detail);
                        }
                        rep.count(&format!("defects: {}", code), 1);
                    }
                }
            }
            5 | 6 => {
                let g = garbage(r);
                what = "garbage".into();
                let before = srv::DISPATCHES.load(Ordering::SeqCst);
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                let plan = Plan::random(r, g.len(), &[]);
                detail = json!({"garbage": show(&g), "bytes": g.len()});
                rep.count("garbage connections", 1);
                rep.distinct(&g[..g.len().min(2000)]);
                c.send_plan(&g, &plan);
                match r.below(4) {
                    0 => reset(c.s),
                    1 => drop(c),
                    _ => {
                        c.half_close();
                        match answered(&mut c) {
                            Err(e) if e.starts_with("malformed") && g.len() > 1000 => rep.count("garbage: answer cut off", 1),
                            Err(e) => return rep.violation(case, format!("garbage: {}", e), detail),
                            Ok(Some(code)) if code < 400 => return rep.violation(case, format!("garbage is answered with {} ({} dispatches)", code, srv::DISPATCHES.load(Ordering::SeqCst) - before), detail),
                            Ok(_) => rep.count("garbage: refused", 1),
                        }
                    }
                }
            }
            7 => {
                let id = srv::script(Script::reply(Ask { form: true, forms: vec!["a".into()], ..Ask::default() }, "handled"));
                let b = odd(r, id);
                what = "odd header block".into();
                detail = json!({"request": show(&b)});
                rep.count("odd requests", 1);
                rep.distinct(&b);
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                c.send(&b);
                c.half_close();
                let res = answered(&mut c);
                let n = srv::take(id).len();
                if let Err(e) = res {
                    return rep.violation(case, format!("odd header block: {}", e), detail);
                }
                if n > 1 {
                    return rep.violation(case, format!("{} dispatches of one request", n), detail);
                }
            }
            8 => {
                let (body, ct) = broken_form(r);
                let ask = Ask { form: true, forms: vec!["a".into(), "f".into()], files: vec!["f".into(), "a".into()], ..Ask::default() };
                let id = srv::script(Script::reply(ask, "handled"));
                what = "broken form body".into();
                detail = json!({"body": show(&body), "type": ct});
                rep.count("broken form bodies", 1);
                rep.distinct(&body);
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                let b = Req::new(*r.pick(&["POST", "PUT", "PATCH"]), "/r").h("X-Id", &id.to_string()).body(body, &ct).bytes();
                let plan = Plan::random(r, b.len(), &hot_spots(&b));
                c.send_plan(&b, &plan);
                let res = answered(&mut c);
                // the answer may be sent by the form parser, before the handler has recorded anything
                wait_until(20, || !srv::peek(id).is_empty());
                let n = srv::take(id).len();
                match res {
                    Err(e) => return rep.violation(case, format!("broken form body: {}", e), detail),
                    Ok(None) => return rep.violation(case, format!("broken form body: closed without an answer ({} dispatches)", n), detail),
                    Ok(Some(_)) if n != 1 => return rep.violation(case, format!("broken form body: {} dispatches", n), detail),
                    Ok(Some(_)) => {}
                }
            }
            9 => {
                // stalled clients hold workers, others are free
                what = "stalled clients".into();
                let n = r.range(1, 4);
                let mut held = vec![];
                for _ in 0..n {
                    let id = srv::script(Script::reply(Ask::default(), "handled"));
                    let b = Req::new("POST", "/r").h("X-Id", &id.to_string()).body(vec![b'x'; 3000], "text/plain").bytes();
                    let cut = r.below(b.len());
                    let mut c = match Conn::open(port) {
                        Ok(c) => c,
                        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                    };
                    c.send(&b[..cut]);
                    held.push((c, id, b, cut));
                }
                detail = json!({"stalled": n});
                rep.count("stalled connections", n as u64);
                if !k.alive("clients stalled", &detail) {
                    return;
                }
                for (mut c, id, b, cut) in held {
                    match r.below(4) {
                        0 => {
                            // the stall ends well
                            c.send(&b[cut..]);
                            let res = c.response_within(Duration::from_secs(40));
                            let n = srv::take(id).len();
                            match res {
                                Ok(x) if x.code == 200 && n == 1 => rep.count("stalled requests completed", 1),
                                x => return rep.violation(case, format!("a request delivered with a pause fails: {:?}, {} dispatches", x.map(|x| x.code), n), json!({"cut": cut})),
                            }
                        }
                        1 => reset(c.s),
                        2 => {
                            c.half_close();
                            let res = answered(&mut c);
                            let n = srv::take(id).len();
                            if n > 0 || matches!(res, Ok(Some(x)) if x < 400) {
                                return rep.violation(case, format!("a request cut off after {} of {} bytes was dispatched {} times, answer {:?}", cut, b.len(), n, res), json!({}));
                            }
                            if let Err(e) = res {
                                return rep.violation(case, format!("cut off request: {}", e), json!({"cut": cut}));
                            }
                        }
                        _ => drop(c),
                    }
                }
            }
            10 | 11 => {
                // handlers that panic: before or after responding, first or later request of a connection
                what = "panicking handler".into();
                let small = r.chance(1, 3);
                let guard = if small { Some(lock(SMALL.get().unwrap())) } else { None };
                let p = guard.as_ref().map(|s| s.port).unwrap_or(port);
                let n = r.range(1, if small { 7 } else { 5 });
                detail = json!({"panics": n, "pool": if small { 2 } else { 48 }});
                let mut conns = vec![];
                for _ in 0..n {
                    let responded = r.chance(1, 2);
                    let mut acts = vec![Act::Body(b"boom".to_vec())];
                    if responded {
                        acts.push(Act::Respond)
                    }
                    if r.chance(1, 3) {
                        acts.push(Act::SleepMs(r.below(10) as u64))
                    }
                    acts.push(Act::Panic);
                    let id = srv::script(Script { acts, ..Script::default() });
                    let mut c = match Conn::open(p) {
                        Ok(c) => c,
                        Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                    };
                    if !small && r.chance(1, 3) {
                        if let Err(e) = hello(&mut c, "first") {
                            return rep.violation(case, format!("a good request fails: {}", e), json!({}));
                        }
                    }
                    c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
                    conns.push((c, id, responded));
                }
                for (mut c, id, responded) in conns {
                    let res = c.response_within(Duration::from_secs(45));
                    let ran = srv::take(id).len();
                    if ran != 1 {
                        return rep.violation(case, format!("a request was dispatched {} times: {:?}", ran, res.map(|x| x.code)), detail);
                    }
                    match res {
                        Ok(x) if responded && x.code == 200 && x.carries(b"boom") => {
                            if let Err(Bad::Malformed(m)) = c.eof_within(Duration::from_secs(45)) {
                                return rep.violation(case, format!("after a panicking handler: {}", m), detail);
                            }
                        }
                        Ok(x) if !responded && x.code >= 500 => {}
                        Ok(x) => return rep.violation(case, format!("a panicking handler (responded: {}) is answered with {} {}", responded, x.code, show(&x.body)), detail),
                        Err(Bad::Closed) if !responded => {}
                        Err(Bad::Timeout(_)) if !responded => return rep.violation(case, "the connection of a panicking handler is neither answered nor closed".into(), detail),
                        Err(e) => return rep.violation(case, format!("the response sent before the panic is lost: {:?}", e), detail),
                    }
                    rep.count("handler panics", 1);
                }
                if small {
                    rep.count("canary requests", 1);
                    if let Err(e) = canary(p) {
                        return rep.violation(case, format!("after {} panicking handlers on a pool of 2: {}", n, e), detail);
                    }
                }
            }
            12 | 13 => {
                // the client leaves while the handler runs or while a large response is being written
                what = "client gone during the request".into();
                let id = srv::script(Script { acts: vec![Act::SleepMs(r.below(8) as u64), Act::Body(vec![b'z'; *r.pick(&[10usize, 100_000, 3_000_000])]), Act::Respond], ..Script::default() });
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                c.send(&Req::new("GET", "/r").h("X-Id", &id.to_string()).keep().bytes());
                if r.chance(1, 2) {
                    std::thread::sleep(Duration::from_millis(r.below(12) as u64))
                }
                if r.chance(1, 2) {
                    reset(c.s)
                } else {
                    drop(c)
                }
                detail = json!({});
                rep.count("clients gone early", 1);
            }
            14 if r.chance(1, 3) => {
                // listening on an address that cannot be bound
                what = "second listener".into();
                POOLS.fetch_add(1, Ordering::SeqCst);
                let mut s = HttpServer::new();
                s.set_pool_size(1);
                s.set_log(LevelFilter::Off, "log".into(), 1024, 3);
                let addr = if r.chance(2, 3) { format!("127.0.0.1:{}", port) } else { r.pick(&["203.0.113.7:8080", "256.1.1.1:80", "nonsense", "127.0.0.1:99999", "127.0.0.1", ""]).to_string() };
                detail = json!({"address": addr});
                let (tx, rx) = std::sync::mpsc::channel();
                let a = addr.clone();
                std::thread::spawn(move || {
                    let _ = tx.send(guarded(|| s.listener(a.as_str()).map_err(|e| e.to_string())));
                });
                rep.count("listeners on bad addresses", 1);
                rep.distinct(addr.as_bytes());
                match rx.recv_timeout(Duration::from_secs(60)) {
                    Ok(Ok(Err(_))) => {}
                    Ok(Ok(Ok(()))) => return rep.violation(case, "listener() on an address that cannot be bound returned Ok".into(), detail),
                    Ok(Err(p)) => return rep.violation(case, format!("listener() on an address that cannot be bound: {}", p), detail),
                    Err(_) => return rep.violation(case, "listener() on an address that cannot be bound does not return".into(), detail),
                }
            }
            15 if r.chance(1, 12) => {
                // more connections than a small pool takes
                what = "flood".into();
                let g = lock(SMALL.get().unwrap());
                let n = r.range(50, 300);
                let mut held: Vec<Conn> = vec![];
                for _ in 0..n {
                    if let Ok(mut c) = Conn::open(g.port) {
                        if r.chance(1, 2) {
                            let _ = c.s.write(b"GET /r HT");
                        }
                        held.push(c)
                    }
                }
                detail = json!({"connections": n});
                rep.count("flood connections", n as u64);
                if r.chance(1, 2) {
                    for c in held {
                        reset(c.s)
                    }
                } else {
                    drop(held)
                }
                // the queue may still be full of dead connections for a moment
                let mut last = String::new();
                let ok = wait_until(40, || match canary(g.port) {
                    Ok(()) => true,
                    Err(e) => {
                        last = e;
                        false
                    }
                });
                rep.count("canary requests", 1);
                if !ok {
                    return rep.violation(case, format!("after a flood of {} connections on a pool of 2: {}", n, last), detail);
                }
            }
            _ => {
                // a good request that is cut into pieces, as a control
                what = "control".into();
                let id = srv::script(Script::reply(Ask::default(), "control"));
                let b = Req::new("GET", "/r").h("X-Id", &id.to_string()).bytes();
                let plan = Plan::random(r, b.len(), &hot_spots(&b));
                let mut c = match Conn::open(port) {
                    Ok(c) => c,
                    Err(e) => return rep.inconclusive(format!("connect: {}", e)),
                };
                c.send_plan(&b, &plan);
                let res = c.response();
                if !matches!(&res, Ok(x) if x.code == 200 && x.carries(b"control")) || srv::take(id).len() != 1 {
                    return rep.violation(case, format!("a good request fails: {:?}", res.map(|x| x.code)), json!({}));
                }
            }
        }
        if !k.alive(&what, &detail) {
            return;
        }
        rep.sample(|| json!({"trouble": what, "detail": detail}));
    }
    // the bystander is not affected (unless the case took so long that its idle time ran out)
    if opened.elapsed() < Duration::from_secs(10) {
        if let Err(e) = hello(&mut bystander, "after") {
            if opened.elapsed() < Duration::from_secs(20) {
                rep.violation(case, format!("a connection that was open before is affected: {}", e), json!({}))
            }
        }
        rep.count("bystander requests", 1)
    }
}
