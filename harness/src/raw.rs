//! Raw socket client: sends bytes under a segmentation plan and parses responses strictly,
//! independently of the code under test.

use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, SocketAddr, SocketAddrV4, TcpStream};
use std::time::{Duration, Instant};

use crate::report::show;
use crate::rng::Rng;

pub const PATIENCE: Duration = Duration::from_secs(25);

#[derive(Clone, Debug)]
pub struct Resp {
    pub version: String,
    pub code: u16,
    pub phrase: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// a response to HEAD, or with status 204 or 304: it ends with its header
    pub bodiless: bool,
}

impl Resp {
    /// does it carry this body, or none if it cannot have one?
    pub fn carries(&self, want: &[u8]) -> bool {
        self.body == if self.bodiless { &[][..] } else { want }
    }
    pub fn all(&self, name: &str) -> Vec<String> {
        self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone()).collect()
    }
    pub fn one(&self, name: &str) -> Option<String> {
        self.all(name).into_iter().next()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// connection closed before the first byte of a response
    Closed,
    /// nothing (more) arrived in time
    Timeout(String),
    /// not a well-framed response
    Malformed(String),
}

pub struct Conn {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub eof: bool,
    pub send_error: bool,
    /// the first bytes sent since the last response
    lead: Vec<u8>,
}

impl Conn {
    pub fn open(port: u16) -> Result<Conn, String> {
        Conn::open_to(([127, 0, 0, 1], port).into(), None)
    }

    /// to the address, from the local IPv4 address if one is given
    pub fn open_to(addr: SocketAddr, from: Option<[u8; 4]>) -> Result<Conn, String> {
        let mut last = String::new();
        for _ in 0..50 {
            let s = match (from, addr) {
                (Some(ip), SocketAddr::V4(a)) => connect_from(ip, a),
                _ => TcpStream::connect_timeout(&addr, Duration::from_secs(10)),
            };
            match s {
                Ok(s) => {
                    s.set_nodelay(true).map_err(|e| e.to_string())?;
                    return Ok(Conn { s, buf: vec![], eof: false, send_error: false, lead: vec![] });
                }
                Err(e) => {
                    last = e.to_string();
                    // out of local ports: they come back after a minute
                    std::thread::sleep(Duration::from_millis(if e.kind() == ErrorKind::AddrNotAvailable { 1500 } else { 40 }));
                }
            }
        }
        Err(last)
    }

    /// a socket connected elsewhere
    pub fn over(s: TcpStream) -> Conn {
        Conn { s, buf: vec![], eof: false, send_error: false, lead: vec![] }
    }

    /// does somebody accept on the port?
    pub fn open_once(addr: SocketAddr) -> bool {
        TcpStream::connect_timeout(&addr, Duration::from_secs(5)).is_ok()
    }

    pub fn local_port(&self) -> u16 {
        self.s.local_addr().map(|a| a.port()).unwrap_or(0)
    }

    /// sends everything at once; an error (peer already closed) is noted, the response may still be readable
    pub fn send(&mut self, b: &[u8]) {
        if self.lead.len() < 5 {
            self.lead.extend_from_slice(&b[..b.len().min(5 - self.lead.len())])
        }
        let _ = self.s.set_write_timeout(Some(PATIENCE));
        if self.s.write_all(b).is_err() {
            self.send_error = true
        }
    }

    /// sends the bytes cut into segments with pauses between them
    pub fn send_plan(&mut self, b: &[u8], plan: &Plan) {
        let mut from = 0;
        for (cut, pause_us) in plan.cuts.iter() {
            let to = (*cut).min(b.len());
            if to > from {
                self.send(&b[from..to]);
                from = to;
                if *pause_us > 0 {
                    std::thread::sleep(Duration::from_micros(*pause_us))
                }
            }
            if self.send_error {
                return;
            }
        }
        if from < b.len() {
            self.send(&b[from..])
        }
    }

    fn fill(&mut self, deadline: Instant) -> Result<usize, Bad> {
        if self.eof {
            return Ok(0);
        }
        let mut chunk = [0u8; 65536];
        loop {
            let now = Instant::now();
            if now >= deadline {
                return Err(Bad::Timeout(format!("had {}", show(&self.buf))));
            }
            quickack(&self.s);
            let _ = self.s.set_read_timeout(Some((deadline - now).max(Duration::from_millis(1))));
            match self.s.read(&mut chunk) {
                Ok(0) => {
                    self.eof = true;
                    return Ok(0);
                }
                Ok(n) => {
                    self.buf.extend_from_slice(&chunk[..n]);
                    return Ok(n);
                }
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => continue,
                Err(_) => {
                    // reset by the peer: what was received stays, nothing more will come
                    self.eof = true;
                    return Ok(0);
                }
            }
        }
    }

    /// reads one response framed by Content-Length
    pub fn response(&mut self) -> Result<Resp, Bad> {
        self.response_within(PATIENCE)
    }

    pub fn response_within(&mut self, patience: Duration) -> Result<Resp, Bad> {
        let deadline = Instant::now() + patience;
        let mut scanned = 0;
        let head_end = loop {
            if let Some(i) = find(&self.buf[scanned..], b"\r\n\r\n") {
                break scanned + i;
            }
            scanned = self.buf.len().saturating_sub(3);
            if self.fill(deadline)? == 0 {
                return Err(if self.buf.is_empty() { Bad::Closed } else { Bad::Malformed(format!("connection closed inside the response head: {}", show(&self.buf))) });
            }
        };
        let mut r = parse_head(&self.buf[..head_end]).map_err(|e| Bad::Malformed(format!("{} in {}", e, show(&self.buf))))?;
        self.buf.drain(..head_end + 4);
        let lens = r.all("Content-Length");
        r.bodiless = self.lead == b"HEAD " || r.code == 204 || r.code == 304;
        self.lead.clear();
        if r.bodiless && lens.is_empty() {
            return Ok(r);
        }
        let len: usize = match lens.as_slice() {
            [l] if !l.is_empty() && l.bytes().all(|b| b.is_ascii_digit()) => l.parse().map_err(|_| Bad::Malformed(format!("Content-Length {}", l)))?,
            _ => return Err(Bad::Malformed(format!("response needs exactly one numeric Content-Length, has {:?} (status {})", lens, r.code))),
        };
        if r.code == 204 {
            return Err(Bad::Malformed(format!("Content-Length {} with status 204", len)));
        }
        if r.bodiless {
            return Ok(r);
        }
        while self.buf.len() < len {
            if self.fill(deadline)? == 0 {
                return Err(Bad::Malformed(format!("body shorter than Content-Length: {} of {} bytes (status {})", self.buf.len(), len, r.code)));
            }
        }
        r.body = self.buf.drain(..len).collect();
        Ok(r)
    }

    /// true when the peer closes within the given time without sending anything more
    pub fn eof_within(&mut self, d: Duration) -> Result<(), Bad> {
        let deadline = Instant::now() + d;
        loop {
            if !self.buf.is_empty() {
                return Err(Bad::Malformed(format!("unexpected extra bytes {}", show(&self.buf))));
            }
            if self.fill(deadline)? == 0 {
                return Ok(());
            }
        }
    }

    /// still open and silent during the given time
    pub fn silent_for(&mut self, d: Duration) -> Result<(), Bad> {
        if !self.buf.is_empty() {
            return Err(Bad::Malformed(format!("unexpected extra bytes {}", show(&self.buf))));
        }
        match self.fill(Instant::now() + d) {
            Err(Bad::Timeout(_)) => Ok(()),
            Err(e) => Err(e),
            Ok(0) => Err(Bad::Closed),
            Ok(_) => Err(Bad::Malformed(format!("unexpected extra bytes {}", show(&self.buf)))),
        }
    }

    pub fn half_close(&mut self) {
        let _ = self.s.shutdown(Shutdown::Write);
    }
}

fn connect_from(ip: [u8; 4], to: SocketAddrV4) -> std::io::Result<TcpStream> {
    use std::os::unix::io::FromRawFd;
    let name = |ip: [u8; 4], port: u16| libc::sockaddr_in { sin_family: libc::AF_INET as u16, sin_port: port.to_be(), sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(ip) }, sin_zero: [0; 8] };
    let len = std::mem::size_of::<libc::sockaddr_in>() as u32;
    let (a, b) = (name(ip, 0), name(to.ip().octets(), to.port()));
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        if libc::bind(fd, &a as *const libc::sockaddr_in as *const libc::sockaddr, len) != 0 || libc::connect(fd, &b as *const libc::sockaddr_in as *const libc::sockaddr, len) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(s)
    }
}

/// The server writes its response in small pieces; acknowledging at once keeps the monitors fast
/// (otherwise Nagle and delayed ACK add 40 ms to each response).
pub fn quickack(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const libc::c_int as *const libc::c_void, std::mem::size_of::<libc::c_int>() as u32);
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn parse_head(b: &[u8]) -> Result<Resp, String> {
    let s = String::from_utf8_lossy(b).to_string();
    let mut lines = s.split("\r\n");
    let first = lines.next().unwrap_or("");
    let mut it = first.splitn(3, ' ');
    let version = it.next().unwrap_or("").to_string();
    let code = it.next().unwrap_or("");
    let phrase = it.next().ok_or("no reason phrase separator")?.to_string();
    let vb = version.as_bytes();
    if vb.len() != 8 || !version.starts_with("HTTP/") || vb[6] != b'.' || !vb[5].is_ascii_digit() || !vb[7].is_ascii_digit() {
        return Err(format!("bad version {:?}", version));
    }
    if code.len() != 3 || !code.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("bad status code {:?}", code));
    }
    let mut headers = vec![];
    for l in lines {
        let (k, v) = l.split_once(':').ok_or_else(|| format!("header line without ':' {:?}", l))?;
        if k.is_empty() || !k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) {
            return Err(format!("bad header name {:?}", k));
        }
        if v.contains('\n') || v.contains('\r') {
            return Err(format!("bare line break in header {:?}", l));
        }
        headers.push((k.to_string(), v.trim_matches(|c| c == ' ' || c == '\t').to_string()));
    }
    Ok(Resp { version, code: code.parse().unwrap(), phrase, headers, body: vec![], bodiless: false })
}

/// where the byte stream is cut into segments, and the pause (microseconds) after each
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub cuts: Vec<(usize, u64)>,
}

impl Plan {
    pub fn whole() -> Plan {
        Plan { cuts: vec![] }
    }
    /// random cuts, biased to the places named in `hot` (line ends, head/body border)
    pub fn random(r: &mut Rng, len: usize, hot: &[usize]) -> Plan {
        let mut at: Vec<usize> = vec![];
        match r.below(5) {
            0 => {}
            1 if len <= 600 => at = (1..len).collect(),
            2 => {
                for h in hot {
                    if r.chance(2, 3) {
                        at.push(h.saturating_add(r.below(5)).saturating_sub(2))
                    }
                }
            }
            3 => {
                let step = *r.pick(&[7usize, 64, 1000, 1024, 1025, 4096]);
                let mut x = step;
                while x < len && at.len() < 40 {
                    at.push(x);
                    x += step
                }
            }
            _ => {
                for _ in 0..r.range(1, 6) {
                    at.push(r.below(len.max(1)))
                }
                if !hot.is_empty() {
                    at.push(*r.pick(hot))
                }
            }
        }
        at.retain(|c| *c > 0 && *c < len);
        at.sort();
        at.dedup();
        let many = at.len() > 12;
        let cuts = at
            .into_iter()
            .map(|c| {
                let p = if many {
                    if r.chance(1, 3) { r.range(20, 150) as u64 } else { 0 }
                } else {
                    *r.pick(&[0u64, 200, 800, 2000])
                };
                (c, p)
            })
            .collect();
        Plan { cuts }
    }
    pub fn describe(&self) -> String {
        format!("{} cuts {:?}", self.cuts.len(), self.cuts.iter().take(12).map(|c| c.0).collect::<Vec<_>>())
    }
}

/// positions of line ends and of the head/body border
pub fn hot_spots(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for (i, c) in b.iter().enumerate() {
        if *c == b'\n' {
            v.push(i + 1);
            if v.len() > 40 {
                break;
            }
        }
    }
    if let Some(i) = find(b, b"\r\n\r\n") {
        v.push(i);
        v.push(i + 2);
        v.push(i + 4);
    }
    v
}

/// a request in the making
#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: Vec<u8>,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Req {
    pub fn new(method: &str, target: &str) -> Req {
        Req { method: method.to_string(), target: target.as_bytes().to_vec(), version: "HTTP/1.1".into(), headers: vec![("Host".into(), "localhost".into())], body: vec![] }
    }
    pub fn h(mut self, k: &str, v: &str) -> Req {
        self.headers.push((k.to_string(), v.to_string()));
        self
    }
    pub fn body(mut self, b: Vec<u8>, ct: &str) -> Req {
        self.headers.push(("Content-Type".into(), ct.into()));
        self.headers.push(("Content-Length".into(), b.len().to_string()));
        self.body = b;
        self
    }
    pub fn keep(self) -> Req {
        self.h("Connection", "keep-alive")
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        b.extend_from_slice(self.method.as_bytes());
        b.push(b' ');
        b.extend_from_slice(&self.target);
        b.push(b' ');
        b.extend_from_slice(self.version.as_bytes());
        b.extend_from_slice(b"\r\n");
        for (k, v) in &self.headers {
            b.extend_from_slice(format!("{}: {}\r\n", k, v).as_bytes());
        }
        b.extend_from_slice(b"\r\n");
        b.extend_from_slice(&self.body);
        b
    }
}
