//! Scripted server for the client under test: accepts on a given address, records what it is sent,
//! answers bytes under a segmentation plan, ends the connection as told.

use std::io::{ErrorKind, Read, Write};
use std::net::{IpAddr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::thread::JoinHandle;
use std::time::{Duration, Instant};

use crate::raw::{find, Plan};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// all bytes delivered, then FIN
    Close,
    /// RST: bytes not read yet may be lost
    Reset,
    /// keeps the connection open until the client closes it
    Open,
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub bytes: Vec<u8>,
    pub plan: Plan,
    pub end: End,
    /// pause between the last byte and the end
    pub linger_ms: u64,
    /// does not wait for the request before answering
    pub eager: bool,
}

#[derive(Debug, Default)]
pub struct Heard {
    /// everything the client sent, per connection
    pub conns: Vec<Vec<u8>>,
    /// the client was still there when the last byte was written
    pub delivered: bool,
    /// the client had not closed a connection long after all of the answer was there
    pub waiting: bool,
    pub errors: Vec<String>,
}

pub struct Peer {
    pub addr: SocketAddr,
    stop: Arc<AtomicBool>,
    h: Option<JoinHandle<Heard>>,
}

pub fn linger_zero(s: &TcpStream) {
    use std::os::unix::io::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const libc::linger as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn one(mut s: TcpStream, reply: &Reply, heard: &mut Heard) {
    let deadline = Instant::now() + Duration::from_secs(30);
    let mut got = vec![];
    let mut chunk = [0u8; 16384];
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_millis(200)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(30)));
    let mut eof = false;
    while !reply.eager && find(&got, b"\r\n\r\n").is_none() && !eof {
        if Instant::now() > deadline {
            heard.errors.push("no complete request head within 30 s".into());
            break;
        }
        match s.read(&mut chunk) {
            Ok(0) => eof = true,
            Ok(n) => got.extend_from_slice(&chunk[..n]),
            Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
            Err(_) => eof = true,
        }
    }
    let mut from = 0;
    let mut ok = true;
    let mut cuts = reply.plan.cuts.clone();
    cuts.push((reply.bytes.len(), 0));
    for (cut, pause) in cuts {
        let to = cut.min(reply.bytes.len());
        if to > from && ok {
            ok = s.write_all(&reply.bytes[from..to]).is_ok();
            from = to;
            if pause > 0 {
                std::thread::sleep(Duration::from_micros(pause))
            }
        } else if cut == 0 && pause > 0 {
            std::thread::sleep(Duration::from_micros(pause))
        }
    }
    heard.delivered = ok;
    if reply.linger_ms > 0 {
        std::thread::sleep(Duration::from_millis(reply.linger_ms))
    }
    match reply.end {
        End::Reset => {
            linger_zero(&s);
            heard.conns.push(got);
        }
        End::Open => {
            let late = Instant::now() + Duration::from_secs(20);
            while !eof && Instant::now() < late {
                match s.read(&mut chunk) {
                    Ok(0) => eof = true,
                    Ok(n) => got.extend_from_slice(&chunk[..n]),
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                    Err(_) => eof = true,
                }
            }
            heard.waiting |= !eof;
            heard.conns.push(got);
        }
        End::Close => {
            let _ = s.shutdown(Shutdown::Write);
            // read what is left, so that closing does not reset the connection
            while !eof && Instant::now() < deadline {
                match s.read(&mut chunk) {
                    Ok(0) => eof = true,
                    Ok(n) => got.extend_from_slice(&chunk[..n]),
                    Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                    Err(_) => eof = true,
                }
            }
            heard.conns.push(got);
        }
    }
}

impl Peer {
    pub fn start(ip: IpAddr, port: u16, reply: Reply) -> Result<Peer, String> {
        let l = TcpListener::bind((ip, port)).map_err(|e| e.to_string())?;
        let addr = l.local_addr().map_err(|e| e.to_string())?;
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        let h = std::thread::spawn(move || {
            let mut heard = Heard::default();
            let mut idle = 0u32;
            loop {
                match l.accept() {
                    Ok((s, _)) => {
                        let _ = s.set_nonblocking(false);
                        one(s, &reply, &mut heard);
                        idle = 0;
                    }
                    Err(e) if e.kind() == ErrorKind::WouldBlock => {
                        if st.load(Ordering::SeqCst) {
                            return heard;
                        }
                        idle += 1;
                        std::thread::sleep(Duration::from_micros(if idle < 200 { 50 } else { 1000 }))
                    }
                    Err(e) => {
                        heard.errors.push(e.to_string());
                        if st.load(Ordering::SeqCst) {
                            return heard;
                        }
                        std::thread::sleep(Duration::from_millis(1))
                    }
                }
            }
        });
        Ok(Peer { addr, stop, h: Some(h) })
    }

    /// on some loopback address: many short connections to one address would use up its ports
    pub fn local(r: &mut Rng, reply: Reply) -> Result<Peer, String> {
        let mut last = String::new();
        for _ in 0..20 {
            let ip = [127, r.range(1, 60) as u8, r.below(250) as u8, r.range(2, 250) as u8];
            match Peer::start(ip.into(), 0, reply.clone()) {
                Ok(p) => return Ok(p),
                Err(e) => last = e,
            }
        }
        Err(last)
    }

    /// what was heard, once the client call has come back
    pub fn done(mut self) -> Heard {
        self.stop.store(true, Ordering::SeqCst);
        self.h.take().map(|h| h.join().unwrap_or_default()).unwrap_or_default()
    }
}

impl Reply {
    pub fn of(bytes: Vec<u8>) -> Reply {
        Reply { bytes, plan: Plan::whole(), end: End::Close, linger_ms: 0, eager: false }
    }
}
