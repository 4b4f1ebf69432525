//! In-process server under test and the plan-driven handlers that observe it.

use std::collections::{BTreeMap, HashMap};
use std::net::TcpListener;
use std::sync::atomic::{AtomicU16, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use log::LevelFilter;
use starry::header::{ContentType, Cookie};
use starry::{Context, HttpServer, Status, Version};

use crate::raw::Conn;
use crate::report::{lock, DELIBERATE};

pub type H = fn(&mut Context);

#[derive(Clone, Debug)]
pub enum Act {
    Status(u16),
    Version(&'static str),
    Add(String, String),
    Set(String, String),
    Cookie(Cookie),
    Body(Vec<u8>),
    Slice(&'static [u8]),
    Bodies(Vec<u8>, ContentType),
    Slices(&'static [u8], ContentType),
    Ct(ContentType),
    Respond,
    /// ask for a form value: forces form parsing
    Form(String),
    SleepMs(u64),
    /// takes a copy of the response so far, compares it and then spoils it
    Look(usize, u64),
    Panic,
}

/// copies of the response that were not what the calls had made of it
pub static LOOKS: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());

/// what a handler asks of the request
#[derive(Clone, Debug, Default)]
pub struct Ask {
    pub params: Vec<String>,
    pub fields: Vec<String>,
    pub cookies: Vec<String>,
    pub forms: Vec<String>,
    pub files: Vec<String>,
    pub form: bool,
    /// which accessor comes first: the first one triggers the parsing of the body
    pub first: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub ask: Ask,
    /// acts of the stage with this tag; stages not listed use `acts`
    pub stage: HashMap<u32, Vec<Act>>,
    pub acts: Vec<Act>,
}

impl Script {
    pub fn reply(ask: Ask, body: &str) -> Script {
        Script { ask, stage: HashMap::new(), acts: vec![Act::Body(body.as_bytes().to_vec()), Act::Respond] }
    }
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub tag: u32,
    pub at: Instant,
    pub thread: String,
    pub path: String,
    pub headers: BTreeMap<String, Vec<String>>,
    pub user: Option<(String, String)>,
    pub addr: (String, u16),
    pub ws: bool,
    pub cookies: Vec<Cookie>,
    pub cookie_get: Vec<Option<Cookie>>,
    pub params: Vec<(Option<String>, bool)>,
    pub n_params: usize,
    pub fields: Vec<(Option<String>, bool)>,
    pub n_fields: usize,
    pub forms: Vec<Result<(Option<String>, bool), String>>,
    pub n_form: Result<usize, String>,
    pub files: Vec<Result<Option<(String, usize, Vec<u8>)>, String>>,
}

static SCRIPTS: Mutex<Option<HashMap<u64, Arc<Script>>>> = Mutex::new(None);
static SEEN: Mutex<Option<HashMap<u64, Vec<Obs>>>> = Mutex::new(None);
pub static ORPHANS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static DISPATCHES: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(1);

/// registers what stages do for the request that carries the returned id in X-Id
pub fn script(s: Script) -> u64 {
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    lock(&SCRIPTS).get_or_insert_with(HashMap::new).insert(id, Arc::new(s));
    id
}

/// everything observed for the id so far; forgets the id
pub fn take(id: u64) -> Vec<Obs> {
    lock(&SCRIPTS).get_or_insert_with(HashMap::new).remove(&id);
    lock(&SEEN).get_or_insert_with(HashMap::new).remove(&id).unwrap_or_default()
}

/// the earliest observation for the id, removed
pub fn shift(id: u64) -> Option<Obs> {
    let mut g = lock(&SEEN);
    let v = g.get_or_insert_with(HashMap::new).get_mut(&id)?;
    if v.is_empty() { None } else { Some(v.remove(0)) }
}

pub fn peek(id: u64) -> Vec<Obs> {
    lock(&SEEN).get_or_insert_with(HashMap::new).get(&id).cloned().unwrap_or_default()
}

fn observe(ctx: &mut Context, tag: u32, ask: &Ask, at: Instant) -> Obs {
    let mut o = Obs {
        tag,
        at,
        thread: std::thread::current().name().unwrap_or("").to_string(),
        path: ctx.req_path(),
        headers: ctx.req_header().map().into_iter().collect(),
        user: ctx.req_userinfo().map(|u| (u.username(), u.password())),
        addr: {
            let a = ctx.req_client_addr();
            (a.host(), a.port())
        },
        ws: ctx.req_is_web_socket(),
        cookies: ctx.req_cookies(),
        cookie_get: ask.cookies.iter().map(|c| ctx.req_cookie_get(c)).collect(),
        params: ask.params.iter().map(|k| (ctx.req_param(k.as_str()), ctx.req_have_param(k.as_str()))).collect(),
        n_params: ctx.req_count_param(),
        fields: ask.fields.iter().map(|k| (ctx.req_field(k.as_str()), ctx.req_have_field(k.as_str()))).collect(),
        n_fields: ctx.req_count_fields(),
        forms: vec![],
        n_form: Ok(0),
        files: vec![],
    };
    if ask.form {
        if ask.first == 1 {
            o.n_form = ctx.req_count_form().map_err(|e| e.to_string());
        }
        if ask.first == 2 {
            ask_files(ctx, ask, &mut o)
        }
        for k in &ask.forms {
            let (v, h) = if ask.first == 3 {
                let h = ctx.req_have_form(k.as_str());
                (ctx.req_form(k.as_str()), h)
            } else {
                let v = ctx.req_form(k.as_str());
                (v, ctx.req_have_form(k.as_str()))
            };
            o.forms.push(match (v, h) {
                (Ok(v), Ok(h)) => Ok((v, h)),
                (Err(e), _) | (_, Err(e)) => Err(e.to_string()),
            });
        }
        if ask.first != 2 {
            ask_files(ctx, ask, &mut o)
        }
        if ask.first != 1 {
            o.n_form = ctx.req_count_form().map_err(|e| e.to_string());
        }
    }
    o
}

fn ask_files(ctx: &mut Context, ask: &Ask, o: &mut Obs) {
    for k in &ask.files {
        o.files.push(match ctx.req_form_file(k.as_str()) {
            Ok(f) => Ok(f.map(|f| (f.filename(), f.size(), f.content()))),
            Err(e) => Err(e.to_string()),
        });
    }
}

/// common body of all handlers and filters
pub fn stage(ctx: &mut Context, tag: u32) {
    let at = Instant::now();
    DISPATCHES.fetch_add(1, Ordering::SeqCst);
    let id = ctx.req_header_get("X-Id").and_then(|s| s.parse::<u64>().ok());
    let script = id.and_then(|i| lock(&SCRIPTS).get_or_insert_with(HashMap::new).get(&i).cloned());
    let (id, script) = match (id, script) {
        (Some(i), Some(s)) => (i, s),
        _ => {
            let mut v = lock(&ORPHANS);
            if v.len() < 50 {
                v.push(format!("handler {} got path {:?} headers {:?}", tag, ctx.req_path(), ctx.req_header().map()));
            }
            drop(v);
            ctx.resp_body(b"orphan".to_vec());
            ctx.response();
            return;
        }
    };
    let o = observe(ctx, tag, &script.ask, at);
    lock(&SEEN).get_or_insert_with(HashMap::new).entry(id).or_default().push(o);
    perform(ctx, script.stage.get(&tag).unwrap_or(&script.acts));
}

pub fn perform(ctx: &mut Context, acts: &[Act]) {
    for a in acts {
        match a.clone() {
            Act::Status(c) => ctx.resp_status(Status::from_code(c).unwrap()),
            Act::Version(v) => ctx.resp_version(Version::from_str(v).unwrap()),
            Act::Add(k, v) => {
                if v.len() % 2 == 0 {
                    ctx.resp_add_header(k, v)
                } else {
                    ctx.resp_add_header_str(&k, &v)
                }
            }
            Act::Set(k, v) => {
                if v.len() % 2 == 0 {
                    ctx.resp_set_header(k, v)
                } else {
                    ctx.resp_set_header_str(&k, &v)
                }
            }
            Act::Cookie(c) => ctx.resp_add_cookie(c),
            Act::Body(b) => ctx.resp_body(b),
            Act::Slice(b) => ctx.resp_body_slice(b),
            Act::Bodies(b, c) => ctx.resp_bodies(b, c),
            Act::Slices(b, c) => ctx.resp_body_slices(b, c),
            Act::Ct(c) => ctx.resp_content_type(c),
            Act::Respond => ctx.response(),
            Act::Form(k) => {
                let _ = ctx.req_form(k.as_str());
            }
            Act::SleepMs(n) => std::thread::sleep(Duration::from_millis(n)),
            Act::Look(cookies, token) => {
                let mut x = ctx.get_response();
                let n = x.read_set_cookies().map(|c| c.len());
                x.body();
                if !matches!(n, Ok(n) if n == cookies) {
                    lock(&LOOKS).push((token, format!("get_response has {:?} cookies where {} cookies were set", n.map_err(|e| e.to_string()), cookies)))
                }
                x.add_header_str("X-Spoiled", "1");
                x.write(b"spoiled".to_vec(), starry::header::AcceptEncoding::None);
            }
            Act::Panic => panic!("{}", DELIBERATE),
        }
    }
}

pub fn h<const N: u32>(ctx: &mut Context) {
    stage(ctx, N)
}

/// filters have their own tag range
pub fn f<const N: u32>(ctx: &mut Context) {
    stage(ctx, 1000 + N)
}

pub const SLOTS: usize = 48;

macro_rules! table {
    ($f:ident) => {
        [$f::<0>, $f::<1>, $f::<2>, $f::<3>, $f::<4>, $f::<5>, $f::<6>, $f::<7>, $f::<8>, $f::<9>, $f::<10>, $f::<11>, $f::<12>, $f::<13>, $f::<14>, $f::<15>, $f::<16>, $f::<17>, $f::<18>, $f::<19>, $f::<20>, $f::<21>, $f::<22>, $f::<23>, $f::<24>, $f::<25>, $f::<26>, $f::<27>, $f::<28>, $f::<29>, $f::<30>, $f::<31>, $f::<32>, $f::<33>, $f::<34>, $f::<35>, $f::<36>, $f::<37>, $f::<38>, $f::<39>, $f::<40>, $f::<41>, $f::<42>, $f::<43>, $f::<44>, $f::<45>, $f::<46>, $f::<47>]
    };
}

pub fn handlers() -> [H; SLOTS] {
    table!(h)
}

pub fn filters() -> [H; SLOTS] {
    table!(f)
}

// ---------------------------------------------------------------- starting servers

pub struct Cfg {
    pub pool: usize,
    pub compress: bool,
    pub keepalive: Option<i64>,
    pub level: LevelFilter,
    pub host: &'static str,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { pool: 8, compress: false, keepalive: None, level: LevelFilter::Off, host: "127.0.0.1" }
    }
}

/// settings that no request or response should depend on
pub fn varied(n: usize) -> Cfg {
    match n % 6 {
        0 => Cfg { pool: 24, ..Cfg::default() },
        1 => Cfg { pool: 24, compress: true, ..Cfg::default() },
        2 => Cfg { pool: 9, keepalive: Some(45_000), ..Cfg::default() },
        3 => Cfg { pool: 24, level: LevelFilter::Debug, ..Cfg::default() },
        4 => Cfg { pool: 70, compress: true, keepalive: Some(120_000), ..Cfg::default() },
        _ => Cfg { pool: 24, level: LevelFilter::Trace, ..Cfg::default() },
    }
}

pub struct Srv {
    pub port: u16,
    pub server: HttpServer,
    pub ended: Arc<Mutex<Option<String>>>,
}

static PORT: AtomicU16 = AtomicU16::new(0);
static SCRATCH: Mutex<String> = Mutex::new(String::new());

pub fn init(shard: usize, scratch: &str) {
    crate::inject::sockets(true);
    PORT.store(11000 + (shard as u16 % 14) * 1400 + (std::process::id() % 700) as u16, Ordering::SeqCst);
    *lock(&SCRATCH) = scratch.to_string();
}

pub fn free_port() -> u16 {
    for _ in 0..3000 {
        let p = PORT.fetch_add(1, Ordering::SeqCst);
        if TcpListener::bind(("127.0.0.1", p)).is_ok() {
            return p;
        }
    }
    panic!("harness/src: no free port")
}

pub fn start(cfg: Cfg, setup: impl FnOnce(&HttpServer)) -> Result<Srv, String> {
    let mut server = HttpServer::new();
    server.set_pool_size(cfg.pool);
    if cfg.compress {
        server.set_compress()
    }
    if let Some(k) = cfg.keepalive {
        server.set_keepalive(k)
    }
    server.set_log(cfg.level, format!("{}/log", lock(&SCRATCH)), 40, 3);
    setup(&server);
    let mut why = String::new();
    let host = cfg.host;
    for _ in 0..10 {
        let port = free_port();
        let ended = Arc::new(Mutex::new(None));
        let e = ended.clone();
        let s = server.clone();
        std::thread::Builder::new()
            .name("listener".into())
            .spawn(move || {
                let r = match crate::report::guarded(|| s.listener((host, port))) {
                    Ok(Ok(())) => "listener returned".to_string(),
                    Ok(Err(e)) => format!("listener failed: {}", e),
                    Err(p) => format!("listener panicked: {}", p),
                };
                *lock(&e) = Some(r);
            })
            .unwrap();
        for _ in 0..4000 {
            if lock(&ended).is_some() {
                break;
            }
            if Conn::open_once((host.parse::<std::net::IpAddr>().unwrap(), port).into()) {
                return Ok(Srv { port, server, ended });
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        why = lock(&ended).clone().unwrap_or_else(|| "listener does not accept".into());
    }
    Err(why)
}
