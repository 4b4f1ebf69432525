//! C20: log files on disk compared with the records the threads of a process emitted.

use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use log::{Level, LevelFilter};
use serde_json::{json, Value};
use starry::utils::log::LogModule;

use crate::raw::{Conn, Req};
use crate::report::{guarded, lock, run_cases, Report};
use crate::rng::Rng;

/// what one appender is expected to do
#[derive(Clone, Debug)]
struct Sink {
    name: String,
    dir: String,
    limit: u64,
    count: u32,
}

#[derive(Clone, Debug)]
struct Setup {
    main: LogModule,
    modules: Vec<LogModule>,
    /// sinks[0] is the main file
    sinks: Vec<Sink>,
}

impl Setup {
    /// the sinks a record has to reach
    fn expect(&self, target: &str, level: Level) -> Vec<usize> {
        let inside = |pkg: &str, t: &str| t == pkg || (t.starts_with(pkg) && t[pkg.len()..].starts_with("::"));
        let enclosing = |t: &str, strict: bool| -> Option<usize> {
            self.modules.iter().enumerate().filter(|(_, m)| inside(&m.pkg, t) && !(strict && m.pkg == t)).max_by_key(|(_, m)| m.pkg.len()).map(|x| x.0)
        };
        let mut at = enclosing(target, false);
        let filter = at.map(|i| self.modules[i].level).unwrap_or(self.main.level);
        if level > filter {
            return vec![];
        }
        let mut out = vec![];
        loop {
            match at {
                None => {
                    out.push(0);
                    break;
                }
                Some(i) => {
                    out.push(i + 1);
                    if !self.modules[i].additive {
                        break;
                    }
                    at = enclosing(&self.modules[i].pkg, true);
                }
            }
        }
        out
    }
}

const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];
const FILTERS: [LevelFilter; 6] = [LevelFilter::Off, LevelFilter::Error, LevelFilter::Warn, LevelFilter::Info, LevelFilter::Debug, LevelFilter::Trace];
const PKGS: [&str; 18] = [
    "app", "app::req", "app::req::deep", "app::requests", "db", "db::pool", "net", "app-x", "a::b::c::d",
    "app_x", "App", "app::Req", "app.req", "app/req", "a", "my-app::sub-mod", "日志::模块", "r2d2::v1_0",
];

fn setup(rng: &mut Rng, base: &str, tag: &str, max: usize, rolling: bool) -> Setup {
    let filter = |rng: &mut Rng| if rng.chance(1, 8) { LevelFilter::Off } else { *rng.pick(&FILTERS) };
    let size = |rng: &mut Rng| if rolling { rng.range(1, 2) as u64 } else { rng.range(8, 1024) as u64 };
    let main_dir = format!("{}/{}main{}", base, tag, rng.pick(&["", "/logs", "/a/b"]));
    let main = LogModule {
        name: rng.pick(&["set", "log", "main.x", "日志"]).to_string(),
        pkg: "".into(),
        level: if rolling { LevelFilter::Info } else { filter(rng) },
        additive: rng.chance(1, 2),
        dir: main_dir.clone(),
        file_max_size: size(rng),
        file_max_count: rng.range(1, 5) as u32,
    };
    let mut sinks = vec![Sink { name: main.name.clone(), dir: main_dir.clone(), limit: main.file_max_size << 20, count: main.file_max_count }];
    let mut pkgs = PKGS.to_vec();
    rng.shuffle(&mut pkgs);
    let mut modules = vec![];
    for (i, pkg) in pkgs.into_iter().take(rng.range(0, max)).enumerate() {
        let own = rng.chance(1, 2);
        let dir = if own { format!("{}/{}mod{}", base, tag, if rng.chance(1, 2) { "".into() } else { format!("/{}", i) }) } else { "".into() };
        let m = LogModule {
            name: format!("mod{}", i),
            pkg: pkg.into(),
            level: if rolling { LevelFilter::Info } else { filter(rng) },
            additive: rng.chance(1, 2),
            dir: dir.clone(),
            file_max_size: if rng.chance(1, 3) { 0 } else { size(rng) },
            file_max_count: if rng.chance(1, 3) { 0 } else { rng.range(1, 4) as u32 },
        };
        sinks.push(Sink {
            name: m.name.clone(),
            dir: if own { dir } else { main_dir.clone() },
            limit: (if m.file_max_size == 0 { main.file_max_size } else { m.file_max_size }) << 20,
            count: if m.file_max_count == 0 { main.file_max_count } else { m.file_max_count },
        });
        modules.push(m);
    }
    Setup { main, modules, sinks }
}

fn target(rng: &mut Rng, s: &Setup) -> String {
    if !s.modules.is_empty() && rng.chance(2, 3) {
        let p = &rng.pick(&s.modules).pkg;
        return match rng.below(9) {
            6 => p.replace('-', "_"),
            7 => p.replace('_', "-"),
            8 => if rng.chance(1, 2) { p.to_uppercase() } else { p.to_lowercase() },
            0..=2 => p.clone(),
            3 => format!("{}::inner", p),
            4 => format!("{}x", p),
            _ => p.rsplitn(2, "::").last().unwrap().to_string(),
        };
    }
    rng.pick(&["other", "app", "db::pool::x", "hyper", "starry::server", "app::req::deep::er", "a::b"]).to_string()
}

fn text(rng: &mut Rng, big: bool) -> String {
    let n = if big { rng.range(3000, 30000) } else { match rng.below(8) { 0 => rng.range(900, 1200), 1 => rng.size(6000), _ => rng.range(0, 60) } };
    match rng.below(3) {
        0 => "payload ".repeat(n / 8 + 1),
        1 => rng.string(&['a', '"', '\\', '\n', '\r', '\t', '{', '}', '%', '$', '<', '\u{1}', 'é', '日', '\u{2028}', '0', ' ', '\u{7f}', '😀'], n / 2, n),
        _ => (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
    }
}

/// has this process had a server with a log configuration of its own?
static SERVED: AtomicBool = AtomicBool::new(false);
/// what the handlers of such servers are to log
static TO_LOG: Mutex<Option<HashMap<String, (String, Level, String)>>> = Mutex::new(None);

/// one emitted record
#[derive(Clone)]
struct Sent {
    thread: usize,
    seq: usize,
    target: String,
    level: Level,
    message: String,
}

fn emit(rng: &mut Rng, s: &Setup, thread: usize, seq: usize, big: bool) -> Sent {
    let target = target(rng, s);
    let level = *rng.pick(&LEVELS);
    let message = format!("{} {} {}", thread, seq, text(rng, big));
    log::log!(target: &target, level, "{}", message);
    Sent { thread, seq, target, level, message }
}

/// every line of a file as (thread, seq, record)
fn lines(path: &Path) -> Result<Vec<(usize, usize, Value)>, String> {
    let read = || fs::read(path).map_err(|e| format!("harness/src: cannot read {}: {}", path.display(), e));
    let mut raw = read()?;
    for i in 0..5 {
        if raw.is_empty() || raw.last() == Some(&b'\n') || !SERVED.load(Ordering::SeqCst) {
            break;
        }
        // a server's own record may be on its way
        std::thread::sleep(std::time::Duration::from_millis(100 << i));
        raw = read()?;
    }
    if !raw.is_empty() && raw.last() != Some(&b'\n') {
        return Err(format!("{} does not end with a complete line", path.display()));
    }
    let mut out = vec![];
    for l in raw.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        let v: Value = serde_json::from_slice(l).map_err(|e| format!("{} has a line that is not JSON ({}): {}", path.display(), e, crate::report::show(l)))?;
        let m = v["message"].as_str().unwrap_or("").to_string();
        let mut p = m.splitn(3, ' ');
        let id = (p.next().and_then(|x| x.parse().ok()), p.next().and_then(|x| x.parse().ok()));
        match id {
            (Some(t), Some(s)) => out.push((t, s, v)),
            // what the servers started here log themselves
            _ if SERVED.load(Ordering::SeqCst) && v["target"].as_str().map_or(false, |t| t.starts_with("starry")) => (),
            _ => return Err(format!("{} has a line nobody logged: {}", path.display(), crate::report::show(l))),
        }
    }
    Ok(out)
}

/// compares one sink with what it should hold; `dropped`: old records may be gone by roll-over
fn compare(sink: &Sink, want: &[&Sent], rolled: bool) -> Result<usize, String> {
    let mut files = vec![format!("{}/{}.log", sink.dir, sink.name)];
    let mut archives = 0;
    for i in 1..=sink.count {
        let f = format!("{}/{}-log-{}.log", sink.dir, sink.name, i);
        if Path::new(&f).exists() {
            if archives + 1 != i {
                return Err(format!("{} exists but number {} does not", f, i - 1));
            }
            archives = i;
            files.push(f);
        }
    }
    if archives > 0 && !rolled {
        let total: usize = want.iter().map(|s| s.message.len() + 400).sum();
        if (total as u64) < sink.limit {
            return Err(format!("{} rolled over after less than {} bytes (limit {})", files[0], total, sink.limit));
        }
    }
    let mut got = vec![];
    let mut bytes = 0;
    for (i, f) in files.iter().enumerate().rev() {
        let n = fs::metadata(f).map(|m| m.len()).unwrap_or(0);
        if i == 0 && n > sink.limit {
            return Err(format!("{} has {} bytes, beyond its limit {}", f, n, sink.limit));
        }
        if i > 0 && n <= sink.limit {
            return Err(format!("{} was rolled over at {} bytes, limit {}", f, n, sink.limit));
        }
        if i > 0 && n > sink.limit + 400_000 {
            return Err(format!("{} was rolled over at {} bytes only, limit {}", f, n, sink.limit));
        }
        bytes += n;
        got.extend(lines(Path::new(f))?);
    }
    let full = archives == sink.count;
    let by_id: HashMap<(usize, usize), &&Sent> = want.iter().map(|s| ((s.thread, s.seq), s)).collect();
    let mut last: BTreeMap<usize, (usize, usize)> = BTreeMap::new(); // thread -> (last seq, lines)
    for (t, q, v) in &got {
        let s = match by_id.get(&(*t, *q)) {
            Some(s) => s,
            None => return Err(format!("{} holds a record that does not belong there: {}", files[0], crate::report::clip(&v.to_string(), 300))),
        };
        if v["message"].as_str() != Some(&s.message) || v["target"].as_str() != Some(&s.target) || v["level"].as_str() != Some(s.level.as_str()) || v["time"].as_str().is_none() {
            return Err(format!("{}: a record was changed: {} instead of {} {} {}", files[0], crate::report::clip(&v.to_string(), 300), s.level, s.target, crate::report::clip(&s.message, 200)));
        }
        let e = last.entry(*t).or_insert((usize::MAX, 0));
        if e.0 != usize::MAX && e.0 >= *q {
            return Err(format!("{}: record {} of thread {} follows record {}", files[0], q, t, e.0));
        }
        *e = (*q, e.1 + 1);
    }
    // per thread everything, or (when old archives were dropped) a gapless tail
    let mut per: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for s in want {
        per.entry(s.thread).or_default().push(s.seq);
    }
    for (t, seqs) in per {
        let have: Vec<usize> = got.iter().filter(|g| g.0 == t).map(|g| g.1).collect();
        let tail = have.len() <= seqs.len() && seqs[seqs.len() - have.len()..] == have[..];
        if have != seqs && !(full && tail) {
            let miss: Vec<&usize> = seqs.iter().filter(|s| !have.contains(s)).take(5).collect();
            return Err(format!("{} ({} archives of {}, {} bytes) lacks records {:?} of thread {} ({} of {} are there)", files[0], archives, sink.count, bytes, miss, t, have.len(), seqs.len()));
        }
    }
    Ok(got.len())
}

fn every_file(dir: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            if e.path().is_dir() {
                every_file(&e.path(), out)
            } else {
                out.push(e.path().display().to_string())
            }
        }
    }
}

/// a server's own threads may still be writing records of their own while the files are read: what is wrong
/// has to stay wrong
fn check_all(base: &str, setups: &[&Setup], want: &[Vec<Vec<&Sent>>], rolled: bool) -> Result<usize, String> {
    let mut got = check_once(base, setups, want, rolled);
    for i in 0..5 {
        if got.is_ok() || !SERVED.load(Ordering::SeqCst) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(200 << i));
        got = check_once(base, setups, want, rolled);
    }
    got
}

fn check_once(base: &str, setups: &[&Setup], want: &[Vec<Vec<&Sent>>], rolled: bool) -> Result<usize, String> {
    let mut n = 0;
    let mut allowed = vec![];
    for (s, w) in setups.iter().zip(want) {
        for (i, sink) in s.sinks.iter().enumerate() {
            let f = format!("{}/{}.log", sink.dir, sink.name);
            if !Path::new(&f).exists() && !rolled {
                return Err(format!("{} was not created", f));
            }
            if Path::new(&f).exists() {
                n += compare(sink, &w[i], rolled)?;
            } else if !w[i].is_empty() {
                // the last record filled the file
                fs::write(&f, "").map_err(|e| e.to_string())?;
                n += compare(sink, &w[i], rolled)?;
            }
            allowed.push(f);
            for k in 1..=sink.count {
                allowed.push(format!("{}/{}-log-{}.log", sink.dir, sink.name, k));
            }
        }
    }
    let mut there = vec![];
    every_file(Path::new(base), &mut there);
    let norm = |p: &str| Path::new(p).components().collect::<std::path::PathBuf>();
    for f in there {
        if !allowed.iter().any(|a| norm(a) == norm(&f)) {
            return Err(format!("unexpected file {}", f));
        }
    }
    Ok(n)
}

fn describe(s: &Setup) -> Value {
    let m = |m: &LogModule| format!("{:?}", m);
    json!({"main": m(&s.main), "modules": s.modules.iter().map(m).collect::<Vec<_>>()})
}

fn configure(rep: &Report, case: u64, s: &Setup) -> bool {
    match guarded(|| s.main.config_log(s.modules.clone())) {
        Ok(()) => true,
        Err(p) => {
            rep.violation(case, format!("config_log panicked: {}", p), describe(s));
            false
        }
    }
}

fn one_setup(rep: &Report, case: u64, rng: &mut Rng, rolling: bool) {
    // absolute or relative to the working directory
    let rel = format!("case{}", case);
    let base = if rng.chance(1, 2) { format!("{}/{}", rep.opts.scratch, rel) } else { rel.clone() };
    let s = Arc::new(setup(rng, &base, "", if rolling { 2 } else { 6 }, rolling));
    let mut all: Vec<Sent> = vec![];
    // the same setup again keeps what is in the files
    let rounds = if rolling { 1 } else { rng.range(1, 3) };
    let mut seq0 = 0;
    for _ in 0..rounds {
        if !configure(rep, case, &s) {
            return;
        }
        let threads = rng.range(1, 5);
        let n = if rolling { rng.range(60, 130) } else { rng.range(5, 120) };
        let hs: Vec<_> = (0..threads).map(|t| {
            let s = s.clone();
            let mut r = Rng::new(rng.u64(), t as u64);
            std::thread::Builder::new().name(format!("logger-{}", t)).spawn(move || guarded(|| (0..n).map(|q| emit(&mut r, &s, t, seq0 + q, rolling)).collect::<Vec<Sent>>())).unwrap()
        }).collect();
        seq0 += n;
        for h in hs {
            match h.join().unwrap() {
                Ok(v) => all.extend(v),
                Err(p) => return rep.violation(case, format!("a logging call panicked: {}", p), describe(&s)),
            }
        }
    }
    rep.count("records emitted", all.len() as u64);
    let mut want: Vec<Vec<&Sent>> = vec![vec![]; s.sinks.len()];
    for r in &all {
        for i in s.expect(&r.target, r.level) {
            want[i].push(r);
        }
    }
    match check_all(&base, &[&s], &[want.clone()], rolling) {
        Ok(n) => {
            rep.count("lines read back", n as u64);
            rep.count(if rolling { "roll-over setups" } else { "routing setups" }, 1);
            if rolling {
                for sink in &s.sinks {
                    rep.count("archives seen", (1..=sink.count).filter(|i| Path::new(&format!("{}/{}-log-{}.log", sink.dir, sink.name, i)).exists()).count() as u64);
                }
            }
        }
        Err(e) if e.contains("harness/src") => rep.inconclusive(e),
        Err(e) => rep.violation(case, e, describe(&s)),
    }
    rep.distinct(describe(&s).to_string().as_bytes());
    rep.sample(|| json!({"setup": describe(&s), "records": all.len(), "expected per file": want.iter().map(|w| w.len()).collect::<Vec<_>>()}));
    let _ = fs::remove_dir_all(&rel);
}

/// setups replace one another while threads log: each record goes to the files of exactly one of them
fn reconfigured(rep: &Report, case: u64, rng: &mut Rng) {
    let rel = format!("case{}", case);
    let n = rng.range(2, 4);
    let setups: Vec<Setup> = (0..n).map(|i| {
        let mut s = setup(rng, &rel, &format!("{}-", i), 5, false);
        // records must be visible in some file of every setup to be accounted for
        s.main.level = LevelFilter::Trace;
        s
    }).collect();
    if !configure(rep, case, &setups[0]) {
        return;
    }
    let epoch = Arc::new(AtomicUsize::new(0)); // setups[epoch] is in force, or being installed after it
    let installed = Arc::new(AtomicUsize::new(0));
    let shared = Arc::new(setups.clone());
    let out: Arc<Mutex<Vec<(Sent, usize, usize)>>> = Default::default();
    let threads = rng.range(1, 4);
    let hs: Vec<_> = (0..threads).map(|t| {
        let (epoch, installed, shared, out) = (epoch.clone(), installed.clone(), shared.clone(), out.clone());
        let mut r = Rng::new(rng.u64(), t as u64);
        std::thread::spawn(move || {
            let mut seq = 0;
            let mut mine = vec![];
            let mut after = 0;
            while after < 10 && seq < 20_000 {
                let lo = installed.load(Ordering::SeqCst);
                if lo + 1 == shared.len() {
                    after += 1
                }
                let s = r.pick(&shared).clone();
                let rec = emit(&mut r, &s, t, seq, false);
                mine.push((rec, lo, epoch.load(Ordering::SeqCst)));
                seq += 1;
            }
            lock(&out).extend(mine);
        })
    }).collect();
    for i in 1..n {
        std::thread::sleep(std::time::Duration::from_micros(rng.range(50, 3000) as u64));
        epoch.store(i, Ordering::SeqCst);
        if !configure(rep, case, &setups[i]) {
            return;
        }
        installed.store(i, Ordering::SeqCst);
    }
    for h in hs {
        let _ = h.join();
    }
    let sent = lock(&out);
    rep.count("records emitted", sent.len() as u64);
    rep.count("reconfigured setups", 1);
    // where each record was found: setup -> sinks
    let mut found: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
    for (i, s) in setups.iter().enumerate() {
        for (k, sink) in s.sinks.iter().enumerate() {
            match lines(Path::new(&format!("{}/{}.log", sink.dir, sink.name))) {
                Ok(ls) => {
                    rep.count("lines read back", ls.len() as u64);
                    let mut last: HashMap<usize, usize> = HashMap::new();
                    for (t, q, _) in ls {
                        if let Some(p) = last.insert(t, q) {
                            if p >= q {
                                return rep.violation(case, format!("{}/{}: record {} of thread {} follows record {}", sink.dir, sink.name, q, t, p), describe(s));
                            }
                        }
                        found.entry((t, q)).or_default().push((i, k));
                    }
                }
                Err(e) => return rep.violation(case, e, describe(s)),
            }
        }
    }
    for (r, lo, hi) in sent.iter() {
        let mut got = found.remove(&(r.thread, r.seq)).unwrap_or_default();
        got.sort();
        let ok = (*lo..=*hi).any(|i| {
            let mut want: Vec<(usize, usize)> = setups[i].expect(&r.target, r.level).into_iter().map(|k| (i, k)).collect();
            want.sort();
            want == got
        });
        // between two setups the level of the one and the files of the other may meet, but nothing is written twice
        let mixed = lo != hi && got.is_empty() && (*lo..=*hi).any(|i| setups[i].expect(&r.target, r.level).is_empty());
        if !ok && !mixed {
            return rep.violation(case, format!("record {} of thread {} ({} {}), logged while setup {} to {} was in force, is in files {:?} (setup, file)", r.seq, r.thread, r.level, r.target, lo, hi, got),
                                 json!(setups.iter().map(describe).collect::<Vec<_>>()));
        }
    }
    if let Some((id, at)) = found.into_iter().next() {
        return rep.violation(case, format!("record {:?} in files {:?} was never logged", id, at), json!({}));
    }
    rep.distinct(format!("r{:?}", setups.iter().map(describe).collect::<Vec<_>>()).as_bytes());
    let _ = fs::remove_dir_all(&rel);
}

/// a server configured with HttpServer::set_log (or not at all): its handlers log, several clients call them
fn served(rep: &Report, case: u64, rng: &mut Rng) {
    static DEFAULT: AtomicBool = AtomicBool::new(false);
    static STARTED: AtomicUsize = AtomicUsize::new(0);
    // the threads of a server stay
    if STARTED.fetch_add(1, Ordering::SeqCst) > 40 {
        return one_setup(rep, case, rng, false);
    }
    let plain = !DEFAULT.swap(true, Ordering::SeqCst);
    let rolling = !plain && rng.chance(1, 3);
    let base = if plain { "tmp".to_string() } else if rng.chance(1, 2) { format!("{}/case{}", rep.opts.scratch, case) } else { format!("case{}", case) };
    let dir = if plain { base.clone() } else { format!("{}{}", base, rng.pick(&["", "/logs", "/a/b"])) };
    let main = LogModule {
        name: if plain { "starry-http-server" } else { "starry-http" }.into(),
        pkg: "".into(),
        level: if plain { LevelFilter::Trace } else if rolling { LevelFilter::Info } else { *rng.pick(&FILTERS) },
        additive: true,
        dir: dir.clone(),
        file_max_size: if plain { 1024 } else if rolling { 1 } else { rng.range(8, 1024) as u64 },
        file_max_count: if plain { 7 } else { rng.range(1, 4) as u32 },
    };
    let s = Setup { sinks: vec![Sink { name: main.name.clone(), dir, limit: main.file_max_size << 20, count: main.file_max_count }], main: main.clone(), modules: vec![] };
    SERVED.store(true, Ordering::SeqCst);
    let mut server = starry::HttpServer::new();
    server.set_pool_size(3);
    if !plain {
        server.set_log(main.level, main.dir.clone(), main.file_max_size, main.file_max_count);
    }
    server.router("/log").get("/it", |c: &mut starry::Context| {
        let id = c.req_header_get("X-Id").unwrap_or_default();
        let rec = lock(&TO_LOG).get_or_insert_with(HashMap::new).remove(&id);
        if let Some((target, level, message)) = rec {
            log::log!(target: &target, level, "{}", message);
        }
        c.response();
    });
    let port = match std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()) {
        Ok(a) => a.port(),
        Err(e) => return rep.inconclusive(format!("no port: {}", e)),
    };
    std::thread::spawn(move || guarded(|| server.listener(("127.0.0.1", port))));
    if !crate::report::wait_until(20, || Conn::open_once(([127, 0, 0, 1], port).into())) {
        return rep.inconclusive("the server did not start".into());
    }
    let threads = rng.range(1, 3);
    let n = if rolling { rng.range(60, 130) } else { rng.range(5, 60) };
    let hs: Vec<_> = (0..threads).map(|t| {
        let mut r = Rng::new(rng.u64(), t as u64);
        std::thread::spawn(move || -> Result<Vec<Sent>, String> {
            let mut c = Conn::open(port)?;
            let mut out = vec![];
            for q in 0..n {
                let rec = Sent { thread: t, seq: q, target: r.pick(&["app", "app::req", "other", "db::pool", "net"]).to_string(), level: *r.pick(&LEVELS), message: format!("{} {} {}", t, q, text(&mut r, rolling)) };
                let id = format!("{}-{}-{}", case, t, q);
                lock(&TO_LOG).get_or_insert_with(HashMap::new).insert(id.clone(), (rec.target.clone(), rec.level, rec.message.clone()));
                c.send(&Req::new("GET", "/log/it").h("X-Id", &id).h("Connection", "keep-alive").bytes());
                let x = c.response().map_err(|e| format!("{:?}", e))?;
                if x.code != 200 || lock(&TO_LOG).get_or_insert_with(HashMap::new).contains_key(&id) {
                    return Err(format!("answer {}", x.code));
                }
                out.push(rec);
            }
            Ok(out)
        })
    }).collect();
    let mut all = vec![];
    for h in hs {
        match h.join().unwrap() {
            Ok(v) => all.extend(v),
            // what the server answers is judged elsewhere
            Err(e) => return rep.inconclusive(format!("logging handler: {}", e)),
        }
    }
    rep.count("records emitted", all.len() as u64);
    let want: Vec<&Sent> = all.iter().filter(|r| !s.expect(&r.target, r.level).is_empty()).collect();
    match check_all(&base, &[&s], &[vec![want.clone()]], true) {
        Ok(n) => {
            rep.count("lines read back", n as u64);
            rep.count(if plain { "servers with the default log" } else { "servers with a log of their own" }, 1);
        }
        Err(e) if e.contains("harness/src") => rep.inconclusive(e),
        Err(e) => rep.violation(case, format!("log of a server{}: {}", if plain { " without set_log" } else { "" }, e), describe(&s)),
    }
    rep.distinct(format!("served {}", describe(&s)).as_bytes());
    if !plain {
        let _ = fs::remove_dir_all(format!("case{}", case));
    }
}

pub fn c20(rep: &'static Report) {
    run_cases(rep, 1, u64::MAX, |rep, case, rng| match rng.below(20) {
        0 => served(rep, case, rng),
        1..=12 => one_setup(rep, case, rng, false),
        13 | 14 => one_setup(rep, case, rng, true),
        _ => reconfigured(rep, case, rng),
    });
}
