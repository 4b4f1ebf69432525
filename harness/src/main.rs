mod client;
mod clock;
mod codec;
mod peer;
mod pool;
mod pure;
mod raw;
mod report;
mod request;
mod respond;
mod rng;
mod conn;
mod inject;
mod leak;
mod limit;
mod logs;
mod robust;
mod route;
mod srv;
mod threads;

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use report::{lock, Opts, Report};

struct Prop {
    id: &'static str,
    run: fn(&'static Report),
    shards: usize,
    /// time budget (s) of the exploration: quick, thorough
    budget: (u64, u64),
}

fn props() -> Vec<Prop> {
    let p = |id, run, shards, quick, thorough| Prop { id, run, shards, budget: (quick, thorough) };
    vec![
        p("C01", pool::c01, 8, 35, 400),
        p("C02", pool::c02, 8, 35, 400),
        p("C03", route::c03, 6, 35, 300),
        p("C04", route::c04, 6, 30, 300),
        p("C05", request::c05, 6, 40, 400),
        p("C06", request::c06, 6, 40, 400),
        p("C07", request::c07, 6, 40, 400),
        p("C08", robust::c08, 6, 40, 400),
        p("C11", conn::c11, 6, 60, 420),
        p("C12", limit::c12, 6, 60, 420),
        p("C09", respond::c09, 6, 40, 400),
        p("C10", respond::c10, 6, 40, 400),
        p("C13", client::c13, 6, 40, 400),
        p("C14", client::c14, 6, 40, 400),
        p("C15", respond::c15, 6, 40, 400),
        p("C17", pure::c17, 4, 12, 120),
        p("C18", codec::c18, 6, 15, 200),
        p("C19", clock::c19, 4, 15, 120),
        p("C20", logs::c20, 6, 30, 240),
        p("C21", pure::c21, 4, 12, 120),
        p("C22", threads::c22, 4, 12, 120),
        p("C16", request::c16, 6, 40, 400),
        p("C23", leak::c23, 6, 45, 400),
    ]
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    if id == "codec" {
        report::install_panic_hook();
        return codec::serve(&std::env::args().nth(2).unwrap());
    }
    if id == "starved" {
        report::install_panic_hook();
        return pool::starved_child(std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1));
    }
    let prop = match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    let opts = Opts {
        prop: id,
        seed: arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: arg("--tier").map(|t| t == "thorough").unwrap_or(false),
        shard: arg("--shard").and_then(|s| s.parse().ok()).unwrap_or(0),
        shards: arg("--shards").and_then(|s| s.parse().ok()).unwrap_or(prop.shards),
        only_case: arg("--case").and_then(|s| s.parse().ok()),
        budget: Duration::from_secs(0),
        scratch: arg("--scratch").unwrap_or_else(|| "/tmp/starry-verif".into()),
    };
    let secs = if opts.thorough { prop.budget.1 } else { prop.budget.0 };
    let opts = Opts { budget: Duration::from_secs(arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(secs)), ..opts };
    let out = arg("--out").unwrap_or_else(|| "/dev/stdout".into());
    if std::env::args().any(|a| a == "--worker") {
        worker(prop, opts, out)
    } else {
        supervise(prop, opts, out)
    }
}

fn worker(prop: Prop, opts: Opts, out: String) {
    report::install_panic_hook();
    srv::init(opts.shard, &opts.scratch);
    let rep: &'static Report = Box::leak(Box::new(Report::new(opts)));
    let hang = Duration::from_secs(150);
    let hb = format!("{}.case", out);
    {
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(300));
            let s = lock(&report::SLOTS);
            let running: Vec<u64> = s.iter().flatten().map(|x| x.case).collect();
            let stuck = s.iter().flatten().find(|x| x.since.elapsed() > hang).map(|x| x.case);
            drop(s);
            let _ = fs::write(&hb, format!("{:?}", running));
            if let Some(case) = stuck {
                rep.violation(case, format!("case {} did not come to an end within {} s: a call into the code under test hangs", case, hang.as_secs()), json!({}));
                let _ = fs::write(&out, rep.to_json().to_string());
                std::process::exit(0);
            }
        });
    }
    if let Err(e) = report::guarded(|| (prop.run)(rep)) {
        rep.inconclusive(format!("harness/src: {}", e));
    }
    let (short, interrupted, refused) = inject::counts();
    for (what, n) in [("short reads and writes injected", short), ("interrupted calls injected", interrupted), ("refused threads injected", refused), ("times the system clock was set", inject::clock_steps())] {
        if n > 0 {
            rep.count(what, n)
        }
    }
    let mut v = rep.to_json();
    v["panics"] = json!(lock(&report::PANICS).iter().take(20).cloned().collect::<Vec<_>>());
    v["orphans"] = json!(lock(&srv::ORPHANS).clone());
    fs::write(&out, v.to_string()).unwrap();
    std::process::exit(0);
}

fn supervise(prop: Prop, opts: Opts, out: String) {
    let exe = std::env::current_exe().unwrap();
    let start = Instant::now();
    let shards: Vec<usize> = match opts.only_case {
        Some(c) => vec![(c % opts.shards as u64) as usize],
        None => (0..opts.shards).collect(),
    };
    let mut kids = vec![];
    for s in shards {
        let dir = format!("{}/s{}", opts.scratch, s);
        fs::create_dir_all(&dir).unwrap();
        let f = format!("{}/result.json", dir);
        let mut c = Command::new(&exe);
        c.arg(&opts.prop).arg("--worker").args(["--seed", &opts.seed.to_string(), "--tier", if opts.thorough { "thorough" } else { "quick" }]);
        c.args(["--shard", &s.to_string(), "--shards", &opts.shards.to_string(), "--out", &f, "--scratch", &dir]);
        c.args(["--budget", &opts.budget.as_secs().to_string()]);
        if let Some(n) = opts.only_case {
            c.args(["--case", &n.to_string()]);
        }
        // local time must not matter
        c.env("TZ", ["UTC", "Asia/Shanghai", "America/New_York", "Asia/Kathmandu"][s % 4]);
        c.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null());
        c.stderr(fs::File::create(format!("{}/stderr", dir)).unwrap());
        kids.push((s, f, dir, c.spawn().unwrap()));
    }
    let mut evals = 0;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut viols: Vec<Value> = vec![];
    let mut incon: Vec<String> = vec![];
    let mut panics: Vec<Value> = vec![];
    let deadline = start + opts.budget + Duration::from_secs(220);
    for (s, f, dir, mut kid) in kids {
        let status = loop {
            match kid.try_wait().unwrap() {
                Some(st) => break Some(st),
                None if Instant::now() > deadline => {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        let running = fs::read_to_string(format!("{}.case", f)).unwrap_or_default();
        let err = fs::read_to_string(format!("{}/stderr", dir)).unwrap_or_default();
        match status {
            None => incon.push(format!("shard {} did not end in time (cases running: {})", s, running)),
            Some(st) => {
                if let Some(sig) = st.signal() {
                    if sig == 9 || sig == 15 {
                        incon.push(format!("shard {} was killed from outside (signal {})", s, sig))
                    } else {
                        viols.push(json!({"case": running, "what": format!("the process died with signal {} while running cases {}", sig, running), "detail": report::clip(&err, 1500)}))
                    }
                } else if st.code() != Some(0) {
                    incon.push(format!("shard {} ended with {:?}: {}", s, st.code(), report::clip(&err, 500)))
                }
            }
        }
        let v: Value = match fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
            Some(v) => v,
            None => continue,
        };
        evals += v["evaluations"].as_u64().unwrap_or(0);
        for d in v["distinct"].as_array().into_iter().flatten() {
            distinct.insert(d.as_u64().unwrap_or(0));
        }
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
        viols.extend(v["violations"].as_array().cloned().unwrap_or_default());
        incon.extend(v["inconclusive"].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()));
        panics.extend(v["panics"].as_array().cloned().unwrap_or_default());
        for o in v["orphans"].as_array().into_iter().flatten() {
            if panics.len() < 20 {
                panics.push(json!({"unidentified dispatch": o}))
            }
        }
    }
    samples.truncate(5);
    viols.truncate(10);
    panics.truncate(20);
    let v = json!({
        "evaluations": evals, "distinct": distinct.len(), "counters": counters, "samples": samples,
        "violations": viols, "inconclusive": incon, "panics": panics, "wall_s": start.elapsed().as_secs_f64(),
    });
    fs::write(&out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
