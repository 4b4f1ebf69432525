"""C01 / C02: the real thread pool interpreted by Miri (crate ../miri): its random scheduler and virtual clock decide the
interleaving, and it reports data races, undefined behaviour and deadlocks."""
import fcntl, hashlib, os, re, shutil, signal, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(HERE, "miri")
TARGET = os.path.join(CRATE, "target")
REPO = "/repo"
RATES = ["0.01", "0.05", "0.2", "0.5"]


def _env(flags):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "nightly-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
              "CARGO_TARGET_DIR": TARGET, "MIRIFLAGS": flags})
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["PATH"] = e.get("PATH", "") + ":" + os.path.join(os.path.expanduser("~"), ".cargo", "bin") + ":/usr/local/cargo/bin"
    return e


def _run(flags, limit):
    """output of one run of the crate under Miri, or None if it did not end in time"""
    p = subprocess.Popen(["cargo", "miri", "run", "-q", "--offline", "--locked"], cwd=CRATE, env=_env(flags), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def _hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(CRATE, "src")):
        for d, _, names in sorted(os.walk(base)):
            for n in sorted(names):
                h.update(os.path.join(d, n).encode() + b"\0")
                with open(os.path.join(d, n), "rb") as f:
                    h.update(f.read())
    for n in (os.path.join(REPO, "Cargo.toml"), os.path.join(CRATE, "Cargo.toml"), os.path.join(CRATE, "Cargo.lock")):
        if os.path.isfile(n):
            with open(n, "rb") as f:
                h.update(f.read())
    return h.hexdigest()


FLAGS = "-Zmiri-ignore-leaks -Zmiri-isolation-error=hide -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"


def build():
    """compiles the crate for Miri from /repo's working tree; '' or what went wrong"""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, want = os.path.join(TARGET, ".verif-stamp"), _hash()
        if os.path.exists(stamp) and open(stamp).read().strip() == want:
            return ""
        # never trust time stamps
        for n in ("starry", "pool-miri"):
            shutil.rmtree(os.path.join(TARGET, "miri", "x86_64-unknown-linux-gnu", "debug", "build", n), ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
        rc, out = _run(FLAGS + " -Zmiri-seed=0", 500)
        if not re.search(r"^(RUN|VIOLATION)|^error: .*(Undefined|deadlock|abnormal termination)", out, re.M):
            return out[-600:] or "no output"
        with open(stamp, "w") as f:
            f.write(want)
        return ""


def pool(res, binary, scratch, seed, tier, budget=None, part=0):
    t0 = time.time()
    why = build()
    if why:
        res["inconclusive"].append("the Miri stage did not run: " + why)
        return
    budget = 700 if tier == "thorough" else 35
    sigs, runs, tasks, refused, panics, events, sizes = set(), 0, 0, 0, 0, 0, set()
    first, chunk, k = (seed * 2 + part) * 1000000, 40, 0
    start = time.time()
    while time.time() - start < budget:
        lo, rate = first + k * chunk, RATES[k % len(RATES)]
        k += 1
        rc, out = _run("%s -Zmiri-preemption-rate=%s -Zmiri-many-seeds=%d..%d" % (FLAGS, rate, lo, lo + chunk), 300)
        for m in re.finditer(r"^RUN size (\d+) queue (\d+) submitters (\d+) tasks (\d+) refused (\d+) panics (\d+) events (\d+) sig (\w+)$", out, re.M):
            runs += 1
            sizes.add((m.group(1), m.group(2), m.group(3)))
            tasks += int(m.group(4)); refused += int(m.group(5)); panics += int(m.group(6)); events += int(m.group(7))
            sigs.add(m.group(8))
        if rc is None:
            res["inconclusive"].append("Miri did not end within 300 s on the seeds from %d" % lo)
            break
        if rc != 0:
            bad = re.search(r"^VIOLATION (.*)$", out, re.M)
            err = re.search(r"^error: (Undefined Behavior: .*|the evaluated program deadlocked.*|deadlock.*|abnormal termination.*)$", out, re.M)
            which = re.search(r"FAILING SEED: (\d+)", out)
            s = which.group(1) if which else str(lo)
            how = {"flags": "%s -Zmiri-preemption-rate=%s -Zmiri-seed=%s" % (FLAGS, rate, s), "crate": "miri", "output": out[-3000:]}
            if bad or err:
                res["violations"].append({"case": "miri", "what": "under Miri (seed %s, preemption rate %s): %s" % (s, rate, bad.group(1) if bad else err.group(1)), "detail": how})
            else:
                res["inconclusive"].append("Miri ended with %s on the seeds from %d: %s" % (rc, lo, out[-400:]))
            break
    res["evaluations"] += runs
    res["distinct"] += len(sigs)
    res["counters"].update({"schedules under Miri": runs, "distinct schedules under Miri": len(sigs), "tasks under Miri": tasks, "refused tasks under Miri": refused,
                            "panics under Miri": panics, "events under Miri": events, "shapes (size, queue, submitters) under Miri": len(sizes),
                            "seconds under Miri": round(time.time() - t0, 1)})


def pool_c01(res, binary, scratch, seed, tier):
    pool(res, binary, scratch, seed, tier, part=0)


def pool_c02(res, binary, scratch, seed, tier):
    pool(res, binary, scratch, seed, tier, part=1)
