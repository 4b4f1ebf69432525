#!/usr/bin/env python3
"""Decides one property of aberic/starry by running the real code under monitors.

  check.py <ID> [--thorough] [--replay FILE] [--keep]
  check.py --setup

Builds /verif/harness (path dependency on /repo) from /repo's working tree with the observation hooks
(--cfg starry_verif) on, runs the property's workload, writes evidence/<ID>.json.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no answer (build or harness error).
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(HARNESS, "target")
BIN = os.path.join(TARGET, "debug", "starry-verif")
KNOWN = os.path.join(ROOT, "known-findings.txt")

sys.path.insert(0, os.path.join(ROOT, "tools"))
from check_info import RULES, MINIMUM, ASSUMPTIONS, EXTRA  # noqa: E402
import miri  # noqa: E402


def env(hooks=True):
    e = dict(os.environ)
    e.update({
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
        "CARGO_TERM_COLOR": "never",
        "CARGO_TARGET_DIR": TARGET,
        "RUSTC_WRAPPER": os.path.join(ROOT, "tools", "rustc-wrapper.sh") if hooks else "",
    })
    e.pop("RUSTFLAGS", None)
    home = os.path.expanduser("~")
    e["PATH"] = e.get("PATH", "") + ":" + os.path.join(home, ".cargo", "bin") + ":/usr/local/cargo/bin"
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, names in os.walk(base):
            files += [os.path.join(d, n) for n in names]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    files += [os.path.join(REPO, "build.rs")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def seed_target():
    """reuse the dependencies the repository's own build left behind (same compiler, same settings)"""
    src = os.path.join(REPO, "target", "debug")
    if os.path.isdir(os.path.join(TARGET, "debug", "deps")) or not os.path.isdir(os.path.join(src, ".fingerprint")):
        return
    dst = os.path.join(TARGET, "debug")
    os.makedirs(dst, exist_ok=True)
    for d in ("deps", "build", ".fingerprint"):
        if os.path.isdir(os.path.join(src, d)):
            subprocess.run(["cp", "-a", os.path.join(src, d), dst], check=False)


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        seed_target()
        stamp = os.path.join(TARGET, ".verif-stamp")
        want = tree_hash()
        have = open(stamp).read().strip() if os.path.exists(stamp) else ""
        if have.split(" ")[0] == want and os.path.exists(BIN):
            return have.endswith("hooks"), ""
        log = ""
        for hooks in (True, False):
            # never trust time stamps: the crate under test and the harness are always compiled anew
            for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "starry-*")):
                shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
            r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env(hooks),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                with open(stamp, "w") as f:
                    f.write(want + (" hooks" if hooks else " plain"))
                return hooks, ""
            log += r.stdout[-3000:]
        return None, log


def known_lines():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    t0 = time.time()
    hooks, log = build()
    if hooks is None:
        print("harness does not build against /repo:\n" + log)
        return 2
    if args and args[0] == "--setup":
        print("built, hooks", "on" if hooks else "off")
        print("built for Miri:", miri.build() or "yes")
        return 0
    prop = args[0]
    tier = "thorough" if "--thorough" in args or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in args) else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    case = None
    if "--replay" in args:
        rec = json.load(open(args[args.index("--replay") + 1]))
        seed, tier, case = rec["seed"], rec["tier"], rec.get("case")
    scratch = tempfile.mkdtemp(prefix="starry-verif-")
    try:
        binary = os.path.join(scratch, "starry-verif")
        shutil.copy2(BIN, binary)
        out = os.path.join(scratch, "out.json")
        cmd = [binary, prop, "--seed", str(seed), "--tier", tier, "--scratch", os.path.join(scratch, "run"), "--out", out]
        if case is not None and str(case).isdigit():
            cmd += ["--case", str(case)]
        os.makedirs(os.path.join(scratch, "run"))
        limit = 1700 if tier == "thorough" else 640
        # the code under test inherits a soft memory cap: a runaway allocation must not end the sandbox
        try:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit, text=True, errors="replace")
            note = r.stderr[-500:] if r.returncode != 0 else ""
        except subprocess.TimeoutExpired:
            note = "the harness did not end within %d s" % limit
        if not os.path.exists(out):
            print("no result from the harness:", note)
            return 2
        res = json.load(open(out))
        for extra in EXTRA.get(prop, []):
            extra(res, binary, scratch, seed, tier)
    finally:
        if "--keep" not in args:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch kept:", scratch)

    status = 0
    known = known_lines()
    new, old = [], []
    for v in res["violations"]:
        k = next((k for k in known if k[0] == prop and re.search(k[1], v["what"])), None)
        (old if k else new).append((v, k))
    for line in sorted({"KNOWN-FINDING: property=%s %s" % (prop, k[2]) for _, k in old}):
        print(line)
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    for i, (v, _) in enumerate(new):
        path = os.path.join(outdir, "replay-%s-%d.json" % (prop, i))
        c = v.get("case")
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "case": c, "what": v["what"], "detail": v.get("detail"),
                       "replay": "python3 %s/check.py %s --replay %s" % (ROOT, prop, path)}, f, indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + v["what"])
        status = 1

    minimum = MINIMUM.get(prop, 20)
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct"],
        "rule": RULES[prop],
        "samples": res["samples"],
        "observed": res["counters"],
        "hooks": "on" if hooks else "off",
        "inconclusive": res["inconclusive"],
        "unexpected_panics_in_worker_threads": res.get("panics", []),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed %d: %d evaluations, %d distinct non-trivial, %d violations, %d inconclusive, %.1f s" % (
        prop, tier, seed, res["evaluations"], res["distinct"], len(new), len(res["inconclusive"]), time.time() - t0))
    if status == 0 and case is None and (res["evaluations"] < minimum or res["distinct"] == 0):
        print("inconclusive: too little was observed", res["inconclusive"][:3])
        return 2
    if status == 0 and res["inconclusive"]:
        print("inconclusive cases:", res["inconclusive"][:3])
    return status


if __name__ == "__main__":
    sys.exit(main())
