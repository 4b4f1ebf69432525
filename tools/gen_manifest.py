#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: every property with an entry in check_info.RULES is claimed."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from check_info import RULES, TECHNIQUE, NOTE, NOT_APPLICABLE
HOOKS = ["621004c", "bafe8bb"]
import subprocess
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() for h in HOOKS]
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "--cfg starry_verif", "enable": "tools/rustc-wrapper.sh (RUSTC_WRAPPER) adds --cfg starry_verif when it compiles the crates of /repo and /verif/harness", "source_commits": full},
    "checks": [{
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": "exploration", "level_note": NOTE[i],
    } for i in ids if i in RULES],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in RULES],
}
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
