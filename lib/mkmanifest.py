#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plan."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from plan import PLAN
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "scc_mc (rustc --cfg scc_mc, together with the crate's own `loom` feature)",
               "enable": "/verif/conc/.cargo/config.toml sets rustflags = [\"--cfg\", \"scc_mc\"]; /verif/conc/Cargo.toml enables the feature `loom` and patches loom and sdd",
               "source_commits": ["65e4104", "ece75fb"]},
     "checks": [], "not_applicable": []}
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PLAN:
        q = PLAN[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                            "technique": q["technique"], "level": q["level"], "level_note": q["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction; nothing is claimed yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
