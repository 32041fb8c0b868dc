#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (claimed checks and reasons for the others are edited here)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = re.search(r'pub const ALL: &\[&str\] = &\[(.*?)\];', open(f"{V}/sim/src/scen/mod.rs").read(), re.S).group(1)
claimed = re.findall(r'"(C\d\d)"', claimed)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "deterministic simulation: seeded search over schedules, histories and injected faults of the real code"
NOTE = {}
exec(open(f"{V}/tools/notes.py").read())
checks = []
for p in props:
    if p["id"] in claimed:
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick",
            thorough_cmd=f"./check.sh {p['id']} thorough", technique=TECH,
            level="exploration", level_note=NOTE[p["id"]]))
na = [dict(property=p["id"], reason=NA[p["id"]]) for p in props if p["id"] not in claimed]
m = dict(version=1, setup_cmd="./build.sh",
    hooks=dict(guard="cfg verif_sim (passed in RUSTFLAGS; off by default)",
        enable="RUSTFLAGS='--cfg verif_sim --extern simstd=<simstd rlib>' as in /verif/build.sh",
        source_commits=HOOKS),
    checks=checks, not_applicable=na,
    notes="check.sh builds the simulator from /repo's working tree and runs the seeded search; check.sh replay FILE replays a reported violation; check.sh selftest checks that equal seeds give equal executions.")
open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
