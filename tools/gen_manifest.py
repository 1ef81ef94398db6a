#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = CLAIMED["not_applicable"]
checks = []
for p in props:
    c = CLAIMED["checks"].get(p)
    if c is None:
        na.setdefault(p, "not claimed yet: the check is still being built")
        continue
    cmd = c.get("cmd", "./check.sh")
    checks.append({"property": p, "quick_cmd": f"{cmd} {p} quick", "thorough_cmd": f"{cmd} {p} thorough",
        "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(graphannis_mc)", "enable": "RUSTFLAGS --cfg graphannis_mc, set in mc/.cargo/config.toml of the checker crate", "source_commits": CLAIMED.get("hook_commits", [])},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in na.items() if k not in CLAIMED["checks"]]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(m["not_applicable"]), "not")
