#!/usr/bin/env python3
# Writes MANIFEST.json from tools/levels.json (one entry per property: level, technique, note).
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(here, "tools", "levels.json")))
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    e = lv[p]
    c = {"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
         "technique": e["technique"], "level": e["level"], "level_note": e["note"]}
    if e.get("theorems"): c["theorems"] = e["theorems"]
    checks.append(c)
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "Contract-based deductive verification of the Go source (gover, in gover/; contracts in contracts/), with a harness (harness/) that replays and falsifies and is the bounded stand-in for functions not yet under contract. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
