#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (claimed) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/not_applicable.json")) if os.path.exists(f"{V}/not_applicable.json") else {}
ids = [p["id"] for p in props]
assert all(c in ids for c in checks), [c for c in checks if c not in ids]
m = dict(version=1, setup_cmd="python3 build.py", checks=[], not_applicable=[],
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified, with stand-in TBB/Embree headers (shim/) in front"),
         notes="./check <ID> [--tier thorough] rebuilds build/bin/<target> from /repo's working tree and runs it; ./check <ID> --replay <space:from[:to]> re-runs one reported case.")
for i in ids:
    if i in checks:
        c = checks[i]
        m["checks"].append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"./check {i} --tier thorough",
             evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "no check has been built for it (yet)")))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not claimed")
