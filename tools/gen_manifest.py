#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, NOT_CLAIMED
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p not in PLAN:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and inputs, replayable and minimised",
        "level": "exploration",
        "level_note": PLAN[p].get("note", ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the libc calls (simos interposes them at link time), the arkworks crate boundary, and the globals and module imports of the JavaScript library", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": NOT_CLAIMED.get(p, "not claimed yet: machinery under construction")} for p in props if p not in PLAN],
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
