#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl (run by hand; output committed)."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from plan import PLAN, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=checks, not_applicable=na,
         notes="Every check rebuilds crablib from /repo's working tree with clang ASan+UBSan (or TSan) and runs monitored workloads; no hooks in /repo are needed, observation is at the public API and at the system-call boundary (linker --wrap).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
