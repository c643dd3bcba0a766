#!/usr/bin/env python3
"""Writes MANIFEST.json from the engine table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from engines import PROPS
NA = "a pure function of its operands: no schedule, clock, fault, crash point or history can influence it, so simulation would be input generation under another name (its effects are still exercised by the simulated systems of the claimed properties)"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                       "technique": PROPS[p].get("technique", "deterministic simulation with fault injection: seeded plans, reference-model oracle, minimised replay"), "level": "exploration",
                       "level_note": PROPS[p].get("note", "Seeded search, not exhaustive. Assumes: " + "; ".join(PROPS[p]["assumptions"]))})
    else:
        na.append({"property": p, "reason": NA if p in ("C30", "C31", "C32") else "not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is made at build or load time (link-time wrap, compiler instrumentation, class-load bytecode instrumentation, symbol renaming)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
