#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from plan import PLAN, PENDING
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
KIND = {"dev": "debug build", "release": "optimised build", "asan": "AddressSanitizer", "tsan": "ThreadSanitizer", "miri": "Miri"}
NOTE = ("Holds on the executions observed in this run (see the evidence file): exhaustive over small containers/inputs, random and boundary beyond. "
        "Trusts the monitors' models, rustc{san}.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append({"property": i, "reason": PENDING.get(i, "no check built")})
        continue
    pl = PLAN[i]
    kinds = []
    for l in pl.get("legs", []):
        if KIND[l["kind"]] not in kinds:
            kinds.append(KIND[l["kind"]])
    tech = pl.get("technique") or "runtime monitors with oracle models on generated and enumerated workloads (" + ", ".join(kinds) + ")"
    san = "".join(", " + k for k in kinds if k in ("AddressSanitizer", "ThreadSanitizer", "Miri"))
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": tech, "level": pl.get("level", "exploration"),
                   "level_note": pl.get("note") or NOTE.format(san=san)})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes through the public API. check.py builds the harness (harness/) against /repo's working tree "
              "in each configuration, runs the monitors and judges their reports; plan.py says what each property runs."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
