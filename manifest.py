#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans."""
import json, os
import plans
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "project": ("TLA+ model of the project store (ProjectMC) checked with TLC; every transition of the bounded model and random histories "
                "executed on the real SQLite backed store; every observation checked by TLC against the specification (ProjectTrace)"),
    "repeat": ("TLA+ specification of repeat playback (Repeat) model checked with TLC; every bounded sequence of bar lines and random tunes "
               "rendered by the real code and checked by TLC against the specification (RepeatTrace)"),
    "value": ("TLA+ specification of the operation checked with TLC; the results of the real code on exhaustive finite domains or "
              "enumerated and random behaviours are checked record by record by TLC against the specification"),
}
LEVEL = ("Exhaustive within the stated bounds of the model; conformance of the code is checked on every explored behaviour and on seeded random ones, "
         "not proved for all inputs. Trusts TLC, the harness encoding, and serdo/SQLite as installed.")
checks = []
for p in props:
    if p in plans.PLANS:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": NOTE[plans.KIND[p]], "level": "model_checking", "level_note": LEVEL})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in plans.PLANS],
     "notes": "No hooks in /repo are needed: the harness uses the public API only. Known findings and fixed defects: known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
