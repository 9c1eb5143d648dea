#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.json (claimed checks) and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
claims = json.load(open(os.path.join(here, "claims.json")))
trust = ("Decided on the typed SSA form of the current source; trusts the Go type checker and SSA builder, the models of the library calls "
         "listed in DESIGN.md, and the recursion and merge bounds reported in the evidence.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["checks"]:
        c = claims["checks"][i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "other",
                       "level_note": c["note"] + " " + trust})
    else:
        na.append({"property": i, "reason": claims["not_applicable"].get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: see DESIGN.md. Every check loads, type-checks and analyses /repo's current source; nothing of it is executed."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not claimed")
