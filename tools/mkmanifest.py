#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMS = {}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": "contract-based deductive verification of the Go source (gocv: contracts over go/ssa, obligations discharged by z3/cvc5)",
                       "level": "proof", "level_note": CLAIMS[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet: no contract for this property has been completed so far")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Contracts live in /verif/contracts, the verifier in /verif/gocv, bounded replay harnesses in /verif/harness. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
