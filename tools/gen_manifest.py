#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has jobs in specs.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {j["prop"] for j in specs.JOBS}
m = {"version": 1, "setup_cmd": "make -s -C engine", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({
            "property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": specs.TECHNIQUE.get(i, "bounded symbolic execution of the compiled LLVM IR, every path and obligation decided by Z3; counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": specs.LEVEL_NOTE.get(i, "Exhaustive within the bounds of each entry (evidence: entries[].bounds, params); outside them nothing is claimed."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
