#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tasks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import tasks
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in tasks.PROPS:
        P = tasks.PROPS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the LLVM IR of the current sources, assertions decided by Z3 over bit-vectors, counterexamples replayed natively",
            "level": P.get("level", "model_checking"),
            "level_note": "bounded: " + P["bounds"], "evidence_file": "evidence/%s.json" % i})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
