#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every harness/Cxx.cpp, the rest is not_applicable (see REASONS)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "harness", p + ".cpp")):
        checks.append(dict(property=p, quick_cmd="./check %s --tier quick" % p, thorough_cmd="./check %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique=TECH.get(p, "explicit exhaustive exploration of bounded inputs and histories on the real code against a reference model"),
            level="fault_enumeration" if p == "C26" else "model_checking",
            level_note=NOTE.get(p, "Exhaustive within the bounds printed in the evidence file; trusts the reference model in the harness, the compiler and the sanitizers; says nothing outside the bounds.")))
    else:
        na.append(dict(property=p, reason="its explorer is not built yet"))
json.dump(dict(version=1, setup_cmd="./check all --build-only", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
