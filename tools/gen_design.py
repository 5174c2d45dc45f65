#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_props.py, the evidence at hand, design_tail.md and detections.json."""
import json, os
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
exec(open(os.path.join(T, "design_props.py")).read()); exec(open(os.path.join(T, "techniques.py")).read())
costs = json.load(open(os.path.join(T, "costs.json"))) if os.path.exists(os.path.join(T, "costs.json")) else {}
out = [open(os.path.join(T, "design_head.md")).read(), "## Properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; en, orc, why = D[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* decided by: %s" % TECH[i]); out.append("* explored: %s" % en); out.append("* oracle: %s" % orc)
    out.append("* reaches what tests cannot: %s" % why)
    if i in costs: out.append("* cost on 8 cores: quick %s s, thorough %s s" % tuple(costs[i]))
    out.append("")
out.append(open(os.path.join(T, "design_tail.md")).read())
f = os.path.join(T, "detections.json")
if os.path.exists(f):
    out.append("## Seeded changes and the checks that catch them\n\n| change | property | caught by | needs |\n|---|---|---|---|")
    d = json.load(open(f))
    for s in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (s, m["property"], d.get(s, "?"), m["needs"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
