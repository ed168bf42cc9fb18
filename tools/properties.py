#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the checks present."""
import json
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/main/cpp/Balau/"
P = []
TECH = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, observe, tech=None, note=None, na=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [B + f for f in files], "mechanism": [{"name": n, "where": B + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
    TECH[id] = (tech, note)
    if na:
        NA[id] = na


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
have = {f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.endswith(".py")}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "BALAU_VERIF", "enable": "no hook is needed: the checks compile /repo's unmodified sources with sanitizers and link-time interposition", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in have and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
