#!/usr/bin/env python3
"""rewrites the technique / level fields of MANIFEST.json from the specs that exist"""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the functions' current source (pyvc: sidecar contracts, symbolic execution, z3)"
PART = T + "; functions not yet under contract: bounded concrete search as a stand-in"
NOTES = json.load(open(os.path.join(H, "tools", "levels.json")))
m = json.load(open(os.path.join(H, "MANIFEST.json")))
for c in m["checks"]:
    p = c["property"]
    has = os.path.exists(os.path.join(H, "specs", p.lower() + ".py"))
    n = NOTES.get(p)
    c["level"] = n["level"] if n else "exploration"
    assert has or c["level"] == "exploration"
    c["technique"] = PART if has else "bounded concrete search (stand-in for contracts not written yet)"
    if has and n and n.get("full"):
        c["technique"] = T
    c["level_note"] = n["note"] if n else "bounded: not proved; see DESIGN.md"
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
