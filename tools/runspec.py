#!/usr/bin/env python3-vt
"""debug driver: runspec.py cXX [filter]"""
import sys, os, time
sys.path.insert(0, "/verif")
from pyvc.oc import *
import importlib
root = os.environ.get("OCROOT", "/repo")
m = load_omegaconf(root)
src = Source(root)
mod = importlib.import_module("specs." + sys.argv[1])
flt = sys.argv[2] if len(sys.argv) > 2 else ""
E0 = OC(root, m, src)
for i, (name, _) in enumerate(mod.units(E0)):
    if flt not in name:
        continue
    E = OC(root, m, src)
    body = mod.units(E)[i][1]
    E.deadline = time.time() + 120
    rep = E.verify(None, name, body)
    c = {}
    for o in rep.obls:
        c[o.status] = c.get(o.status, 0) + 1
    print("%-60s %-11s %s paths=%d exits=%s %.1fs solver=%.1fs checks=%d %s" % (name, rep.status, c, rep.paths, rep.exits, rep.secs, rep.solver_ms/1000, rep.checks, rep.why))
    bad = {}
    for o in rep.obls:
        if o.status != "proved":
            bad.setdefault((o.name, o.status), []).append(o)
    for k, v in bad.items():
        print("    ", k, len(v))
        if os.environ.get("MODEL") and v[0].model is not None:
            print(v[0].model)
        if os.environ.get("PC"):
            print("\n".join("        " + str(x).replace("\n", " ")[:300] for x in v[0].path or []))
