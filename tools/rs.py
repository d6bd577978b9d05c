#!/usr/bin/env python3-vt
"""run the units of a spec in parallel: rs.py cXX [filter] [seconds]"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
spec = sys.argv[1]
flt = sys.argv[2] if len(sys.argv) > 2 else ""
dl = float(sys.argv[3]) if len(sys.argv) > 3 else 120
check.NPROOF = int(os.environ.get("NPROOF", "8"))
os.environ["PYVC_FILTER"] = flt
us, why = check.prove_all(os.environ.get("OCROOT", "/repo"), spec, dl, 3000)
if us is None:
    print("ERROR", why); sys.exit(1)
n = {}
for u in us:
    n[u["status"]] = n.get(u["status"], 0) + 1
    c = {}
    for o in u["obls"]:
        c[o["status"]] = c.get(o["status"], 0) + 1
    print("%-62s %-11s %s paths=%d exits=%s %.0fs %s" % (u["name"], u["status"], c, u["paths"], u["exits"], u["secs"], u["why"][:400]))
    seen = set()
    for o in u["obls"]:
        if o["status"] != "proved" and (o["name"], o["status"]) not in seen:
            seen.add((o["name"], o["status"]))
            print("     ", o["status"], o["name"])
            if os.environ.get("PC") and "path" in o:
                print("\n".join("          " + p.replace("\n", " ") for p in o["path"]))
            if os.environ.get("MODEL") and "model" in o:
                print(o["model"])
print(n)
