"""bounded concrete checks: run.py Cxx --root DIR --seed N --shard k/n --tier T --out FILE [--only case:index]"""
import argparse
import importlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--root", default="/repo")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--shard", default="0/1")
ap.add_argument("--tier", default="quick")
ap.add_argument("--out")
ap.add_argument("--only")
ap.add_argument("--atoms")
ap.add_argument("--deadline", type=float, default=1e9)
ap.add_argument("--mult", type=float, default=1.0)
ap.add_argument("--maxviol", type=int, default=2)
A = ap.parse_args()
sys.path.insert(0, A.root)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib  # noqa: E402

assert os.path.realpath(lib.omegaconf.__file__).startswith(os.path.realpath(A.root)), lib.omegaconf.__file__
OCDIR = os.path.join(os.path.realpath(A.root), "omegaconf")


def on_alarm(sig, frm):
    raise lib.Timeout()


signal.signal(signal.SIGPROF, on_alarm)


def frames(e):
    return traceback.extract_tb(e.__traceback__)


def run_case(mod, name, fn, i, log):
    """None, or ('violation'|'error', message)"""
    rng = random.Random("%d/%s/%s/%d" % (A.seed, A.prop, name, i))
    g = lib.G(rng)
    g.log = log
    g.i = i
    g.tier = A.tier
    g.atoms = ATOMS
    signal.setitimer(signal.ITIMER_PROF, 30)
    try:
        fn(g)
        return None
    except lib.Violation as e:
        return "violation", str(e)
    except lib.Skip:
        return "skip", ""
    except lib.Timeout:
        return "violation", "an operation does not terminate (30 s of CPU)"
    except Exception as e:
        last = None
        for f in frames(e):
            if os.path.realpath(f.filename).startswith(OCDIR):
                last = f
        tb = frames(e)[-1]
        msg = "%s: %s" % (type(e).__name__, str(e)[:400])
        inoc = last is not None and (os.path.realpath(tb.filename).startswith(OCDIR) or not tb.filename.startswith(os.path.dirname(os.path.abspath(__file__))))
        if inoc:
            return "violation", "unexpected exception out of %s:%s: %s" % (os.path.basename(last.filename), last.name, msg)
        return "error", msg + "\n" + "".join(traceback.format_tb(e.__traceback__)[-3:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


ATOMS = json.load(open(A.atoms)) if A.atoms else []
# constants that are new in the current source enrich the generators (nothing else depends on them)
for a in ATOMS:
    if type(a) is int and abs(a) < 2 ** 70:
        lib.INTS += [a]
    elif type(a) is str and re.fullmatch(r"[A-Za-z][A-Za-z0-9_]{0,15}|[-+0-9.eE_]{1,12}", a):
        lib.STRS += [a, a]
        if a.isidentifier() and not hasattr(lib.DictConfig, a) and a not in lib.KEYS:
            lib.KEYS += [a]
mod = importlib.import_module("h_" + A.prop.lower())
shard, nsh = map(int, A.shard.split("/"))
res = {"prop": A.prop, "cases": {}, "violations": [], "errors": [], "skipped": 0, "cut": False}
t0 = time.time()
if A.only:
    name, i = A.only.rsplit(":", 1)
    fn = dict((n, f) for n, c, f in mod.CASES)[name]
    log = []
    r = run_case(mod, name, fn, int(i), log)
    for l in log:
        print("  ", l)
    print(r)
    sys.exit(1 if r and r[0] == "violation" else 0)
state0 = lib.global_state()
todo = []
for name, count, fn in mod.CASES:
    n = count if isinstance(count, int) else count(A.tier)
    if isinstance(count, int):
        n = int(n * (8 if A.tier == "thorough" else 1) * A.mult)
    for i in range(n):
        if i % nsh == shard:
            todo.append((name, fn, i, n))
random.Random(A.seed).shuffle(todo)
distinct, samples = set(), {}
for name, fn, i, n in todo:
    if time.time() - t0 > A.deadline:
        res["cut"] = True
        break
    log = []
    r = run_case(mod, name, fn, i, log)
    lib.restore_global(state0)
    if r is None:
        res["cases"][name] = res["cases"].get(name, 0) + 1
        if log:
            txt = "%s: %s" % (name, "; ".join(str(x) for x in log))
            distinct.add(hash(txt))
            if len(txt) < 600 and name not in samples:
                samples[name] = txt
    elif r[0] == "skip":
        res["skipped"] += 1
    elif r[0] == "error":
        res["errors"].append({"case": name, "index": i, "msg": r[1], "log": log[-12:]})
        if len(res["errors"]) >= 3:
            break
    else:
        res["violations"].append({"case": name, "index": i, "seed": A.seed, "msg": r[1], "log": log[-20:]})
        if len(res["violations"]) >= A.maxviol:
            break
res["distinct"] = [h for h in distinct]
res["samples"] = samples
res["wall"] = time.time() - t0
if A.out:
    json.dump(res, open(A.out, "w"))
else:
    print(json.dumps(res, indent=1, default=str))
