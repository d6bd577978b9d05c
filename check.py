#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on the current working tree of /repo:
 1. the package is copied to a scratch directory and its generated parser is rebuilt there;
 2. pyvc (contracts + symbolic execution of the real source + z3) discharges every obligation of the property's
    contracts;
 3. a bounded concrete search of the same property (harness/) runs next to it: it replays counterexamples and stands in
    for the functions pyvc does not reach.
Exit 0: no violation.  Exit 1: VIOLATION line.  Other: undecided.
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OCREPO", "/repo")
PY = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
NSHARD = 8
NPROOF = 5
SLOW = 25  # seconds; units slower than this on the unchanged tree are left to the thorough tier


class Undecided(Exception):
    pass


def build(scratch):
    """copy of the package with a freshly generated parser"""
    root = os.path.join(scratch, "root")
    os.mkdir(root)
    shutil.copytree(os.path.join(REPO, "omegaconf"), os.path.join(root, "omegaconf"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    gen = os.path.join(root, "omegaconf", "grammar", "gen")
    os.makedirs(gen, exist_ok=True)
    for f in os.listdir(gen):
        if f != "__init__.py":
            os.remove(os.path.join(gen, f))
    if not os.path.exists(os.path.join(gen, "__init__.py")):
        open(os.path.join(gen, "__init__.py"), "w").close()
    bindir = os.path.join(REPO, "build_helpers", "bin")
    jar = sorted(f for f in os.listdir(bindir) if f.endswith(".jar"))[-1]
    for g in ("OmegaConfGrammarLexer.g4", "OmegaConfGrammarParser.g4"):
        r = subprocess.run(["java", "-Xshare:auto", "-jar", os.path.join(bindir, jar), "-Dlanguage=Python3", "-o", gen, "-Xexact-output-dir", "-visitor",
                            os.path.join(root, "omegaconf", "grammar", g)], capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Undecided("the parser cannot be generated: " + r.stderr[-500:])
    for f in os.listdir(gen):
        if f.endswith(".py"):
            p = os.path.join(gen, f)
            s = open(p).read()
            s2 = s.replace("from antlr4", "from omegaconf.vendor.antlr4")
            if s2 != s:
                open(p, "w").write(s2)
    r = subprocess.run([PY, "-c", "import sys; sys.dont_write_bytecode=True; sys.path.insert(0, sys.argv[1]); import omegaconf; print(omegaconf.__file__)", root],
                       capture_output=True, text=True, timeout=120)
    if r.returncode or not os.path.realpath(r.stdout.strip()).startswith(os.path.realpath(root)):
        raise Undecided("the package does not import: " + (r.stderr or r.stdout)[-500:])
    return root


def literals(root):
    ints, strs = set(), set()
    for d, ds, fs in os.walk(os.path.join(root, "omegaconf")):
        if "vendor" in d or os.sep + "gen" in d:
            continue
        for f in fs:
            if f.endswith(".py"):
                for n in ast.walk(ast.parse(open(os.path.join(d, f)).read())):
                    if isinstance(n, ast.Constant):
                        v = n.value
                        if type(v) is int:
                            ints.add(v)
                        elif type(v) is str and len(v) <= 24:
                            strs.add(v)
    return ints, strs


def new_atoms(root):
    """constants that the current source has and the source these checks were written for has not: they only
    enrich the input generators"""
    p = os.path.join(HERE, "literals.json")
    if not os.path.exists(p):
        return []
    base = json.load(open(p))
    i, s = literals(root)
    return sorted(i - set(base["ints"])) + sorted(s - set(base["strs"]))


# ------------------------------------------------------------------ deductive part

def unit_proc(conn, root, spec, idx, name, deadline, quiet):
    try:
        if quiet:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
        sys.setrecursionlimit(6000)
        from pyvc.oc import OC, Source, load_omegaconf
        import importlib
        m = load_omegaconf(root)
        E = OC(root, m, Source(root))
        mod = importlib.import_module("specs." + spec)
        units = dict((n, b) for n, b in mod.units(E))
        E.deadline = time.time() + deadline
        rep = E.verify(None, name, units[name])
        out = {"name": name, "status": rep.status, "why": rep.why, "paths": rep.paths, "secs": rep.secs, "solver_ms": rep.solver_ms,
               "checks": rep.checks, "used": rep.used, "inlined": rep.inlined, "exits": rep.exits, "assumptions": sorted(E.assumptions),
               "loops": [str(x) for x in rep.loops], "obls": [], "atoms": []}
        for o in rep.obls:
            d = {"name": o.name, "status": o.status, "ms": round(o.ms, 1)}
            if o.status == "refuted":
                d["model"] = str(o.model)[:4000]
                d["path"] = [str(x)[:300] for x in (o.path or [])][-30:]
                out["atoms"] += re.findall(r"-?\b\d+\b", d["model"])[:50] + re.findall(r'"([^"\n]{0,20})"', d["model"])[:50]
            out["obls"].append(d)
        conn.send(out)
    except BaseException as e:
        conn.send({"name": name, "status": "unsupported", "why": "engine: %s: %s %s" % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:]), "paths": 0, "secs": 0, "solver_ms": 0,
                   "checks": 0, "used": [], "inlined": [], "exits": [0, 0], "assumptions": [], "loops": [], "obls": [], "atoms": []})


def unit_names(conn, root, spec):
    try:
        from pyvc.oc import OC, Source, load_omegaconf
        import importlib
        m = load_omegaconf(root)
        E = OC(root, m, Source(root))
        conn.send([n for n, b in importlib.import_module("specs." + spec).units(E)])
    except BaseException as e:
        conn.send("%s: %s" % (type(e).__name__, str(e)[:400]))


def prove_all(root, spec, deadline, total, slow=()):
    """one process per unit, NPROOF at a time"""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=unit_names, args=(b, root, spec))
    p.start()
    names = a.recv() if a.poll(60) else "timeout"
    p.join(5)
    if isinstance(names, str):
        return None, names
    flt = os.environ.get("PYVC_FILTER")
    if flt:
        names = [n for n in names if flt in n]
    out = [dead(n, "left to the thorough tier (slow)") for n in names if n in slow]
    todo, run = [n for n in names if n not in slow], []
    end = time.time() + total
    while todo or run:
        while todo and len(run) < NPROOF and time.time() < end:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=unit_proc, args=(b, root, spec, 0, n, deadline, not os.environ.get("PYVC_DEBUG")))
            p.start()
            b.close()
            run.append((n, p, a, time.time() + deadline + 45))
        if not run:
            for n in todo:
                out.append(dead(n, "no time left"))
            break
        for r in list(run):
            n, p, a, kill = r
            res = None
            if a.poll(0.02):
                try:
                    res = a.recv()
                except EOFError:
                    res = dead(n, "the verifier process ended")
            elif not p.is_alive() and not a.poll(0):
                res = dead(n, "the verifier process ended")
            elif time.time() > kill:
                res = dead(n, "timeout")
            if res is not None:
                if p.is_alive():
                    p.join(1)
                    if p.is_alive():
                        p.kill()
                p.join()
                run.remove(r)
                out.append(res)
    order = {n: i for i, n in enumerate(names)}
    out.sort(key=lambda u: order[u["name"]])
    return out, ""


def dead(n, why):
    return {"name": n, "status": "unsupported", "why": why, "paths": 0, "secs": 0, "solver_ms": 0, "checks": 0, "used": [], "inlined": [], "exits": [0, 0],
            "assumptions": [], "loops": [], "obls": [], "atoms": []}


# ------------------------------------------------------------------ bounded part

class Search:
    def __init__(self, prop, root, scratch, seed, tier, mult, deadline, atoms, tag):
        self.procs = []
        self.res = []
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        af = os.path.join(scratch, "atoms_%s.json" % tag)
        json.dump(atoms, open(af, "w"))
        for k in range(NSHARD):
            o = os.path.join(scratch, "h_%s_%d.json" % (tag, k))
            cwd = os.path.join(scratch, "cwd_%s_%d" % (tag, k))
            os.mkdir(cwd)
            cmd = [PY, os.path.join(HERE, "harness", "run.py"), prop, "--root", root, "--seed", str(seed), "--shard", "%d/%d" % (k, NSHARD), "--tier", tier, "--out", o,
                   "--deadline", str(deadline), "--mult", str(mult), "--atoms", af]
            self.procs.append((subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w")), o))
        self.kill = time.time() + deadline + 60
        self.seed = seed

    def wait(self):
        out = {"cases": {}, "skipped": 0, "violations": [], "errors": [], "cut": False, "cpu": 0.0, "distinct": set(), "samples": {}}
        for p, o in self.procs:
            try:
                p.wait(max(1, self.kill - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                out["cut"] = True
            try:
                d = json.load(open(o))
            except Exception:
                err = open(o + ".err").read()[-800:]
                if not out["cut"]:
                    out["errors"].append({"case": "?", "index": -1, "msg": "the harness process died: " + err, "log": []})
                continue
            for k, v in d["cases"].items():
                out["cases"][k] = out["cases"].get(k, 0) + v
            out["skipped"] += d["skipped"]
            out["violations"] += d["violations"]
            out["errors"] += d["errors"]
            out["cut"] |= d["cut"]
            out["cpu"] += d["wall"]
            out["distinct"].update(d["distinct"])
            out["samples"].update(d["samples"])
        return out


def confirm(prop, root, seed, v, atoms_file, tier):
    """run the failing case again in a fresh process"""
    cmd = [PY, os.path.join(HERE, "harness", "run.py"), prop, "--root", root, "--seed", str(seed), "--tier", tier, "--only", "%s:%d" % (v["case"], v["index"]), "--atoms", atoms_file]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=120, env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--update-baseline", action="store_true")
    A = ap.parse_args()
    prop = A.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        root = build(scratch)
        if A.replay:
            d = json.load(open(A.replay))
            af = os.path.join(scratch, "a.json")
            json.dump(d.get("atoms", []), open(af, "w"))
            if d.get("case") is None:
                print("the replay file names a failed obligation and has no input:", d["obligation"])
                return 1
            r = subprocess.run([PY, os.path.join(HERE, "harness", "run.py"), prop, "--root", root, "--seed", str(d["seed"]), "--tier", d["tier"], "--only", "%s:%d" % (d["case"], d["index"]), "--atoms", af],
                               env=dict(os.environ, PYTHONHASHSEED="0"))
            return r.returncode
        return decide(A, prop, root, scratch, t0)
    except Undecided as e:
        print("UNDECIDED property=%s %s" % (prop, e))
        return 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(A, prop, root, scratch, t0):
    quick = A.tier != "thorough"
    atoms = new_atoms(root)
    spec = prop.lower()
    has_spec = os.path.exists(os.path.join(HERE, "specs", spec + ".py"))
    search = None
    if not A.no_search:
        search = Search(prop, root, scratch, A.seed, A.tier, 1.0, 240 if quick else 700, atoms, "a")
    bp = os.path.join(HERE, "specs", "baseline.json")
    baseline = json.load(open(bp)) if os.path.exists(bp) else {}
    base = baseline.get(prop, {})
    units, why = ([], "")
    if has_spec and not A.no_proof:
        slow = () if A.update_baseline or not quick else [n for n, b in base.items() if b.get("secs", 0) > SLOW]
        units, why = prove_all(root, spec, 60 if quick and not A.update_baseline else 400, 90 if quick and not A.update_baseline else 700, slow)
        if units is None:
            units = [dead("contracts of " + prop, why)]
    sys.stdout.flush()
    if A.update_baseline:
        baseline[prop] = {u["name"]: {"status": u["status"], "exits": [min(1, x) for x in u["exits"]], "secs": round(u["secs"])} for u in units}
        json.dump(baseline, open(bp, "w"), indent=1, sort_keys=True)
        base = baseline[prop]
    nobl = sum(len(u["obls"]) for u in units)
    ndis = sum(1 for u in units for o in u["obls"] if o["status"] == "proved")
    failed, undecided = [], []
    for u in units:
        b = base.get(u["name"], {})
        if u["status"] == "refuted" and b.get("status") == "proved":
            failed.append(u)
        elif u["status"] != "proved":
            undecided.append(u)
        elif b and any(x and not y for x, y in zip(b["exits"], u["exits"])):
            u["note"] = "an exit that the contract covered is no longer reachable"
    r = search.wait() if search else {"cases": {}, "skipped": 0, "violations": [], "errors": [], "cut": False, "cpu": 0.0, "distinct": set(), "samples": {}}
    viol = []
    known = known_findings(prop)
    hit = set()
    af = os.path.join(scratch, "atoms_a.json")

    def take(r, seed, atoms):
        for v in r["violations"]:
            k = [n for n in known if n[0].search(v["msg"])]
            if k:
                hit.add(k[0][1])
            else:
                viol.append((v, seed, atoms))
    take(r, A.seed, atoms)
    more = 0
    if failed and not viol and not A.no_search:
        # the verifier refuted an obligation: look for an input on the real code
        ma = atoms + sorted({int(a) if re.fullmatch(r"-?\d{1,6}", a) else a for u in failed for a in u["atoms"]}, key=str)[:60]
        for k in range(2 if quick else 4):
            s2 = Search(prop, root, scratch, A.seed + 1000 + k, A.tier, 2.0, 110, ma if k % 2 == 0 else atoms, "m%d" % k)
            rr = s2.wait()
            more += sum(rr["cases"].values())
            take(rr, A.seed + 1000 + k, ma if k % 2 == 0 else atoms)
            if viol:
                break
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for f in os.listdir(os.path.join(HERE, "evidence")):
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(HERE, "evidence", f))
    code = 0
    nviol = 0
    if viol:
        v, seed, at = viol[0]
        nviol = len(viol)
        path = os.path.join(HERE, "evidence", "replay-%s-1.json" % prop)
        json.dump({"property": prop, "seed": seed, "tier": A.tier, "case": v["case"], "index": v["index"], "message": v["msg"], "log": v["log"], "atoms": at,
                   "failed_obligations": [{"unit": u["name"], "obligations": sorted({o["name"] for o in u["obls"] if o["status"] == "refuted"})} for u in failed],
                   "rerun": "cd %s && python3-vt check.py %s --replay %s" % (HERE, prop, path)}, open(path, "w"), indent=1, default=str)
        print("%s" % v["msg"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif failed:
        nviol = len(failed)
        path = os.path.join(HERE, "evidence", "replay-%s-1.json" % prop)
        u = failed[0]
        bad = [o for o in u["obls"] if o["status"] == "refuted"]
        json.dump({"property": prop, "case": None, "obligation": "%s: %s" % (u["name"], bad[0]["name"]), "verifier": "pyvc/z3: sat (counterexample to the obligation)",
                   "failed": [{"unit": x["name"], "obligations": [o for o in x["obls"] if o["status"] == "refuted"]} for x in failed],
                   "searched": "%d concrete cases without a failing input" % (sum(r["cases"].values()) + more)}, open(path, "w"), indent=1, default=str)
        for x in failed:
            print("obligation refuted: %s: %s" % (x["name"], "; ".join(sorted({o["name"] for o in x["obls"] if o["status"] == "refuted"}))[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    for h in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, h))
    ncases = sum(r["cases"].values())
    if code == 0:
        if r["errors"]:
            print("UNDECIDED property=%s the bounded search failed: %s" % (prop, r["errors"][0]["msg"][:1500]))
            code = 3
        elif not A.no_search and ncases == 0:
            print("UNDECIDED property=%s no case was run" % prop)
            code = 3
        elif has_spec and not A.no_proof and nobl == 0 and not any(u["status"] == "unsupported" for u in units):
            print("UNDECIDED property=%s no obligation was generated" % prop)
            code = 3
    proved_units = [u for u in units if u["status"] == "proved"]
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "pyvc (symbolic execution of the functions' current source against sidecar contracts) with z3; one solver process per unit",
        "trusted_base": ["pyvc (the verification condition generator: its model of Python)", "z3", "CPython for the concrete part"] + TRUST,
        "functions_under_contract": [{"unit": u["name"], "status": u["status"], "obligations": len(u["obls"]), "discharged": sum(o["status"] == "proved" for o in u["obls"]), "paths": u["paths"],
                                      "exits_reached": {"return": u["exits"][0], "raise": u["exits"][1]}, "callee_contracts_used": sorted(set(map(str, u["used"]))), "callees_executed_inline": sorted(set(map(str, u["inlined"]))), "loops": u["loops"][:8],
                                      "solver_s": round(u["solver_ms"] / 1000, 2), "seconds": round(u["secs"], 2), "why": u["why"]} for u in units],
        "units_proved": len(proved_units), "units_total": len(units),
        "units_not_proved": [u["name"] + ": " + u["status"] + " " + u["why"][:200] for u in units if u["status"] != "proved"],
        "back_end": "z3 " + z3v(), "solver_seconds": round(sum(u["solver_ms"] for u in units) / 1000, 2), "solver_queries": sum(u["checks"] for u in units),
        "bounded_stand_in": {"label": "bounded: concrete search, never counted as proved", "cases_run": r["cases"], "evaluations": ncases, "skipped_outside_the_property": r["skipped"], "cut_by_deadline": r["cut"],
                             "witness_search_cases": more, "cpu_s": round(r["cpu"], 1), "rule": RULE},
        "evaluations": ncases, "distinct_nontrivial": len(r["distinct"]), "rule": RULE, "samples": list(r["samples"].values())[:4] or ["none"],
    }
    if not has_spec:
        for k in ("obligations", "discharged", "checker_cmd", "functions_under_contract", "units_proved", "units_total", "units_not_proved", "back_end", "solver_seconds", "solver_queries"):
            cov.pop(k)
    assumptions = sorted({a for u in units for a in u["assumptions"]}) + ASSUME
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": A.seed, "level": level_of(prop), "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged in %d/%d units (%d undecided), %d bounded cases, %.0f s" % (prop, A.tier, ndis, nobl, len(proved_units), len(units), len(undecided), ncases, time.time() - t0))
    for u in undecided:
        print("  not proved: %s: %s %s" % (u["name"], u["status"], u["why"][:160]))
    return code


def level_of(prop):
    m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    return [c["level"] for c in m["checks"] if c["property"] == prop][0]


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


RULE = ("cases are generated from (seed, case name, index); each builds configs and performs operations, and compares with an oracle written from the property, "
        "independent of the library; cases outside the property's domain are counted as skipped; a case is non-trivial when it logged an input or operation, "
        "and distinct cases are those with different logs")
TRUST = ["contracts assumed for helpers outside the proofs are listed under assumptions"]
ASSUME = [
    "closed world: nodes are exactly of the package's own classes (no user subclass of Node)",
    "int, bool, float, str, bytes and None values are of exactly these types (no subclass with its own behaviour)",
    "__eq__, __hash__ and __str__ of user values have no side effects",
    "integers are mathematical (as Python's are); floats are uninterpreted",
    "termination of loops and recursion is not proved",
]

if __name__ == "__main__":
    sys.exit(main())
