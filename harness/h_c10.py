"""C10 interpolation against the independent evaluator"""
from iw import *
from h_c03 import conv
import typing


def expect(t, p):
    try:
        return ev(t, p)
    except Err as e:
        return ("miss" if isinstance(e, Miss) else "err", str(e))


def compare(g, cfg, t, p, got, what):
    exp = expect(t, p)
    isref = isinstance(at_spec(t, p), (Ref, Cat))
    if exp[0] in ("err", "miss"):
        check(got[0] == "exc", "%s of %s (%r) returns %r, expected an interpolation error (%s)", what, p, plain(key_at(cfg, p)), got[1], exp[1])
        if isref:
            check(isinstance(got[1], oe.InterpolationResolutionError), "%s of %s (%r) raises %s, expected an interpolation error (%s)", what, p, plain(key_at(cfg, p)), okind(got), exp[1])
            if exp[0] == "miss":
                check(isinstance(got[1], oe.InterpolationToMissingValueError), "%s of %s (%r) raises %s for an interpolation to a missing value", what, p, plain(key_at(cfg, p)), okind(got))
        else:
            check(isinstance(got[1], oe.MissingMandatoryValue), "%s of %s raises %s for a missing value", what, p, okind(got))
        return
    check(got[0] == "ret", "%s of %s (%r) raises %s, expected %r", what, p, plain(key_at(cfg, p)), okind(got), exp)
    if exp[0] == "cont":
        tgt = key_at(cfg, exp[1])
        check(got[1] is tgt, "%s of %s (%r) yields %r, expected the node at %s", what, p, plain(key_at(cfg, p)), got[1], exp[1])
    else:
        check(tv(got[1]) == tv(exp[1]), "%s of %s (%r) yields %r, expected %r", what, p, plain(key_at(cfg, p)), got[1], exp[1])


def accesses(g, cfg, p):
    par, k = key_at(cfg, p[:-1]), p[-1]
    a = [("item access", lambda: par[k])]
    if isinstance(k, str):
        a.append(("attribute access", lambda: getattr(par, k)))
    return a


def c_tree(g):
    t = add_refs(g, gen_tree(g))
    cfg = OmegaConf.create(render(t))
    g.log.append("%r" % (render(t),))
    before = full_snap(cfg)
    ps = [p for p in all_paths(t) if p]
    for p in ps:
        for what, f in accesses(g, cfg, p):
            compare(g, cfg, t, p, outcome(f), what)
    check(full_snap(cfg) == before, "resolving interpolations modified the config")
    # re-evaluated on every access
    lits = [p for p in leaves(t) if p and isinstance(at_spec(t, p), Lit)]
    for _ in range(3):
        if not lits:
            break
        p = g.pick(lits)
        v = g.pick([1, 7, "z", "a", "???", None, False, 2.5])
        at_spec(t, p[:-1])[p[-1]] = Lit(v)
        key_at(cfg, p[:-1])[p[-1]] = v
        g.log.append("%s := %r" % (p, v))
        for q in ps:
            compare(g, cfg, t, q, outcome(accesses(g, cfg, q)[0][1]), "access")
    # a new interpolation written into the tree, and one removed
    p = g.pick(leaves(t))
    if p:
        x = mkref(g, t, p, ps, 0.1, 0)
        at_spec(t, p[:-1])[p[-1]] = x
        key_at(cfg, p[:-1])[p[-1]] = render(x)
        g.log.append("%s := %r" % (p, render(x)))
        for q in ps:
            compare(g, cfg, t, q, outcome(accesses(g, cfg, q)[0][1]), "access")


def c_moved(g):
    """relative interpolations follow the place the node is at"""
    t = add_refs(g, gen_tree(g, 2), 0.5, 0.05, 0, cats=False)
    cfg = OmegaConf.create(render(t))
    sub = OmegaConf.create(render(t))
    outer = OmegaConf.create({"a": {"a": 1, "b": {"c": 2}}, "l": [0]})
    ot = {"a": {"a": Lit(1), "b": {"c": Lit(2)}}, "l": [Lit(0)]}
    how = g.r.randrange(4)
    if how == 0:
        outer.a.sub = sub
        ot["a"]["sub"] = t
    elif how == 1:
        outer.l.append(sub)
        ot["l"].append(t)
    elif how == 2:
        outer.l.insert(0, sub)
        ot["l"].insert(0, t)
    else:
        outer = OmegaConf.merge(outer, {"a": {"b": {"sub": sub}}})
        ot["a"]["b"]["sub"] = t
    g.log.append("%r" % (render(ot),))
    for p in all_paths(ot):
        if p:
            compare(g, outer, ot, p, outcome(accesses(g, outer, p)[0][1]), "access")
    if isinstance(t, list) and len(t) > 1:
        del sub
    # list positions shift
    if len(ot["l"]) > 1:
        outer.l.pop(0)
        ot["l"].pop(0)
        for p in all_paths(ot):
            if p:
                compare(g, outer, ot, p, outcome(accesses(g, outer, p)[0][1]), "access after pop")


CLS = {"i": "IntegerNode", "f": "FloatNode", "b": "BooleanNode", "s": "StringNode", "by": "BytesNode", "p": "PathNode", "c": "EnumNode"}


def c_typed(g):
    """conversion to the declared type of the referring node"""
    vals = [1, 0, "5", "x", 2.5, True, None, "yes", "RED", "Color.BLUE", b"b", pathlib.Path("q"), sc.Color.GREEN, "1.5", "", {"z": 1}, [1]]
    for _ in range(8):
        f = g.pick(list(CLS))
        v = copy.deepcopy(g.pick(vals))
        root = OmegaConf.create({"t": sc.Typed, "v": v})
        root.t[f] = "${v}"
        o = outcome(lambda: root.t[f])
        g.log.append("%s <- %r" % (f, v))
        if isinstance(v, (dict, list)):
            check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "a %s interpolating %r gives %r", CLS[f], v, o)
            continue
        if v is None:
            check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "a non-optional %s interpolating None gives %r", CLS[f], o)
            continue
        e = conv(CLS[f], v, sc.Color)
        if e[0] == "ok":
            check(o[0] == "ret" and tv(o[1]) == tv(e[1]), "a %s interpolating %r gives %r, expected %r", CLS[f], v, o, e[1])
        else:
            check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "a %s interpolating %r gives %r, expected an error", CLS[f], v, o)
        check(plain(root._get_node("t"))[f] == "${v}" and tv(plain(root)["v"]) == tv(v), "reading a typed interpolation modified the config")
        root.v = 3
        o2 = outcome(lambda: root.t[f])
        e2 = conv(CLS[f], 3, sc.Color)
        check((o2[0] == "ret" and tv(o2[1]) == tv(e2[1])) if e2[0] == "ok" else o2[0] == "exc", "after changing the target a %s gives %r", CLS[f], o2)


def c_chain(g):
    """long chains and cycles of every length, in dicts and lists"""
    n = g.r.randrange(1, 25)
    cyc = g.p(0.5)
    keys = ["k%d" % i for i in range(n)]
    styles = g.r.randrange(4)

    def ref(i):
        if styles == 0:
            return "${k%d}" % i
        if styles == 1:
            return "${.k%d}" % i
        if styles == 2:
            return "x${k%d}" % i
        return "${${n%d}}" % i
    d = {keys[i]: ref((i + 1) % n) for i in range(n)}
    if styles == 3:
        d.update({"n%d" % i: keys[i] for i in range(n)})
    if not cyc:
        d[keys[-1]] = 7
    cfg = OmegaConf.create(d)
    g.log.append(repr(d))
    for i in range(n):
        o = outcome(lambda: cfg[keys[i]])
        if cyc:
            check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "a cycle of length %d gives %s", n, okind(o))
        else:
            e = 7 if styles != 2 or i == n - 1 else "x" * (n - 1 - i) + "7"
            check(o[0] == "ret" and tv(o[1]) == tv(e), "a chain of length %d gives %r, expected %r", n, o, e)


def c_twice(g):
    """one expression that refers to the same node several times, and to nodes through other interpolations"""
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("pack", lambda *a: (a,))
    try:
        d = {"d": {"x": 1, "e": {"y": "q"}}, "l": [{"z": 2}, [3, 4]], "v": 7, "s": "t", "rd": "${d}", "rl": "${l[0]}", "rr": "${rd}", "re": "${rd.e}", "rv": "${d.x}"}
        tgt = {"d": "d", "d.e": "d.e", "l": "l", "l[0]": "l[0]", "l[1]": "l[1]", "rd": "d", "rl": "l[0]", "rr": "d", "re": "d.e", "rd.e": "d.e", "rr.e": "d.e"}
        val = {"v": 7, "s": "t", "d.x": 1, "rd.x": 1, "rv": 1, "l[1][0]": 3, "rl.z": 2, "re.y": "q", "rr.e.y": "q"}
        names = [g.pick(list(tgt) + list(val)) for _ in range(g.r.randrange(1, 5))]
        names += [g.pick(names) for _ in range(2)]
        cfg = OmegaConf.create(d)

        def want(n, got):
            if n in tgt:
                o = cfg
                for part in tgt[n].replace("]", "").replace("[", ".").split("."):
                    o = content(o)[int(part) if part.isdigit() else part]
                check(got is o, "the argument ${%s} is %r", n, got)
            else:
                check(tv(got) == tv(val[n]), "the argument ${%s} is %r, expected %r", n, got, val[n])
        k = g.r.randrange(4)
        refs = ["${%s}" % n for n in names]
        if k == 0:
            e = "${pack:%s}" % ",".join(refs)
        elif k == 1:
            e = "${pack:[%s]}" % ",".join(refs)
        elif k == 2:
            e = "${pack:{%s}}" % ",".join("k%d: %s" % (i, r) for i, r in enumerate(refs))
        else:
            e = "-".join("${%s}" % n for n in names if n in val) + "x"
        cfg.r = e
        g.log.append(e)
        before = full_snap(cfg)
        for _ in range(2):
            o = outcome(lambda: cfg.r)
            check(o[0] == "ret", "reading %r raises %s: %s", e, okind(o), o[1])
            if k == 3:
                check(o[1] == "-".join(str(val[n]) for n in names if n in val) + "x", "%r gives %r", e, o[1])
            else:
                a = o[1][0]
                a = a if k == 0 else (a[0] if k == 1 else list(a[0].values()))
                check(len(a) == len(names), "%r gives %r", e, o[1])
                for n, x in zip(names, a):
                    want(n, x)
        check(full_snap(cfg) == before, "resolving %r modified the config", e)
    finally:
        OmegaConf.clear_resolvers()


def c_fixed(g):
    """special places: containers that are interpolations, interpolations through them, self references, unions"""
    for d in [{"a": "${a}"}, {"a": "${.a}"}, {"a": {"b": "${a}"}}, {"a": {"b": "${..a}"}}, {"a": ["${a}"]}, {"a": "${a.b}"}, {"a": "${b.c}", "b": "${a}"}, {"a": "${b}", "b": {"c": "${a.c}"}},
              {"a": ["${a[0]}"]}, {"a": {"b": "${.b}"}}, {"a": "${..x}"}]:
        c = OmegaConf.create(d)

        def rd(n):
            for k in list(content(n)) if isinstance(content(n), dict) else range(len(content(n))):
                o = outcome(lambda: n[k])
                raw = content(n)[k]
                if isinstance(content(raw), str):
                    ok = o[0] == "exc" and isinstance(o[1], (oe.InterpolationResolutionError, oe.GrammarParseError))
                    if not ok and d == {"a": "${b}", "b": {"c": "${a.c}"}} and k == "a":
                        continue
                    check(ok, "%r: reading %r gives %r", d, k, o)
                elif isinstance(raw, Container):
                    rd(raw)
        rd(c)
    u = OmegaConf.create({"t": sc.Typed, "v": 5, "w": 1.5})
    u.t.u = "${v}"
    check(u.t.u == 5, "a union interpolation gives %r", u.t.u)
    u.t.u = "${w}"
    outcome(lambda: u.t.u)


CASES = [("tree", 5000, c_tree), ("moved", 1200, c_moved), ("typed", 1200, c_typed), ("chain", 300, c_chain), ("twice", 800, c_twice), ("fixed", 2, c_fixed)]
