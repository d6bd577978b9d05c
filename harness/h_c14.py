"""C14 resolver registry against a map, caches against call counts"""
from iw import *
import functools

DEFAULTS = ["oc.create", "oc.decode", "oc.deprecated", "oc.env", "oc.select", "oc.dict.keys", "oc.dict.values"]
NAMES = ["a", "b", "ns.x", "ns.y.z", "res_1", "A-b", "oc.mine", "_u", "ns", "ns.y", "a.b", "A", "ns.x2", "oc"]


class Callable_:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, *a):
        return (self.tag,) + a

    def meth(self, *a):
        return (self.tag,) + a


def mkres(g, tag):
    k = g.r.randrange(5)
    if k == 0:
        return Callable_(tag)
    if k == 1:
        return Callable_(tag).meth
    if k == 2:
        return functools.partial(lambda t, *a: (t,) + a, tag)
    return lambda *a: (tag,) + a


def call(name, cfg=None):
    c = OmegaConf.create({"v": "${%s:}" % name})
    o = outcome(lambda: c.v)
    if o[0] == "exc" and isinstance(o[1], oe.UnsupportedInterpolationType):
        return None
    return o[1] if o[0] == "ret" else "ERR"


def verify(model, extra=()):
    for n in set(NAMES) | set(model) | set(extra) | set(DEFAULTS):
        h = OmegaConf.has_resolver(n)
        check(h is (n in model), "has_resolver(%r) is %s, expected %s", n, h, n in model)
    for n in NAMES:
        got = call(n)
        exp = model.get(n)
        check(got == ((exp,) if exp is not None else None), "resolver %r gives %r, expected %r", n, got, exp)
    check(set(BaseContainer._resolvers) == set(model), "the registry has %s, expected %s", sorted(BaseContainer._resolvers), sorted(model))


def c_registry(g):
    OmegaConf.clear_resolvers()
    model = {n: "D" for n in DEFAULTS}
    verify(model)
    for step in range(12):
        n = g.pick(NAMES) if g.p(0.85) else g.pick(DEFAULTS)
        k = g.r.randrange(10)
        tag = "t%d" % step
        g.log.append("%d %s" % (k, n))
        keep = dict(BaseContainer._resolvers)
        if k < 3:
            o = outcome(lambda: OmegaConf.register_new_resolver(n, mkres(g, tag), use_cache=g.p(0.3)))
            if n in model:
                check(o[0] == "exc" and isinstance(o[1], ValueError), "registering the existing name %r gives %s", n, okind(o))
            else:
                check(o == ("ret", None), "registering %r gives %s", n, okind(o))
                model[n] = tag
        elif k == 3:
            o = outcome(lambda: OmegaConf.register_new_resolver(n, mkres(g, tag), replace=True))
            check(o == ("ret", None), "replacing %r gives %s", n, okind(o))
            model[n] = tag
        elif k == 4:
            bad = g.pick([("", lambda: 1), (n, 5), (n, None), (n, "x"), ("", 3)])
            rep = g.p(0.5)
            o = outcome(lambda: OmegaConf.register_new_resolver(bad[0], bad[1], replace=rep))
            check(o[0] == "exc" and isinstance(o[1], (ValueError, TypeError)), "registering %r gives %s", bad, okind(o))
            check(BaseContainer._resolvers == keep, "a failed registration changed the registry")
        elif k == 5:
            f = g.pick([lambda x, _parent_: x, lambda x, _root_: x, lambda x, *, _node_: x])
            o = outcome(lambda: OmegaConf.register_new_resolver(n, f, replace=True, use_cache=True))
            check(o[0] == "exc" and isinstance(o[1], ValueError), "registering a cached resolver with context arguments gives %s", okind(o))
            check(BaseContainer._resolvers == keep, "a failed registration changed the registry")
        elif k < 8:
            o = outcome(lambda: OmegaConf.clear_resolver(n))
            check(o == ("ret", n in model), "clear_resolver(%r) gives %s, registered %s", n, o, n in model)
            model.pop(n, None)
        elif k == 8:
            OmegaConf.clear_resolvers()
            model = {x: "D" for x in DEFAULTS}
        else:
            o = outcome(lambda: OmegaConf.legacy_register_resolver(n, functools.partial(lambda t, *a: (t,) + a, tag)))
            check((o[0] == "exc") == (n in model), "legacy registration of %r gives %s", n, okind(o))
            if n not in model:
                model[n] = tag
        verify(model)


ARGS = [("1", 1), ("-3", -3), ("1.5", 1.5), ("true", True), ("FALSE", False), ("null", None), ("abc", "abc"), ("'1'", "1"), ('"x,y"', "x,y"), ("[1,2]", [1, 2]), ("{k: 1}", {"k": 1}), ("a b", "a b"), ("a\\,b", "a,b"),
        ("a\\ ", "a "), ("1_000", 1000), ("''", ""), ("x/y-z", "x/y-z"), ("[]", []), ("{}", {}), ("[a,'b']", ["a", "b"]), ("1e3", 1000.0), ("a:b", "a:b"), ("nan_", "nan_")]


def c_args(g):
    """arguments as parsed, context arguments, a call on every access without cache"""
    calls = []
    want = [w for w in ("_parent_", "_node_", "_root_") if g.p(0.5)]
    src = "lambda *a, %s: rec(a, dict(%s))" % (", ".join(w + "=None" for w in want) if want else "**kw", ", ".join("%s=%s" % (w, w) for w in want))

    def rec(a, kw):
        calls.append((a, kw))
        return len(calls)
    fn = eval(src, {"rec": rec})
    OmegaConf.register_new_resolver("rec", fn)
    args = [g.pick(ARGS) for _ in range(g.r.randrange(0, 4))]
    use_ref = g.p(0.3)
    v = g.pick([5, "s", None, True])
    txt = [a for a, _ in args] + (["${val}"] if use_ref else [])
    exp = [b for _, b in args] + ([v] if use_ref else [])
    expr = "${rec:" + g.pick([",", ", ", " , "]).join(txt) + "}"
    d = {"val": v, "p": {"q": [0, {"x": expr}]}, "top": expr}
    c = OmegaConf.create(d)
    g.log.append("%s %s" % (expr, want))
    for n in range(g.r.randrange(1, 4)):
        calls.clear()
        deep = g.p(0.5)
        r = c.p.q[1].x if deep else c.top
        check(len(calls) == 1 and r == 1, "an access calls the resolver %d times and gives %r", len(calls), r)
        a, kw = calls[0]
        check(tv(list(a)) == tv(exp), "%s passes %r, expected %r", expr, a, exp)
        check(set(kw) == set(want), "%s passes the context arguments %s, requested %s", expr, list(kw), want)
        par = c.p.q[1] if deep else c
        for w, e in (("_parent_", par), ("_root_", c), ("_node_", par._get_node("x" if deep else "top"))):
            if w in want:
                check(kw[w] is e, "%s: %s is %r, expected %r", expr, w, kw[w], e)
        if use_ref:
            v = g.pick([6, "t", False])
            c.val = v
            exp[-1] = v


def c_cache(g):
    """called once per config and distinct argument texts until the cache is cleared; without caching on every access"""
    calls = []
    cached = g.p(0.75)

    def f(*a):
        calls.append(a)
        if fail[0]:
            raise ValueError("x")
        return object() if objs else len(calls)
    objs = False
    fail = [False]
    OmegaConf.register_new_resolver("f", f, use_cache=cached)
    OmegaConf.register_new_resolver("g", lambda *a: calls.append(("g",) + a) or ("g", len(calls)), use_cache=True)
    texts = ["1", "2", "'1'", "a", "a,b", "[1]", "", "1,2", "null"]
    cfgs = [OmegaConf.create({"k%d" % i: "${%s:%s}" % (r, t) for i, (t, r) in enumerate((t, r) for t in texts for r in ("f", "g"))}) for _ in range(2)]
    for c in cfgs:
        c.sub = {"s%d" % i: "${f:%s}" % t for i, t in enumerate(texts)}
    model = [{}, {}]
    for _ in range(25):
        ci = g.r.randrange(2)
        c = cfgs[ci]
        k = g.r.randrange(14)
        if k == 0:
            OmegaConf.clear_cache(c)
            model[ci] = {}
            g.log.append("clear %d" % ci)
            continue
        if k == 1:
            OmegaConf.copy_cache(cfgs[1 - ci], c)
            model[ci] = dict(model[1 - ci])
            g.log.append("copy to %d" % ci)
            continue
        if k == 2:
            x = OmegaConf.get_cache(c)
            OmegaConf.set_cache(c, x)
            continue
        i = g.r.randrange(len(texts))
        r = g.pick(["f", "f", "g"])
        fail[0] = k == 3 and r == "f"
        sub = r == "f" and g.p(0.4)
        calls.clear()
        n0 = len(calls)
        marker = g.r.randrange(10 ** 6)
        o = outcome(lambda: c.sub["s%d" % i] if sub else c["k%d" % (2 * i + (r == "g"))])
        g.log.append("read %s:%s of %d sub=%s fail=%s -> %r calls %d" % (r, texts[i], ci, sub, fail[0], o, len(calls)))
        key = (r, texts[i])
        usecache = cached or r == "g"
        if usecache and key in model[ci]:
            check(len(calls) == 0, "the cached resolver is called again")
            check(o == ("ret", model[ci][key]), "the cached value is %r, expected %r", o, model[ci][key])
        else:
            check(len(calls) == 1, "the resolver is called %d times on an access", len(calls))
            if fail[0]:
                check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "a failing resolver gives %s", okind(o))
            else:
                check(o[0] == "ret", "a resolver gives %s", okind(o))
                if usecache:
                    model[ci][key] = o[1]
        fail[0] = False


def c_builtin(g):
    """built-in resolvers survive clear_resolvers and clearing others"""
    import os
    OmegaConf.register_new_resolver("zz", lambda: 1)
    OmegaConf.clear_resolvers()
    c = OmegaConf.create({"d": {"a": 1, "b": "${e}"}, "e": 5, "k": "${oc.dict.keys:d}", "v": "${oc.dict.values:d}", "s": "${oc.select:d.a,9}", "dec": "${oc.decode:'[1,{a:2}]'}", "cr": "${oc.create:{x:1}}",
                          "dep": "${oc.deprecated:e}", "z": "${zz:}", "s2": "${oc.select:nope,9}", "dn": "${oc.decode:null}", "d3": "${oc.decode:'${e}'}"})
    check(list(c.k) == ["a", "b"] and list(c.v) == [1, 5] and c.s == 1 and c.s2 == 9 and c.dec == [1, {"a": 2}] and c.cr == {"x": 1} and c.dn is None and c.d3 == 5, "built-in resolvers")
    check(c.dep == 5, "oc.deprecated")
    o = outcome(lambda: c.z)
    check(o[0] == "exc" and isinstance(o[1], oe.UnsupportedInterpolationType), "a cleared resolver gives %s", o)
    c.e = 6
    check(list(c.v) == [1, 6], "oc.dict.values follows changes")
    name = g.pick(DEFAULTS)
    check(OmegaConf.clear_resolver(name) is True and not OmegaConf.has_resolver(name) and all(OmegaConf.has_resolver(x) for x in DEFAULTS if x != name), "clear_resolver(%r)", name)
    OmegaConf.clear_resolvers()
    check(all(OmegaConf.has_resolver(x) for x in DEFAULTS), "clear_resolvers does not restore the built-ins")


CASES = [("registry", 700, c_registry), ("args", 2500, c_args), ("cache", 1000, c_cache), ("builtin", 40, c_builtin)]
