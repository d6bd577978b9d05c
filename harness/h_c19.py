"""C19 a mapping config against a Python dict"""
from lib import *
import typing

KEYSET = ["a", "b", "c", "d", "e f", "x-y", "keys", "items", "get", "1", "", "_content", "é", "__x", "copy", "a.b"]
ODD = [1, 0, 2, True, False, 2.5, 1.0, b"k", sc.Color.RED, -1, 0.0]


def val(g):
    k = g.r.randrange(10)
    if k < 6:
        return g.pick([1, 2, 0, "a", "", True, False, None, 1.5, "x y", b"z", -1, sc.Color.RED])
    if k < 8:
        return {g.pick(["a", "b", 1]): g.pick([1, 2, "z"]) for _ in range(g.r.randrange(0, 3))}
    return [g.pick([1, "q", None]) for _ in range(g.r.randrange(0, 3))]


def pl(x):
    if isinstance(x, Node):
        return plain(x)
    if isinstance(x, (list, tuple)):
        return type(x)(pl(y) for y in x)
    return x


def idents(m):
    return [k for k in m if isinstance(k, str) and k and not hasattr(DictConfig, k) and not k.startswith("_")]


def step(g, c, m, mkk, mkv):
    key = lambda: g.pick(list(m)) if m and g.p(0.6) else mkk(g)
    k = g.r.randrange(26)
    kk, v = key(), mkv(g)
    dv = copy.deepcopy
    if k < 3:
        return "[%r] = %r" % (kk, v), lambda x: x.__setitem__(kk, dv(v))
    if k == 3:
        return "[%r]" % (kk,), lambda x: x[kk]
    if k == 4:
        return "get(%r)" % (kk,), lambda x: x.get(kk)
    if k == 5:
        return "get(%r, 'D')" % (kk,), lambda x: x.get(kk, "D")
    if k == 6:
        return "%r in" % (kk,), lambda x: kk in x
    if k == 7:
        return "del [%r]" % (kk,), lambda x: x.__delitem__(kk)
    if k == 8:
        return "pop(%r)" % (kk,), lambda x: x.pop(kk)
    if k == 9:
        d = g.pick([None, 0, "D", False])
        return "pop(%r, %r)" % (kk, d), lambda x: x.pop(kk, d)
    if k == 10:
        return "setdefault(%r, %r)" % (kk, v), lambda x: x.setdefault(kk, dv(v))
    if k == 11:
        return "setdefault(%r)" % (kk,), lambda x: x.setdefault(kk)
    if k in (12, 13):
        u = {key(): mkv(g) for _ in range(g.r.randrange(0, 3))}
        how = g.r.randrange(4)
        if how == 0:
            return "update(%r)" % (u,), lambda x: x.update(dv(u))
        if how == 1:
            return "update(pairs %r)" % (u,), lambda x: x.update([(a, dv(b)) for a, b in u.items()])
        if how == 2:
            ks = {a: b for a, b in u.items() if isinstance(a, str) and a.isidentifier()}
            return "update(**%r)" % (ks,), lambda x: x.update(**dv(ks))
        return "update(config %r)" % (u,), lambda x: x.update(OmegaConf.create(dv(u)) if x is c else dv(u))
    if k == 14:
        return "len, iter", lambda x: [len(x), list(x), list(x.keys()), bool(x)]
    if k == 15:
        return "values", lambda x: [pl(y) for y in x.values()]
    if k == 16:
        return "items", lambda x: [(a, pl(b)) for a, b in x.items()]
    if k == 17 and g.p(0.3):
        return "clear()", lambda x: x.clear()
    if k == 18:
        return "copy()", lambda x: pl(x.copy())
    if k == 19:
        o = dv(m)
        if o and g.p(0.6):
            w = g.r.randrange(3)
            if w == 0:
                o.pop(g.pick(list(o)))
            elif w == 1:
                o[g.pick(list(o))] = mkv(g)
            else:
                o[mkk(g)] = mkv(g)
        t = OmegaConf.create(dv(o)) if g.p(0.5) else o
        return "== %r" % (o,), lambda x: [x == (t if x is c else o), x != (t if x is c else o)]
    if k == 20:
        return "popitem()", None
    if k == 21:
        ids = idents(m) or ["a"]
        a = g.pick(ids + ["zz"])
        return ".%s" % a, lambda x: getattr(x, a) if x is c else x[a]
    if k == 22:
        a = g.pick(["a", "b", "c", "zz"])
        return ".%s = %r" % (a, v), lambda x: setattr(x, a, dv(v)) if x is c else x.__setitem__(a, dv(v))
    if k == 23:
        a = g.pick((idents(m) or ["a"]) + ["zz"])
        return "del .%s" % a, lambda x: delattr(x, a) if x is c else x.__delitem__(a)
    if k == 24:
        return "keys()", lambda x: [kk in x.keys(), len(x.keys()), sorted(map(repr, x.keys()))]
    if k == 25:
        return "hasattr", None
    return None


def run(g, c, m, mkk, mkv, steps, typed=False):
    for _ in range(steps):
        s = step(g, c, m, mkk, mkv)
        if typed and s is not None and (s[0][0] == "." or s[0].startswith(("del .", "hasattr", "update(**")) or s[0].startswith("setdefault") and s[0].count(",") == 0):
            continue  # names and None are not keys and values of every type
        if s is None:
            continue
        what, f = s
        before = copy.deepcopy(m)
        g.log.append("%r %s" % (before, what))
        if what == "popitem()":
            b = outcome(lambda: c.popitem())
            if not m:
                check(b[0] == "exc" and isinstance(b[1], KeyError), "popitem of an empty config gives %s", okind(b))
            else:
                check(b[0] == "ret", "popitem of %r raises %s", before, okind(b))
                k, v = b[1]
                check(k in m and tv(m[k]) == tv(pl(v)), "popitem of %r gives %r", before, (k, pl(v)))
                del m[k]
        elif what == "hasattr":
            # item access, attribute access and get agree for every string key
            for k in list(m) + ["zz", "a", "q"]:
                if not isinstance(k, str) or hasattr(DictConfig, k) or k.startswith("_"):
                    continue
                i, a, t = outcome(lambda: c[k]), outcome(lambda: getattr(c, k)), outcome(lambda: c.get(k, "NOPE"))
                if k in m:
                    check(i[0] == a[0] == t[0] == "ret" and tv(pl(i[1])) == tv(pl(a[1])) == tv(pl(t[1])) == tv(m[k]), "item, attribute and get of %r disagree: %s %s %s", k, i, a, t)
                else:
                    check(i[0] == "exc" and isinstance(i[1], KeyError) and a[0] == "exc" and isinstance(a[1], AttributeError) and t == ("ret", "NOPE"), "absent key %r: %s %s %s", k, i, a, t)
        else:
            a, b = outcome(lambda: f(m)), outcome(lambda: f(c))
            if a[0] == "exc":
                check(b[0] == "exc", "%r %s raises %s, the config returns %r", before, what, okind(a), b[1])
                exp = AttributeError if "." == what[0] or what.startswith("del .") else type(a[1])
                check(isinstance(b[1], exp), "%r %s raises %s, the config %s", before, what, okind(a), okind(b))
            else:
                check(b[0] == "ret", "%r %s: the config raises %s", before, what, okind(b) + " " + str(b[1])[:200] if b[0] == "exc" else "")
                check(tv(pl(b[1])) == tv(pl(a[1])), "%r %s gives %r, the dict %r", before, what, pl(b[1]), a[1])
        check(tv(plain(c)) == tv(m), "after %r %s the config holds %r, the dict %r", before, what, plain(c), m)
        wellformed(c)


KIND = [("any", {}, lambda g: g.pick(KEYSET) if g.p(0.75) else g.pick(ODD), val), ("str-int", dict(key_type=str, element_type=int), lambda g: g.pick(["a", "b", "c", "x y"]), lambda g: g.r.randrange(-2, 5)),
        ("int-str", dict(key_type=int, element_type=str), lambda g: g.r.randrange(-2, 4), lambda g: g.pick(["a", "b", ""])),
        ("float-oint", dict(key_type=float, element_type=typing.Optional[int]), lambda g: g.pick([0.5, 1.5, -2.0]), lambda g: g.pick([None, 1, 0])),
        ("color-any", dict(key_type=sc.Color), lambda g: g.pick(list(sc.Color)), val), ("bytes-any", dict(key_type=bytes), lambda g: g.pick([b"", b"a", b"b"]), val),
        ("bool-any", dict(key_type=bool), lambda g: g.p(0.5), val), ("str-union", dict(key_type=str, element_type=typing.Union[int, str]), lambda g: g.pick(["a", "b"]), lambda g: g.pick([1, "x", 0]))]


def c_ops(g):
    name, kw, mkk, mkv = g.pick(KIND[:1] * 6 + KIND[1:])
    m = {}
    for _ in range(g.r.randrange(0, 5)):
        m[mkk(g)] = mkv(g)
    if kw:
        c = DictConfig(copy.deepcopy(m), **kw)
    else:
        c = OmegaConf.create(copy.deepcopy(m)) if g.p(0.5) else OmegaConf.create({"a": [{"d": copy.deepcopy(m)}]}).a[0].d
    run(g, c, m, mkk, mkv, 10, bool(kw))


def c_nested(g):
    root = {"a": {"b": {"c": 1}, "l": [{"x": 1}, 2]}, "z": {}}
    c, m = OmegaConf.create(root), copy.deepcopy(root)
    for _ in range(5):
        sel = g.pick([lambda x: x["a"], lambda x: x["a"]["b"], lambda x: x["z"], lambda x: x["a"]["l"][0], lambda x: x])
        try:
            mm = sel(m)
        except (KeyError, TypeError, IndexError):
            continue
        if not isinstance(mm, dict):
            continue
        run(g, sel(c), mm, KIND[0][2], val, 2)
        check(tv(plain(c)) == tv(m), "the config holds %r, expected %r", plain(c), m)
        wellformed(c)


CASES = [("ops", 9000, c_ops), ("nested", 1500, c_nested)]
