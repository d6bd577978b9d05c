"""C15 a list config against a Python list"""
from lib import *
import typing

SPECIAL = ("???",)


def elem(g):
    k = g.r.randrange(10)
    if k < 6:
        return g.pick([1, 2, 3, 0, "a", "b", "", True, False, None, 1.5, 1.0, "x y", b"z", -1, sc.Color.RED])
    if k < 8:
        return {g.pick(["a", "b"]): g.pick([1, 2, "z"]) for _ in range(g.r.randrange(0, 3))}
    return [g.pick([1, "q", None]) for _ in range(g.r.randrange(0, 3))]


KIND = [("any", None, elem), ("int", int, lambda g: g.r.randrange(-3, 4)), ("str", str, lambda g: g.pick(["a", "b", "", "zz", "10"])), ("union", typing.Union[int, str], lambda g: g.pick([1, 2, "a", "b", 0])),
        ("oint", typing.Optional[int], lambda g: g.pick([None, 1, 2, 0])), ("lint", typing.List[int], lambda g: [g.r.randrange(3) for _ in range(g.r.randrange(3))])]


def errkind(e):
    for t in (IndexError, ValueError, TypeError):
        if isinstance(e, t):
            return t.__name__
    return "other"


def pl(x):
    if isinstance(x, Node):
        return plain(x)
    if isinstance(x, list):
        return [pl(y) for y in x]
    return x


def idx(g, n):
    return g.r.randrange(-n - 2, n + 3)


def sli(g, n, steps=(None, None, None, 1, 2, -1, -2, 3)):
    f = lambda: None if g.p(0.3) else g.pick([idx(g, n), idx(g, n), 10 ** 9, -10 ** 9])
    return slice(f(), f(), g.pick(steps))


def conv(g, v):
    """the value as a plain list, tuple or config"""
    k = g.r.randrange(4)
    return copy.deepcopy(v) if k < 2 else (tuple(copy.deepcopy(v)) if k == 2 else OmegaConf.create(copy.deepcopy(v)))


def same_list(c, m, what):
    check(tv(plain(c)) == tv(m), "%s: the config holds %r, the list %r", what, plain(c), m)
    for i, (k, x) in enumerate(children(c)):
        check(x._metadata.key == i and type(x._metadata.key) is int, "%s: the element at position %d has key %r", what, i, x._metadata.key)
        check(x.__dict__["_parent"] is c, "%s: the element at position %d has another parent", what, i)


def step(g, c, m, mk):
    """one operation on the config and on the list; returns (description, config, list)"""
    n = len(m)
    k = g.r.randrange(30)
    new = lambda: mk(g)
    some = lambda: copy.deepcopy(g.pick(m)) if m and g.p(0.6) else new()
    if k == 0:
        v = new()
        return "append(%r)" % (v,), lambda x: x.append(copy.deepcopy(v)), None
    if k in (1, 2):
        i, v = idx(g, n), new()
        return "insert(%r, %r)" % (i, v), lambda x: x.insert(i, copy.deepcopy(v)), None
    if k == 3:
        vs = [new() for _ in range(g.r.randrange(0, 3))]
        t = conv(g, vs)
        return "extend(%r)" % (vs,), lambda x: x.extend(copy.deepcopy(t) if x is c else copy.deepcopy(vs)), None
    if k == 4:
        return "extend(self)", lambda x: x.extend(x if x is c else copy.deepcopy(x)), None
    if k == 5:
        i = idx(g, n)
        return "pop(%r)" % i, lambda x: x.pop(i), None
    if k == 6:
        return "pop()", lambda x: x.pop(), None
    if k == 7:
        v = some()
        return "remove(%r)" % (v,), lambda x: x.remove(v), None
    if k == 8:
        v = some()
        return "index(%r)" % (v,), lambda x: x.index(v), None
    if k == 9:
        v, a, b = some(), g.r.randrange(0, n + 1), g.r.randrange(0, n + 1)
        return "index(%r, %r, %r)" % (v, a, b), lambda x: x.index(v, a, b), None
    if k == 10:
        v = some()
        return "count(%r)" % (v,), lambda x: x.count(v), None
    if k == 11:
        v = some()
        return "%r in" % (v,), lambda x: v in x, None
    if k == 12:
        i = idx(g, n)
        return "[%r]" % i, lambda x: x[i], None
    if k in (13, 14):
        s = sli(g, n)
        return "[%r]" % s, lambda x: x[s], None
    if k in (15, 16):
        i, v = idx(g, n), new()
        return "[%r] = %r" % (i, v), lambda x: x.__setitem__(i, copy.deepcopy(v)), None
    if k in (17, 18, 19):
        s = sli(g, n)
        ln = len(range(*s.indices(n))) if g.p(0.5) else g.r.randrange(0, 4)
        vs = [new() for _ in range(ln)]
        t = conv(g, vs)
        return "[%r] = %r" % (s, vs), lambda x: x.__setitem__(s, t if x is c else copy.deepcopy(vs)), None
    if k == 20:
        i = idx(g, n)
        return "del [%r]" % i, lambda x: x.__delitem__(i), None
    if k == 21:
        s = sli(g, n)
        return "del [%r]" % s, lambda x: x.__delitem__(s), None
    if k == 22:
        if len({type(x) for x in m}) > 1 or any(isinstance(x, (dict, list, type(None), enum.Enum)) for x in m):
            return None
        r = g.p(0.5)
        return "sort(reverse=%s)" % r, lambda x: x.sort(reverse=r), None
    if k == 23:
        if any(isinstance(x, (dict, list)) for x in m):
            return None
        r, f = g.p(0.5), g.pick([repr, lambda x: len(repr(x)), lambda x: (str(type(x)), repr(x)[::-1])])
        return "sort(key, reverse=%s)" % r, lambda x: x.sort(key=f, reverse=r), None
    if k == 24:
        return "reverse()", lambda x: x.reverse(), None
    if k == 25 and g.p(0.3):
        return "clear()", lambda x: x.clear(), None
    if k == 26:
        return "len, list, bool", lambda x: [len(x), [pl(y) for y in x], bool(len(x)), [pl(y) for y in reversed(x)]], None
    if k == 27:
        vs = [new() for _ in range(g.r.randrange(0, 3))]
        side = g.r.randrange(3)
        if side == 0:
            return "+ %r" % (vs,), lambda x: x + vs, None
        if side == 1:
            return "%r +" % (vs,), lambda x: vs + x, None
        return "self + self", lambda x: x + (x if x is c else copy.deepcopy(x)), None
    if k == 28:
        o = copy.deepcopy(m)
        if o and g.p(0.5):
            w = g.r.randrange(3)
            if w == 0:
                o.pop(g.r.randrange(len(o)))
            elif w == 1:
                o[g.r.randrange(len(o))] = new()
            else:
                o.reverse()
        t = OmegaConf.create(o) if g.p(0.5) else o
        return "== %r" % (o,), lambda x: [x == (t if x is c else o), x != (t if x is c else o)], None
    if k == 29:
        return "self[%r] = self", lambda x: x.__setitem__(slice(idx0, idx0), copy.deepcopy(x) if x is not c else x), None
    return None


def run(g, c, m, mk, steps):
    global idx0
    for _ in range(steps):
        idx0 = g.r.randrange(0, len(m) + 1)
        s = step(g, c, m, mk)
        if s is None:
            continue
        what, f = s[0], s[1]
        before = copy.deepcopy(m)
        g.log.append("%r %s" % (before, what))
        a, b = outcome(lambda: f(m)), outcome(lambda: f(c))
        if a[0] == "exc":
            check(b[0] == "exc", "%r %s raises %s, the config returns %r", before, what, okind(a), b[1])
            check(errkind(a[1]) == errkind(b[1]), "%r %s raises %s, the config %s", before, what, okind(a), okind(b))
        else:
            check(b[0] == "ret", "%r %s: the config raises %s", before, what, okind(b) + " " + str(b[1])[:200] if b[0] == "exc" else "")
            check(tv(pl(b[1])) == tv(a[1]), "%r %s gives %r, the list %r", before, what, pl(b[1]), a[1])
        same_list(c, m, "after %r %s" % (before, what))
        if len(m) > 12:
            del m[4:]
            del c[4:]


def c_ops(g):
    name, et, mk = g.pick(KIND[:1] * 4 + KIND[1:])
    m = [mk(g) for _ in range(g.r.randrange(0, 6))]
    if et is None:
        c = OmegaConf.create(copy.deepcopy(m)) if g.p(0.5) else OmegaConf.create({"a": {"l": copy.deepcopy(m)}}).a.l
    else:
        c = ListConfig(copy.deepcopy(m), element_type=et)
    run(g, c, m, mk, 10)


def c_enum(g):
    """all small slices and indices, for reading, deletion, insertion and assignment"""
    n = g.i % 6
    st = [None, 1, 2, 3, -1, -2, -3, 5][(g.i // 6) % 8]
    base = list(range(n))
    vals = [None] + list(range(-n - 2, n + 3))
    for a in vals:
        for b in vals:
            s = slice(a, b, st)
            c, m = OmegaConf.create(base), list(base)
            check(c[s] == m[s] and tv(list(c[s])) == tv(m[s]), "%r[%r] is %r", m, s, c[s])
            del c[s], m[s]
            same_list(c, m, "del %r" % s)
            for ln in {0, 1, 2, len(range(*s.indices(n)))}:
                c, m = OmegaConf.create(base), list(base)
                new = ["n%d" % i for i in range(ln)]
                x, y = outcome(lambda: m.__setitem__(s, new)), outcome(lambda: c.__setitem__(s, new))
                check(x[0] == y[0], "%r[%r] = %r: %s, the list %s", base, s, new, okind(y), okind(x))
                same_list(c, m, "%r[%r] = %r" % (base, s, new))
    for i in list(range(-n - 3, n + 4)) + [10 ** 6, -10 ** 6]:
        c, m = OmegaConf.create(base), list(base)
        c.insert(i, "v")
        m.insert(i, "v")
        same_list(c, m, "insert(%d) into %r" % (i, base))
        for f in (lambda x: x.pop(i), lambda x: x.__delitem__(i), lambda x: x.__setitem__(i, "w"), lambda x: x[i]):
            c, m = OmegaConf.create(base), list(base)
            x, y = outcome(lambda: f(m)), outcome(lambda: f(c))
            check(x[0] == y[0] and (x[0] == "exc" and isinstance(y[1], IndexError) or x[0] == "ret" and tv(x[1]) == tv(y[1])), "index %d of %r: %s, the list %s", i, base, y, x)
            same_list(c, m, "index %d of %r" % (i, base))


def c_nested(g):
    """lists inside lists and mappings: operations on the inner list leave the rest alone"""
    root = {"a": [[1, 2, [3]], {"l": [4, 5]}], "b": [6]}
    c, m = OmegaConf.create(root), copy.deepcopy(root)
    for _ in range(6):
        sel = g.pick([lambda x: x["a"], lambda x: x["a"][0], lambda x: x["b"], lambda x: x["a"][-1]["l"], lambda x: x["a"][0][2]])
        try:
            mm = sel(m)
        except (IndexError, TypeError, KeyError):
            continue
        if not isinstance(mm, list):
            continue
        cc = outcome(lambda: sel(c))
        check(cc[0] == "ret", "reading raises %s", cc)
        run(g, cc[1], mm, elem, 2)
        check(tv(plain(c)) == tv(m), "the config holds %r, expected %r", plain(c), m)
        wellformed(c)


CASES = [("ops", 9000, c_ops), ("enum", 48, c_enum), ("nested", 1500, c_nested)]
