"""C18 equality compares the resolved content"""
from iw import *
import typing


class Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BUDGET = [0]
MISS, BROKEN = Marker("<missing>"), Marker("<broken>")


def content_of(t, r, seen=()):
    """plain resolved content with markers"""
    if r[0] == "val":
        return r[1]
    if len(seen) > 12:
        raise Skip()  # containers that contain themselves through references
    if not seen:
        BUDGET[0] = 0
    BUDGET[0] += 1
    if BUDGET[0] > 100:
        raise Skip()
    x = at_spec(t, r[1])
    get = lambda k: sub(t, r[1] + (k,), seen + (r[1],))
    return {k: get(k) for k in x} if isinstance(x, dict) else [get(i) for i in range(len(x))]


class Inter:
    """the value of an interpolation, and its text"""
    def __init__(self, text, value):
        self.text, self.value = text, value

    def __repr__(self):
        return "%r -> %r" % (self.text, self.value)


def sub(t, p, seen):
    x = at_spec(t, p)
    try:
        v = content_of(t, ev(t, p), seen)
    except Miss:
        v = MISS if isinstance(x, Lit) else BROKEN
    except Err:
        v = BROKEN
    return v if isinstance(x, (dict, list, Lit)) else Inter(render(x), v)


def has_broken(v):
    if isinstance(v, Inter):
        return has_broken(v.value)
    if isinstance(v, dict):
        return any(map(has_broken, v.values()))
    if isinstance(v, list):
        return any(map(has_broken, v))
    return v is BROKEN


def eqv(a, b):
    t1, a = (a.text, a.value) if isinstance(a, Inter) else (None, a)
    t2, b = (b.text, b.value) if isinstance(b, Inter) else (None, b)
    if a is BROKEN or b is BROKEN:
        return t1 is not None and t1 == t2  # unresolvable: equal only to the same expression
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(eqv(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(eqv, a, b))
    if a is MISS or b is MISS:
        return a is b
    return a == b


def laws(c, d, what):
    """reflexive, symmetric, != is the negation, nothing raised, nothing changed; returns c == d"""
    s1, s2 = full_snap(c), full_snap(d) if isinstance(d, Node) else copy.deepcopy(d)
    r = [outcome(f) for f in (lambda: c == d, lambda: d == c, lambda: c != d, lambda: d != c, lambda: c == c, lambda: c != c)]
    for x, n in zip(r, ("==", "reversed ==", "!=", "reversed !=", "== with itself", "!= with itself")):
        check(x[0] == "ret" and isinstance(x[1], bool), "%s: %s gives %s", what, n, x)
    e, e2, n, n2, i, ni = [x[1] for x in r]
    check(e == e2, "%s: == is %s one way, %s the other way", what, e, e2)
    check(n == (not e) and n2 == (not e), "%s: == is %s, != is %s / %s", what, e, n, n2)
    check(i and not ni, "%s: the config is not equal to itself", what)
    check(full_snap(c) == s1, "%s: comparing modified the left side", what)
    check((full_snap(d) if isinstance(d, Node) else d) == s2, "%s: comparing modified the right side", what)
    return e


def mutate(g, t):
    """a changed or reordered copy of the world"""
    t = copy.deepcopy(t)
    k = g.r.randrange(9)
    conts = [p for p in all_paths(t) if isinstance(at_spec(t, p), (dict, list))]
    ls = [p for p in leaves(t) if p]
    p = g.pick(conts)
    x = at_spec(t, p)
    if k == 0 and isinstance(x, dict):
        items = list(x.items())
        g.r.shuffle(items)
        x.clear()
        x.update(items)
    elif k == 1 and isinstance(x, list):
        x.reverse()
    elif k == 2 and ls:
        q = g.pick(ls)
        at_spec(t, q[:-1])[q[-1]] = Lit(g.pick([1, "a", None, None, "???", True, 0, "", 1.0, "1", 2]))
    elif k == 3 and isinstance(x, dict) and x:
        del x[g.pick(list(x))]
    elif k == 4:
        if isinstance(x, dict):
            x[g.pick(["a", "zz"])] = Lit(1)
        else:
            x.append(Lit(1))
    elif k == 5 and ls:
        # the same value through a reference
        q = g.pick(ls)
        same = [s for s in ls if s != q and isinstance(at_spec(t, s), Lit) and isinstance(at_spec(t, q), Lit) and tv(at_spec(t, s).v) == tv(at_spec(t, q).v)]
        if same:
            at_spec(t, q[:-1])[q[-1]] = Ref(0, list(g.pick(same)))
    elif k == 6 and ls:
        q = g.pick(ls)
        x = at_spec(t, q)
        if isinstance(x, (Ref, Cat)):
            try:
                v = content_of(t, ev(t, q))
                if not has_broken(v):
                    back = lambda v: back(v.value) if isinstance(v, Inter) else {k: back(w) for k, w in v.items()} if isinstance(v, dict) else [back(w) for w in v] if isinstance(v, list) else Lit("???" if v is MISS else v)
                    at_spec(t, q[:-1])[q[-1]] = back(v)
            except Err:
                pass
    elif k == 7 and p:
        at_spec(t, p[:-1])[p[-1]] = g.pick([{}, [], Lit(None), Lit("???"), Lit(0)])
    elif k == 8 and isinstance(x, dict):
        for q in list(x):
            if g.p(0.3):
                x[{"a": "b", "b": "a"}.get(q, q)] = x.pop(q)
    return t


def c_tree(g):
    t = gen_tree(g, 3, 0.08)
    if g.p(0.6):
        t = add_refs(g, t, 0.3, 0.1)
    u = t
    for _ in range(g.pick([0, 1, 1, 1, 2])):
        u = mutate(g, u)
    rt, ru = render(t), render(u)
    c, d = OmegaConf.create(rt), OmegaConf.create(ru)
    if not isinstance(c, (DictConfig, ListConfig)) or not isinstance(d, (DictConfig, ListConfig)):
        return
    g.log.append("%r == %r" % (rt, ru))
    # flags do not matter
    for x in (c, d):
        if g.p(0.3):
            OmegaConf.set_readonly(x, True)
        if g.p(0.3):
            OmegaConf.set_struct(x, True)
    content_of(t, ("cont", ()))
    content_of(u, ("cont", ()))
    ps = [p for p in all_paths(t) if isinstance(at_spec(t, p), (dict, list))]
    qs = [p for p in all_paths(u) if isinstance(at_spec(u, p), (dict, list))]
    for _ in range(5):
        p = g.pick(ps)
        q = p if p in qs and g.p(0.7) else g.pick(qs)
        a, b = key_at(c, p), key_at(d, q)
        va, vb = content_of(t, ("cont", p)), content_of(u, ("cont", q))
        what = "%r at %s and %r at %s" % (rt, p, ru, q)
        e = laws(a, b, what)
        check(e == eqv(va, vb), "%s compare %s, their contents are %r and %r", what, "equal" if e else "unequal", va, vb)
        # the same side in a plain container
        pv = ru
        for k in q:
            pv = pv[k]
        f = OmegaConf.create(copy.deepcopy(pv))
        what = "%r at %s and the plain %r" % (rt, p, pv)
        e1, e2 = laws(a, pv, what), laws(a, f, what)
        check(e1 == e2, "%s compare %s, with the config made from it %s", what, e1, e2)


def c_self(g):
    """a config equals its copy, whatever it holds (broken interpolations, missing values)"""
    t = add_refs(g, gen_tree(g, 3, 0.15), 0.5, 0.3)
    c = OmegaConf.create(render(t))
    if not isinstance(c, (DictConfig, ListConfig)):
        return
    g.log.append("%r" % (render(t),))
    content_of(t, ("cont", ()))
    d = OmegaConf.create(render(t)) if g.p(0.5) else copy.deepcopy(c)
    check(laws(c, d, "a config and its copy") is True, "a config is not equal to its copy")


def c_types(g):
    """declared types, parents and the kind of node do not matter"""
    k = g.r.randrange(7)
    if k == 0:
        data = {x: g.pick([1, 2, 3]) for x in g.r.sample(["a", "b", "c"], g.r.randrange(0, 4))}
        vs = [DictConfig(data, key_type=str, element_type=int), OmegaConf.create(data), OmegaConf.create({"x": {"y": data}}).x.y, DictConfig(data, element_type=typing.Union[int, str]), DictConfig(data, element_type=typing.Optional[int]), data]
    elif k == 1:
        data = [g.pick([1, 2, 3, 0]) for _ in range(g.r.randrange(0, 4))]
        vs = [ListConfig(data, element_type=int), OmegaConf.create(data), OmegaConf.create({"x": [data]}).x[0], ListConfig(data, element_type=typing.Union[int, bool]), data, tuple(data)]
    elif k == 2:
        data = [g.pick(["a", "b", ""]) for _ in range(g.r.randrange(0, 4))]
        vs = [ListConfig(data, element_type=str), ListConfig(data, element_type=typing.Union[str, int]), OmegaConf.create(data), data]
    elif k == 3:
        i = sc.Small()
        vs = [OmegaConf.structured(i), OmegaConf.structured(sc.Small), sc.Small()]
        data = plain(vs[0])
        vs.append(OmegaConf.create(data))
        vs.append(data)
    elif k == 4:
        data = {"n": None, "l": [None, {"m": "???"}], "d": {}}
        vs = [OmegaConf.create(data), DictConfig({"n": AnyNode(None), "l": ListConfig([None, DictConfig({"m": "???"})]), "d": DictConfig({})}), data, DictConfig({"n": IntegerNode(None), "l": [AnyNode(None), {"m": StringNode("???")}], "d": {}})]
    elif k == 5:
        b = g.pick([1, 0, True, False, 1.5, "x", b"x", sc.Color.RED, pathlib.Path("x")])
        data = {"a": b}
        vs = [OmegaConf.create(data), DictConfig({"a": AnyNode(b)}), OmegaConf.create({"a": "${b.c}", "b": {"c": b}}), data]
        c = vs[2]
        del c._content["b"]
        vs[2] = OmegaConf.create({"q": {"a": "${b.c}"}, "b": {"c": b}}).q
    else:
        data = {"l": [1, 2], "d": {"a": 1}}
        vs = [OmegaConf.create(data), OmegaConf.create({"q": {"l": "${l}", "d": "${d}"}, "l": [1, 2], "d": {"a": 1}}).q, DictConfig({"d": DictConfig({"a": 1}, element_type=int), "l": ListConfig([1, 2], element_type=int)}), data]
    a = g.pick([v for v in vs if isinstance(v, Node)])
    b = g.pick(vs)
    g.log.append("%r %r" % (a, b))
    if g.p(0.5):
        OmegaConf.set_readonly(a, True)
    if not isinstance(b, Node) and is_structured(b):
        check((a == b) is True and (a != b) is False, "%r and %r are not equal", a, b)
    else:
        check(laws(a, b, "%r and %r" % (a, b)) is True, "%r (%s) and %r (%s) are not equal", a, type(a).__name__, b, type(b).__name__)
    # one difference
    d = copy.deepcopy(data)
    if isinstance(d, dict) and d:
        q = g.pick(list(d))
        w = g.r.randrange(3)
        if w == 0:
            d.pop(q)
        elif w == 1:
            d[q] = {"other": [99]}
        else:
            d["other"] = 1
    elif isinstance(d, list) and len(d):
        w = g.r.randrange(3)
        if w == 0:
            d.pop()
        elif w == 1:
            d[g.r.randrange(len(d))] = "other"
        else:
            d.append(d[0])
    else:
        return
    for o in (d, OmegaConf.create(d)):
        check(laws(a, o, "%r and %r" % (a, o)) is False, "%r and %r are equal", a, o)


def is_structured(x):
    return isinstance(x, sc.Small)


def c_special(g):
    """containers that are None, missing or an interpolation, against each other and against empty ones"""
    def mk(kind, typ):
        v = {"none": None, "miss": "???", "empty": {} if typ == "d" else [], "one": {"a": 1} if typ == "d" else [1], "int": "${t}", "bad": "${nope}"}[kind]
        tgt = {"a": 1} if typ == "d" else [1]
        if style == "typed":
            cls = DictConfig if typ == "d" else ListConfig
            return OmegaConf.create({"q": {"x": cls(v)}, "t": tgt})
        return OmegaConf.create({"q": {"x": v}, "t": tgt})
    style = g.pick(["typed", "plain"])
    k1, t1 = g.pick(["none", "miss", "empty", "one", "int", "bad"]), g.pick("dl")
    a = mk(k1, t1)
    style = g.pick(["typed", "plain"])
    k2, t2 = g.pick(["none", "miss", "empty", "one", "int", "bad"]), g.pick("dl")
    b = mk(k2, t2)
    g.log.append("%s %s / %s %s" % (k1, t1, k2, t2))
    e = laws(a.q, b.q, "%r and %r" % (a, b))
    val = lambda k, t: {"none": None, "miss": MISS, "empty": {} if t == "d" else [], "one": {"a": 1} if t == "d" else [1], "int": {"a": 1} if t == "d" else [1]}[k]
    if (k1 == "bad") != (k2 == "bad"):
        check(e is False, "%r and %r compare equal, but only one of them is an interpolation that cannot be resolved", a.q, b.q)
    if k1 != "bad" and k2 != "bad":
        check(e == eqv(val(k1, t1), val(k2, t2)), "%r and %r compare %s", a.q, b.q, e)
    # the nodes themselves
    x, y = a.q._get_node("x"), b.q._get_node("x")
    if isinstance(x, (DictConfig, ListConfig)) and isinstance(y, (DictConfig, ListConfig)) and not {k1, k2} & {"bad", "int"} and t1 == t2:
        e = laws(x, y, "%r and %r" % (x, y))
        check(e == eqv(val(k1, t1), val(k2, t2)), "%r and %r compare %s", x, y, e)


CASES = [("tree", 1300, c_tree), ("self", 600, c_self), ("types", 2500, c_types), ("special", 1200, c_special)]
