"""worlds with interpolations by construction and an independent evaluator (no parsing, no library code)"""
from lib import *


class Lit:
    def __init__(self, v):
        self.v = v


class Ref:
    """nd leading dots, then components (str, int or an expression giving the component)"""
    def __init__(self, nd, comps, style=0):
        self.nd, self.comps, self.style = nd, comps, style


class Cat:
    def __init__(self, parts):
        self.parts = parts


class Err(Exception):
    pass


class Miss(Err):
    pass


MISSING_LIT = "???"


def render_ref(r):
    s = ""
    for i, c in enumerate(r.comps):
        t = render_ref(c) if isinstance(c, Ref) else str(c)
        if (r.style >> i) & 1 and not (i == 0 and r.nd):
            s += "[" + t + "]"
        else:
            s += ("." if i else "") + t
    return "${" + "." * r.nd + s + "}"


def render(x):
    if isinstance(x, dict):
        return {k: render(v) for k, v in x.items()}
    if isinstance(x, list):
        return [render(v) for v in x]
    if isinstance(x, Lit):
        return x.v
    if isinstance(x, Ref):
        return render_ref(x)
    return "".join(p if isinstance(p, str) else render_ref(p) for p in x.parts)


def at_spec(t, path):
    for k in path:
        t = t[k]
    return t


def step(t, p, c):
    """child path, or Err"""
    x = at_spec(t, p)
    if isinstance(x, dict):
        if c not in x:
            raise Err("no key")
        return p + (c,)
    if isinstance(x, list):
        if not str(c).isdigit() or int(c) >= len(x):
            raise Err("no index")
        return p + (int(c),)
    raise Err("not a container")


def ev(t, p, stack=()):
    """('val', v) or ('cont', path) of the node at p"""
    x = at_spec(t, p)
    if isinstance(x, (dict, list)):
        return ("cont", p)
    if isinstance(x, Lit):
        if isinstance(x.v, str) and x.v == MISSING_LIT:
            raise Miss("missing")
        return ("val", x.v)
    if p in stack:
        raise Err("cycle")
    return evx(t, p, x, stack + (p,))


def evx(t, p, x, stack):
    """an expression standing at the leaf p"""
    if isinstance(x, str):
        return ("val", x)
    if isinstance(x, Cat):
        out = []
        for q in x.parts:
            r = evx(t, p, q, stack)
            if r[0] == "cont":
                raise Skip()
            out.append(str(r[1]))
        return ("val", "".join(out))
    comps = []
    for c in x.comps:
        if isinstance(c, Ref):
            r = evx(t, p, c, stack)
            if r[0] == "cont" or not isinstance(r[1], str):
                raise Err("key is not a string")
            comps += r[1].split(".")
        else:
            comps.append(c)
    if x.nd == 0:
        cur = ()
    else:
        if x.nd > len(p):
            raise Err("above the root")
        cur = p[:len(p) - x.nd]
    res = ("cont", cur)
    for c in comps:
        if res[0] != "cont":
            raise Err("not a container")
        q = step(t, res[1], c)
        res = ev(t, q, stack)
    if res[0] == "cont" and p[:len(res[1])] == res[1]:
        raise Err("parent")
    return res


def strip(t):
    return t


def all_paths(t, p=()):
    out = [p]
    if isinstance(t, dict):
        for k, v in t.items():
            out += all_paths(v, p + (k,))
    elif isinstance(t, list):
        for i, v in enumerate(t):
            out += all_paths(v, p + (i,))
    return out


def leaves(t):
    return [p for p in all_paths(t) if not isinstance(at_spec(t, p), (dict, list))]


def value_of(t, r, seen=()):
    """plain resolved content"""
    if r[0] == "val":
        return r[1]
    if len(seen) > 12:
        raise Skip()
    x = at_spec(t, r[1])
    if isinstance(x, dict):
        return {k: value_of(t, ev(t, r[1] + (k,)), seen + (r[1],)) for k in x}
    return [value_of(t, ev(t, r[1] + (i,)), seen + (r[1],)) for i in range(len(x))]


def gen_tree(g, depth=3, miss=0.06, leaf=None):
    def lf():
        if leaf:
            return Lit(leaf())
        if g.p(miss):
            return Lit("???")
        return Lit(g.pick([1, 2, 0, -5, "a", "b", "c", "d", "x y", "foo", True, False, None, 1.5, "", 1e20, "a.b", "0", "1", b"by", sc.Color.RED]))

    def go(d, force=None):
        k = force or (g.pick(["leaf", "leaf", "dict", "list"]) if d > 0 else "leaf")
        if k == "leaf":
            return lf()
        if k == "dict":
            return {g.pick(["a", "b", "c", "d", "e_f", "k1", "with-dash"]): go(d - 1) for _ in range(g.r.randrange(1, 5))}
        return [go(d - 1) for _ in range(g.r.randrange(1, 4))]
    return go(depth, "dict" if g.p(0.9) else "list")


def rel(g, src, dst):
    """a reference from the node at src to dst: absolute or relative, sometimes with a wrong number of dots"""
    common = 0
    while common < min(len(src) - 1, len(dst)) and src[common] == dst[common]:
        common += 1
    if g.p(0.5):
        keep = g.r.randrange(0, common + 1)
        if len(dst) > keep:
            nd = len(src) - keep
            if g.p(0.06):
                nd = max(0, nd + g.pick([-1, 1, 2]))
            return nd, list(dst[keep:])
    return 0, list(dst)


def add_refs(g, t, p_ref=0.35, bad=0.12, dyn=0.08, cats=True):
    ps = all_paths(t)
    ps = [p for p in ps if p]
    if not ps:
        return t
    for p in leaves(t):
        if not p or not g.p(p_ref):
            continue
        x = mkref(g, t, p, ps, bad, dyn)
        if cats and g.p(0.25):
            parts = [x]
            for _ in range(g.r.randrange(1, 4)):
                parts.insert(g.r.randrange(0, len(parts) + 1), mkref(g, t, p, ps, bad, 0) if g.p(0.5) else g.pick(["-", "x", " ", "://", "$", "é", "a.b", "}", "'"]))
            # adjacent strings are merged so that no accidental syntax appears
            x = Cat(parts)
        c = at_spec(t, p[:-1])
        c[p[-1]] = x
    return t


def mkref(g, t, p, ps, bad, dyn):
    q = g.pick(ps)
    nd, comps = rel(g, p, q)
    if g.p(bad):
        k = g.r.randrange(4)
        if k == 0:
            comps = comps + [g.pick(["a", "b", "nope", 0])]
        elif k == 1:
            comps[-1] = "nope"
        elif k == 2:
            nd = g.r.randrange(0, 7)
        else:
            comps = [g.pick(["a", "b", "c", "0", 5])] + comps
    if g.p(dyn):
        # a component given by another interpolation to a string
        strs = [s for s in leaves(t) if isinstance(at_spec(t, s), Lit) and isinstance(at_spec(t, s).v, str) and at_spec(t, s).v in ("a", "b", "c", "d", "a.b", "0", "1")]
        if strs:
            s = g.pick(strs)
            comps[g.r.randrange(len(comps))] = Ref(0, list(s))
    return Ref(nd, comps, g.r.randrange(0, 8) if g.p(0.4) else 0)


def key_at(cfg, p):
    n = cfg
    for k in p:
        n = content(n)[k]
    return n
