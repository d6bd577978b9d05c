"""C07: the config stays a well-formed tree"""
from lib import *
import pickle


def full_check(w):
    wellformed(w)
    for p, n in walk(w):
        if isinstance(n.__dict__.get("_parent"), UnionNode) or not p:
            continue
        if not all(isinstance(k, int) or (isinstance(k, str) and k and not (set(k) & set(".[]'\"\\${}:, \t\n()/=#@%&?*~|<>!")) and k[0] not in "0123456789") for k in p):
            continue
        q, ok = w, True
        for k in p:
            q = content(q) if isinstance(q, UnionNode) else q
            ok = ok and isinstance(k, str) == isinstance(q, DictConfig)
            q = content(q)[k]
        if not ok:
            continue
        fk = n._get_full_key(None)
        root = w
        try:
            _, _, m = root._select_impl(fk, throw_on_missing=False, throw_on_resolution_failure=False)
        except Exception as e:
            # a special container on the way
            check(False, "full key %r of the node at %s cannot be selected: %r", fk, p, e)
        if isinstance(n, UnionNode) or m is None:
            m = m if m is not None else n
        if n._is_interpolation():
            continue
        check(m is n or (isinstance(m, Node) and m.__dict__.get("_parent") is n) or (isinstance(n, UnionNode)), "full key %r of the node at %s selects another node %r", fk, p, m)


def some_op(g, w):
    p = g.pick(struct_paths(w))
    n = at(w, p)
    k = g.r.randrange(10)
    if k < 7:
        op = gen_op(g, n)
        return "%s at %s" % (op, p), lambda: run_op(n, op)
    ps = struct_paths(w)
    q = g.pick(ps)
    m = at(w, q)
    if isinstance(n, DictConfig):
        key = g.pick(list(n.keys()) + ["nk"])
        return "assign node at %s to %s[%r]" % (q, p, key), lambda: n.__setitem__(key, m)
    if isinstance(n, ListConfig):
        c = content(n)
        i = g.r.randrange(-2, 4)
        f = g.pick([lambda: n.append(m), lambda: n.insert(i, m), lambda: n.__setitem__(i, m), lambda: n.extend([m, m]), lambda: n.extend(n),
                    lambda: n.sort(key=lambda x: repr(x)), lambda: n.merge_with(n), lambda: n.merge_with([1, {"a": 2}], list_merge_mode=g.pick(list(ListMergeMode)))])
        return "list op with the node at %s on %s i=%s" % (q, p, i), f
    return "set_value at %s" % (p,), lambda: n._set_value(m)


def c_seq(g):
    w = world(g, flags=g.p(0.2))
    full_check(w)
    src = repr(w)
    g.log.append("start %s" % src)
    for _ in range(8):
        d, f = some_op(g, w)
        o = outcome(f)
        g.log.append("%s -> %s" % (d, okind(o)))
        full_check(w)
        check(w._get_parent() is None, "the root got a parent after %s", d)


def c_results(g):
    a, b = world(g), world(g)
    g.log.append("%r ; %r" % (a, b))
    res = [("deepcopy", lambda: copy.deepcopy(a)), ("copy", lambda: copy.copy(a)), ("pickle", lambda: pickle.loads(pickle.dumps(a))),
           ("merge", lambda: OmegaConf.merge(a, b, list_merge_mode=g.pick(list(ListMergeMode)))), ("create", lambda: OmegaConf.create(a)),
           ("create2", lambda: OmegaConf.create({"x": a, "y": [b, a]})), ("unsafe", lambda: OmegaConf.unsafe_merge(copy.deepcopy(a), copy.deepcopy(b))),
           ("masked", lambda: OmegaConf.masked_copy(a, [k for k in a.keys() if g.p(0.5)])),
           ("addlist", lambda: a + b), ("dictcopy", lambda: a.copy()), ("scratch", lambda: DictConfig(a)), ("listc", lambda: ListConfig([a, b, a]))]
    for name, f in res:
        o = outcome(f)
        if o[0] == "exc":
            continue
        r = o[1]
        try:
            full_check(r)
        except Violation as e:
            raise Violation("result of %s: %s" % (name, e))
        check(r._get_parent() is None, "result of %s has a parent", name)
    full_check(a)
    full_check(b)


def c_sub(g):
    """operations on a copied subtree never move nodes between trees"""
    a = world(g)
    ps = [p for p in struct_paths(a, Container) if p]
    skip_unless(ps)
    n = at(a, g.pick(ps))
    for name, f in [("deepcopy", copy.deepcopy), ("copy", copy.copy)]:
        c = f(n)
        wellformed(c)
        check(c._get_parent() is n._get_parent() or c._get_parent() is None, "%s of a subtree has a new parent", name)
        full_check(a)


def c_rel(g):
    """relative interpolations are resolved from the place where the node is"""
    def node(d):
        return {"v": d, "r": "${.v}", "up": "${..w}", "in": {"u2": "${..v}", "l": ["${..u2}", "${...v}", "${.[0]}"]}}
    cfg = OmegaConf.create({"w": 100, "p": {"w": 200, "x": node(1)}, "q": {"w": 300, "l": [node(2), node(3)]}, "l": [node(4)]})
    cnt = [10]
    g.log.append("start")
    for _ in range(6):
        conts = [p for p, n in walk(cfg) if isinstance(n, DictConfig) and "v" in content(n)]
        k = g.r.randrange(6)
        s = g.pick(conts)
        if k == 0:
            t = g.pick(["p", "q"])
            key = g.pick(["x", "y", "z"])
            g.log.append("%s.%s = node at %s" % (t, key, s))
            cfg[t][key] = at(cfg, s)
        elif k == 1:
            l = g.pick([cfg.q.l, cfg.l])
            i = g.r.randrange(-3, 4)
            g.log.append("insert %d the node at %s" % (i, s))
            l.insert(i, at(cfg, s))
        elif k == 2:
            l = g.pick([cfg.q.l, cfg.l])
            if len(l):
                i = g.r.randrange(len(l))
                g.log.append("pop %d" % i)
                l.pop(i)
        elif k == 3:
            g.log.append("sort")
            cfg.q.l.sort(key=lambda x: -x["v"]._value())
        elif k == 4:
            g.log.append("merge")
            cfg.merge_with({"p": {"x": node(cnt[0]), "n%d" % cnt[0]: node(7)}, "l": [node(8), node(9)]}, list_merge_mode=g.pick(list(ListMergeMode)))
        else:
            cfg = copy.deepcopy(cfg)
        cnt[0] += 1
        for p, n in walk(cfg):
            if isinstance(n, DictConfig) and "v" in content(n):
                v = content(n)["v"]._value()
                par = n._get_parent()
                if isinstance(par, ListConfig):
                    w = None
                else:
                    w = content(par).get("w")
                check(n.r == v, "relative interpolation .v at %s gives %r, expected %r", p, n.r, v)
                check(n["in"].u2 == v, "..v at %s gives %r", p, n["in"].u2)
                check(set(n["in"].l) == {v}, "nested relative interpolation at %s gives %r", p, list(n["in"].l))
                if isinstance(w, Node):
                    check(n.up == w._value(), "..w at %s gives %r", p, n.up)
        full_check(cfg)


CASES = [("seq", 3000, c_seq), ("results", 1200, c_results), ("sub", 1500, c_sub), ("rel", 600, c_rel)]
