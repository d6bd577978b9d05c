"""C05: a single operation that raises leaves everything as it was"""
from lib import *

OPS = SINGLE - {"sort"}
BAD = [object(), {1, 2}, 1 + 2j, len, [object()], {"k": object()}, {"k": {"l": [object()]}}, ["ok", object(), 2], {"good": 1, "k": set()}]


def bad_value(g):
    return ("inst", g.pick(BAD))


def gen(g, n):
    for _ in range(20):
        op = gen_op(g, n)
        if op[0] in OPS:
            break
    else:
        op = ("flag", ["readonly", "struct"], [True])
    if g.p(0.35) and op[0] in ("setitem", "setattr", "append", "insert", "setdefault", "set_value"):
        op = op[:-1] + (bad_value(g),)
    if g.p(0.04):
        op = ("flag", g.pick([["readonly", "struct"], ["a", "b", "c"]]), g.pick([[True], [], [True, False, None, True]]))
    if g.p(0.1) and isinstance(n, DictConfig):
        op = g.pick([("setitem", g.pick([1.5, 3, True, b"z", None, ("t",), object, sc.Color.GREEN, "RED", "nope"]), gen_value(g)),
                     ("delitem", g.pick([1.5, 3, None, "nope"])), ("pop", g.pick([None, 1.5, "nope"]))])
    if g.p(0.1) and isinstance(n, ListConfig):
        op = g.pick([("setitem", g.pick(["a", None, 99, -99, 1.5]), gen_value(g)), ("insert", g.pick(["a", None, 99, -99, -1]), bad_value(g)),
                     ("pop", g.pick(["a", None, 99, -99])), ("delitem", g.pick([99, -99, "x"])), ("remove", ("plain", "not there"))])
    return op


def c_ops(g):
    w = world(g, flags=g.p(0.4))
    for _ in range(6):
        p = g.pick(struct_paths(w))
        n = at(w, p)
        op = gen(g, n)
        before = full_snap(w)
        s = "%r: %s at %s" % (w, op, p)
        o = outcome(lambda: run_op(n, op))
        if o[0] == "exc":
            g.log.append(s + " raised " + okind(o))
            after = full_snap(w)
            check(after == before, "%s at %s raised %s but changed the config to %r", op, p, okind(o), plain(w))
            wellformed(w)
        elif g.p(0.5):
            w = world(g, flags=g.p(0.4))


def c_alias(g):
    """failing assignments of existing config objects leave source and target as they were"""
    w = world(g)
    src = OmegaConf.structured(g.pick([sc.Other, sc.Inner, sc.Small])) if g.p(0.5) else OmegaConf.create(g.pick([g.dict, g.list])(2, leaf=g.simple)) if g.p(0.5) else g.pick([IntegerNode, AnyNode, StringNode])(3)
    p = g.pick(struct_paths(w, Container))
    n = at(w, p)
    before = (full_snap(w), full_snap(src))
    if isinstance(n, DictConfig):
        ks = list(n.keys()) or ["a"]
        k = g.pick([x for x in ks]) if g.p(0.8) else g.key()
        op = g.pick([lambda: n.__setitem__(k, src), lambda: setattr(n, str(k), src), lambda: n.setdefault(g.key(), src)])
    else:
        op = g.pick([lambda: n.append(src), lambda: n.insert(g.r.randrange(-2, 3), src), lambda: n.__setitem__(0, src)])
    g.log.append("%r assign %r at %s" % (w, src, p))
    o = outcome(op)
    if o[0] == "exc":
        check((full_snap(w), full_snap(src)) == before, "failed assignment of a config at %s (%s) changed the target or the source: %r", p, okind(o), plain(w))
    else:
        check(full_snap(src) == before[1], "assignment of a config at %s changed the source", p)


CASES = [("ops", 16000, c_ops), ("alias", 4000, c_alias)]
