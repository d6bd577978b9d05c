"""C01 read-only: twin worlds with and without the flag"""
from lib import *


def frozen_world(g):
    k = g.r.randrange(8)
    if k == 0:
        return OmegaConf.structured(sc.Frozen)
    if k == 1:
        return OmegaConf.structured(sc.AttrFrozen())
    if k == 2:
        return OmegaConf.create({"f": sc.Frozen, "k": [1, 2], "e": {"l": []}})
    return world(g)


def pick_target(g, w):
    ps = struct_paths(w)
    return g.pick(ps)


def add_op(g, node):
    op = gen_op(g, node)
    if isinstance(node, ListConfig) and g.p(0.3):
        op = ("merge_mode", g.pick([("plain", []), ("plain", g.list(2, leaf=g.simple)), ("cfg", [])]), g.pick(["REPLACE", "EXTEND", "EXTEND_UNIQUE"]))
    if isinstance(node, DictConfig) and g.p(0.2):
        d = {}
        for k, c in children(node):
            if g.p(0.5) and isinstance(k, str):
                d[k] = [] if isinstance(c, ListConfig) else ({} if isinstance(c, DictConfig) else g.pick([None, "???", 1, [], {}]))
        op = ("merge_with", g.pick([("plain", d), ("plain", OmegaConf.create(d))]))
        if g.p(0.1):
            op = ("merge_with", ("inst", DictConfig(g.pick([None, "???", "${a}"]))))
    return op


def c_ops(g):
    a, b = build_twice(g, frozen_world)
    ro = [p for p, n in walk(a) if isinstance(n, (Container,)) or g.p(0.1)]
    fp = g.pick(ro)
    at(a, fp)._set_flag("readonly", True)
    st = g.r.getstate()
    tp = g.pick([p for p, n in walk(a) if p[:len(fp)] == fp and flag_oracle(n, "readonly") is True])
    t = at(a, tp)
    if not isinstance(t, (Container, ValueNode, UnionNode)):
        return
    op = add_op(g, t)
    g.log.append("world %r read-only at %s, %s on %s" % (a, fp, op, tp))
    # resolving may resolve a container elsewhere that is the target of an interpolation
    scope = at(a, fp) if op[0] == "resolve" else a
    before = full_snap(scope)
    o = outcome(lambda: run_op(t, op))
    g.log.append("outcome %s" % okind(o))
    check(full_snap(scope) == before, "read-only node at %s changed by %s: %r (outcome %s)", tp, op, plain(a), okind(o))
    for n in nodes(b):
        if flag_oracle(n, "readonly") is not None:
            n._metadata.flags.pop("readonly", None)
            n._invalidate_flags_cache()
    b._invalidate_flags_cache()
    for n in nodes(b):
        n.__dict__["_flags_cache"] = None
    tb = at(b, tp)
    sb = snap(b)
    ob = outcome(lambda: run_op(tb, op))
    if ob[0] == "ret" and snap(b) != sb:
        check(o[0] == "exc", "%s on read-only %s was silently ignored", op, tp)
        check(isinstance(o[1], oe.ReadonlyConfigError), "%s on read-only %s raised %s instead of a read-only error", op, tp, okind(o))
    elif o[0] == "exc":
        check(isinstance(o[1], CONFIG_ERRORS), "%s on read-only %s raised %s", op, tp, okind(o))
    # cleared or overridden, the operation works again as on the twin
    if g.p(0.5):
        for n in nodes(a):
            if n._metadata.flags.get("readonly"):
                n._set_flag("readonly", None)
        o2 = outcome(lambda: run_op(t, op))
        check(okind(o2) == okind(ob), "after clearing the flag %s gives %s, expected %s", op, okind(o2), okind(ob))
        check(snap(a) == snap(b), "after clearing the flag %s gives %r, expected %r", op, plain(a), plain(b))
    else:
        from contextlib import ExitStack
        with ExitStack() as st:
            for n in nodes(a):
                if n._metadata.flags.get("readonly"):
                    st.enter_context(read_write(n))
            # removed nodes get their own flag back when the block ends
            o2 = outcome(lambda: run_op(t, op))
        check(okind(o2) == okind(ob), "in read_write %s gives %s, expected %s", op, okind(o2), okind(ob))
        check(snap(a, flags=False) == snap(b, flags=False), "in read_write %s gives %r, expected %r", op, plain(a), plain(b))
        try:
            tt = at(a, tp)
        except Exception:
            return
        if flag_oracle(tt, "readonly") is True and ob[0] == "ret":
            before = full_snap(a)
            outcome(lambda: run_op(tt, op))
            check(full_snap(a) == before, "after the read_write block %s changed the read-only node", op)


def c_created(g):
    """flag given at creation, many operations"""
    d = g.dict(3, n=3) if g.p(0.6) else g.list(3, n=3)
    cfg = OmegaConf.create(d, flags={"readonly": True})
    before = full_snap(cfg)
    for _ in range(12):
        p = pick_target(g, cfg)
        op = add_op(g, at(cfg, p))
        g.log.append("%r: %s at %s" % (d, op, p))
        outcome(lambda: run_op(at(cfg, p), op))
        check(full_snap(cfg) == before, "config created read-only changed by %s at %s: %r", op, p, plain(cfg))


def c_partial(g):
    """read-only below a writable root: an operation from above must not change the protected part"""
    a = world(g)
    ps = [p for p in struct_paths(a, Container) if p]
    skip_unless(ps)
    fp = g.pick(ps)
    n = at(a, fp)
    n._set_flag("readonly", True)
    s0 = snap(n)
    rel = {}
    cur = rel
    for k in fp[:-1]:
        cur[k] = {}
        cur = cur[k]
    skip_unless(all(isinstance(k, str) for k in fp))
    v = {"zz": 1, "a": 5} if isinstance(n, DictConfig) else g.pick([[], [7], ["x"]])
    cur[fp[-1]] = v
    mode = g.pick(["REPLACE", "EXTEND", "EXTEND_UNIQUE"])
    g.log.append("%r read-only at %s, merge_with(%r, %s)" % (a, fp, rel, mode))
    skip_unless(isinstance(a, DictConfig))
    o = outcome(lambda: a.merge_with(rel, list_merge_mode=getattr(ListMergeMode, mode)))
    check(snap(n) == s0, "merge from above changed the read-only node at %s: %r", fp, plain(a))
    o = outcome(lambda: OmegaConf.update(a, dotted(fp) + (".zz" if isinstance(n, DictConfig) else "[0]"), 5, force_add=g.p(0.5)))
    check(snap(n) == s0 and (o[0] == "exc" or at(a, fp) is not n), "update from above changed the read-only node at %s: %r", fp, plain(a))


def c_resolve(g):
    ps = {"a": 1, "b": {"c": "x", "l": [1, 2]}, "d": {"e": 2}}
    d = copy.deepcopy(ps)
    for k in "pqrs":
        d[k] = "${%s}" % g.pick(["a", "b", "b.c", "b.l", "d", "d.e"])
    d["b"]["i"] = g.pick(["${a}", "${d}", "v"])
    cfg = OmegaConf.create(d)
    for k in "pq":
        if g.p(0.5):
            t = DictConfig if "b" == cfg._get_node(k)._value()[2:-1] or cfg._get_node(k)._value() == "${d}" else None
            if t:
                cfg[k] = DictConfig(cfg._get_node(k)._value())
            elif cfg._get_node(k)._value() == "${b.l}":
                cfg[k] = ListConfig("${b.l}")
    n = g.pick([x for x in nodes(cfg)])
    n._set_flag("readonly", True)
    before = snap(n)
    g.log.append("resolve %r with read-only node %r (key %s)" % (d, n, n._key()))
    o = outcome(lambda: OmegaConf.resolve(cfg))
    check(snap(n) == before, "resolve changed a read-only node: %r", plain(n))


def c_types(g):
    """merging sources that bring types and no values into a read-only config"""
    d = {"x": g.pick([1, "???", None]), "a": g.list(2, leaf=g.simple) if g.p(0.5) else g.dict(2, leaf=g.simple)}
    cfg = OmegaConf.create(d)
    cfg._set_flag("readonly", True)
    et = g.pick([int, str, sc.Optional[int], sc.Inner, sc.List[int], sc.Any])
    c = g.pick(["???", "???", None, [], {}])
    src = outcome(lambda: g.pick([lambda: ListConfig(c, element_type=et), lambda: DictConfig(c, element_type=et, ref_type=g.pick([sc.Any, sc.Dict[str, et]])),
                                  lambda: OmegaConf.structured(g.pick([sc.Inner, sc.Typed])), lambda: DictConfig("???", ref_type=sc.Inner)])())
    skip_unless(src[0] == "ret")
    src = src[1]
    t = cfg.a if g.p(0.5) else cfg
    if t is cfg and g.p(0.7):
        src = DictConfig({"a": src})
    g.log.append("%r read-only: merge %r into %s" % (d, src, "a" if t is cfg.a else "the root"))
    before = full_snap(cfg)
    o = outcome(lambda: t.merge_with(src) if g.p(0.8) else OmegaConf.update(cfg, "a", src))
    check(full_snap(cfg) == before, "read-only config changed (outcome %s)", okind(o))
    check(o[0] == "ret" or isinstance(o[1], CONFIG_ERRORS), "raised %s", okind(o))


CASES = [("types", 2000, c_types), ("ops", 12000, c_ops), ("created", 500, c_created), ("partial", 1500, c_partial), ("resolve", 1500, c_resolve)]
