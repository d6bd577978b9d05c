"""C20 resolving in place against lazy reads"""
from iw import *
import typing

BUDGET = [0]


def resolved(t, r, seen=()):
    """content after resolving: missing values stay missing, as do references to missing values"""
    if r[0] == "val":
        return r[1]
    if len(seen) > 10:
        raise Skip()
    BUDGET[0] += 1
    if BUDGET[0] > 100:
        raise Skip()
    x = at_spec(t, r[1])

    def get(k):
        try:
            return resolved(t, ev(t, r[1] + (k,)), seen + (r[1],))
        except Miss:
            return "???"
    return {k: get(k) for k in x} if isinstance(x, dict) else [get(i) for i in range(len(x))]


def okinds(t):
    """no reference fails"""
    for p in leaves(t):
        try:
            ev(t, p)
        except Miss:
            pass
        except Err:
            return False
    return True


def shape(t, p=()):
    """the refs of a tree"""
    return [q for q in leaves(t) if isinstance(at_spec(t, q), (Ref, Cat))]


def inters(c):
    return [k for k, n in walk(c) if n is not None and n._is_interpolation()]


def meta(c):
    out = []
    for p, n in walk(c):
        if n is not None:
            m = n._metadata
            out.append((p, type(n).__name__, str(m.ref_type), m.optional, m.key, repr(m.flags), str(getattr(m, "element_type", None)), str(getattr(m, "key_type", None))))
    return out


def c_tree(g):
    t = add_refs(g, gen_tree(g, 3, 0.08), 0.35, 0, 0.05)
    for p in leaves(t):
        if p:
            try:
                ev(t, p)
            except Miss:
                pass
            except Err:
                at_spec(t, p[:-1])[p[-1]] = Lit(g.pick([1, "a", None, True]))
    if not okinds(t):
        return
    BUDGET[0] = 0
    exp = resolved(t, ("cont", ()))
    cfg = OmegaConf.create(render(t))
    if not isinstance(cfg, (DictConfig, ListConfig)):
        return
    g.log.append("%r" % (render(t),))
    for _, n in list(walk(cfg)):
        if isinstance(n, (DictConfig, ListConfig)) and g.p(0.1):
            n._set_flag(g.pick(["struct", "allow_objects", "other"]), g.pick([True, False]))
    sub = ()
    if g.p(0.2):
        sub = g.pick([p for p in all_paths(t) if isinstance(at_spec(t, p), (dict, list))])
    before_flags = {p: dict(n._metadata.flags or {}) for p, n in walk(cfg) if n is not None and p and isinstance(at_or_none(t, p), (dict, list, Lit))}
    node = key_at(cfg, sub)
    # the lazily resolved content as the library itself gives it
    lazy = outcome(lambda: OmegaConf.to_container(node, resolve=True))
    got = outcome(lambda: OmegaConf.resolve(node))
    check(got[0] == "ret" and got[1] is None, "resolve of %r at %s gives %s", render(t), sub, got)
    e = exp
    for k in sub:
        e = e[k]
    check(tv(plain(node)) == tv(e), "resolve of %r at %s gives %r, expected %r", render(t), sub, plain(node), e)
    if lazy[0] == "ret":
        check(tv(lazy[1]) == tv(e), "to_container(resolve=True) of %r at %s gives %r, expected %r", render(t), sub, lazy[1], e)
    check(not inters(node), "interpolations remain at %s after resolving %r", inters(node), render(t))
    wellformed(cfg)
    after = {p: n for p, n in walk(cfg) if n is not None}
    for p, f in before_flags.items():
        if p in after:
            check(dict(after[p]._metadata.flags or {}) == f, "resolving %r changed the flags at %s: %r -> %r", render(t), p, f, after[p]._metadata.flags)
    # once more: nothing changes
    s = full_snap(cfg)
    OmegaConf.resolve(node)
    check(full_snap(cfg) == s, "resolving the resolved %r again changed it", render(t))


def at_or_none(t, p):
    try:
        return at_spec(t, p)
    except (KeyError, IndexError, TypeError):
        return None


def linked(g):
    """typed containers that are references to containers that hold references themselves"""
    d = {"src": g.pick([3, 7]), "txt": g.pick(["t", "${src}"]), "i": sc.Inner(x="${src}" if g.p(0.5) else 4, y="${txt}" if g.p(0.7) else "w"),
         "l": ListConfig([1, "${src}", "${.0}"], element_type=int), "d": DictConfig({"a": "${src}", "b": 2}, element_type=int), "u": {"k": "${src}", "l": ["${txt}", {"z": "${l}"}]}}
    for n in ["r1", "r2", "r3"]:
        t = g.pick(["i", "l", "d", "u", "u.l"] + ["r1", "r2"][: int(n[1]) - 1])
        b = t
        while b in ("r1", "r2"):
            b = d[b]._content[2:-1] if not isinstance(d[b], str) else d[b][2:-1]
        e = "${%s}" % t
        typed = g.p(0.7)
        d[n] = {"i": lambda: DictConfig(e, ref_type=sc.Inner), "l": lambda: ListConfig(e, element_type=int), "d": lambda: DictConfig(e, element_type=int), "u": lambda: DictConfig(e), "u.l": lambda: ListConfig(e)}[b]() if typed else e
    ks = list(d)
    g.r.shuffle(ks)
    return OmegaConf.create({k: d[k] for k in ks})


def c_typed(g):
    """declared types are kept, the values are the lazily read ones"""
    k = g.r.randrange(6)
    if k == 5:
        cfg = linked(g)
    elif k == 0:
        cfg = OmegaConf.structured(sc.WithInter)
    elif k == 1:
        cfg = OmegaConf.create({"src": g.pick([3, "4", 7]), "t": DictConfig({"a": 1, "b": "${src}", "c": "${.a}"}, key_type=str, element_type=int), "l": ListConfig([1, "${src}", "${.0}"], element_type=int)})
    elif k == 2:
        cfg = OmegaConf.create({"s": sc.Typed, "n": 5, "x": "hello"})
        f = cfg.s._metadata.object_type
        for key, n in list(cfg.s._content.items()):
            if isinstance(n, IntegerNode):
                cfg.s[key] = "${n}"
            elif isinstance(n, StringNode):
                cfg.s[key] = "${x}"
    elif k == 3:
        cfg = OmegaConf.create({"u": DictConfig({"a": "${v}", "b": "${w}"}, element_type=typing.Union[int, str]), "v": 5, "w": "str", "o": ListConfig([None, "${z}", "${v}"], element_type=typing.Optional[int]), "z": None})
    else:
        cfg = OmegaConf.create({"d": DictConfig("${t}", element_type=int), "l": ListConfig("${tl}", element_type=int), "t": DictConfig({"a": 1}, element_type=int), "tl": ListConfig([1, 2], element_type=int), "a": AnyNode("${l}"), "b": "${d}"})
    if g.p(0.5):
        cfg = OmegaConf.create({"outer": 1, "q": cfg}) if not any("${" in str(n._value()) for n in nodes(cfg) if isinstance(n, ValueNode)) else cfg
    pre = {}
    types = {}
    for p, n in walk(cfg):
        if n is None or not p:
            continue
        par = cfg
        for x in p[:-1]:
            par = par._get_node(x)
        if isinstance(par, (DictConfig, ListConfig)) and not par._is_interpolation() and not par._is_none() and not par._is_missing():
            r = outcome(lambda: plain_val(par[p[-1]]))
            pre[p] = r
            if p not in types and isinstance(n, ValueNode) and not isinstance(n, AnyNode) or isinstance(n, (DictConfig, ListConfig, UnionNode)):
                types[p] = (type(n).__name__, str(n._metadata.ref_type), n._metadata.optional, str(getattr(n._metadata, "element_type", None)), str(getattr(n._metadata, "key_type", None)))
    g.log.append("%r" % (cfg,))
    keys = {p: list(key_at(cfg, p)._content) for p, n in walk(cfg) if isinstance(n, DictConfig) and isinstance(n._content, dict) and node_at(cfg, p)}
    src = repr(cfg)
    got = outcome(lambda: OmegaConf.resolve(cfg))
    if any(r[0] == "exc" and not isinstance(r[1], oe.MissingMandatoryValue) for r in pre.values()):
        return
    check(got[0] == "ret", "resolve of %s gives %s", src, got)
    check(not inters(cfg), "interpolations remain in %s at %s", src, inters(cfg))
    for p, r in pre.items():
        par = cfg
        for x in p[:-1]:
            par = par._get_node(x)
        q = outcome(lambda: plain_val(par[p[-1]]))
        check(q[0] == r[0] and (q[0] == "exc" or tv(q[1]) == tv(r[1])), "the value at %s of %s was %s, after resolving %s", p, src, r, q)
        n = par._get_node(p[-1])
        if p in types:
            check((type(n).__name__, str(n._metadata.ref_type), n._metadata.optional, str(getattr(n._metadata, "element_type", None)), str(getattr(n._metadata, "key_type", None))) == types[p], "resolving %s changed the type at %s: %s -> %s", src, p, types[p], (type(n).__name__, str(n._metadata.ref_type)))
    for p, ks in keys.items():
        check(list(key_at(cfg, p)._content) == ks, "the keys at %s changed from %s to %s", p, ks, list(key_at(cfg, p)._content))
    wellformed(cfg)
    check_typed(cfg)
    s = full_snap(cfg)
    OmegaConf.resolve(cfg)
    check(full_snap(cfg) == s, "resolving again changed %s", src)


def node_at(c, p):
    try:
        key_at(c, p)
        return True
    except Exception:
        return False


def plain_val(v):
    return OmegaConf.to_container(v, resolve=True) if isinstance(v, (DictConfig, ListConfig)) else v


def c_shared(g):
    """several references to one container, chains of references and references through lists"""
    base = {"src": {"a": 1, "b": [1, "${src.a}", {"c": "${src.a}"}]}, "l": [10, "${l.0}", "${src.b}"]}
    for i in range(g.r.randrange(1, 6)):
        base["k%d" % i] = g.pick(["${src}", "${src.b}", "${l}", "${l.2}", "${src.b.2}", "${src.b.2.c}", "x${src.a}", "${k0}", "${n.m}"])
    base["n"] = {"m": g.pick(["${src.a}", "${..l}", "${src}", 5])}
    items = list(base.items())
    g.r.shuffle(items)
    base = dict(items)
    cfg = OmegaConf.create(copy.deepcopy(base))
    g.log.append("%r" % base)
    lazy = outcome(lambda: OmegaConf.to_container(cfg, resolve=True))
    reads = {k: outcome(lambda: plain_val(cfg[k])) for k in base}
    if any(r[0] == "exc" for r in reads.values()):
        return
    check(lazy[0] == "ret", "%r: %s", base, lazy)
    for k in base:
        check(tv(lazy[1][k]) == tv(reads[k][1]), "%r: %s is %r, to_container gives %r", base, k, reads[k][1], lazy[1][k])
    OmegaConf.resolve(cfg)
    check(tv(plain(cfg)) == tv(lazy[1]), "resolving %r gives %r, lazily %r", base, plain(cfg), lazy[1])
    check(not inters(cfg), "interpolations remain in %r", base)
    check(list(cfg.keys()) == list(base), "the keys changed order")
    wellformed(cfg)
    # the copies are independent of the source now
    before = plain(cfg)
    for k in base:
        if k.startswith("k") and isinstance(base[k], str) and isinstance(cfg[k], DictConfig):
            cfg[k]["new"] = 1
            after = plain(cfg)
            for o in base:
                if o != k:
                    check(tv(after[o]) == tv(before[o]), "%r: changing the resolved %s changed %s", base, k, o)
            before = after


def lists(v):
    """tuples given by a resolver become lists"""
    if isinstance(v, dict):
        return {k: lists(x) for k, x in v.items()}
    return [lists(x) for x in v] if isinstance(v, (list, tuple)) else v


def c_custom(g):
    """custom resolver results, including containers"""
    OmegaConf.register_new_resolver("mk", lambda *a: {"d": {"x": 1, "y": "z"}, "l": [1, [2]], "s": "text", "i": 3, "n": None, "t": (1, 2), "e": {}, "z": []}[a[0]], replace=True)
    try:
        picks = [g.pick(["d", "l", "s", "i", "n", "e", "z", "t"]) for _ in range(g.r.randrange(1, 4))]
        base = {"k%d" % i: "${mk:%s}" % p for i, p in enumerate(picks)}
        base["c"] = g.pick(["${k0}", "a${mk:s}b", [1, "${mk:%s}" % picks[0]], {"q": "${..k0}"}])
        base["z"] = 26
        cfg = OmegaConf.create(copy.deepcopy(base))
        g.log.append("%r" % base)
        lazy = outcome(lambda: OmegaConf.to_container(cfg, resolve=True))
        if lazy[0] == "exc":
            return
        got = outcome(lambda: OmegaConf.resolve(cfg))
        check(got[0] == "ret", "resolve of %r gives %s", base, got)
        check(tv(OmegaConf.to_container(cfg, resolve=True)) == tv(lists(lazy[1])), "resolving %r gives %r, lazily %r", base, plain(cfg), lazy[1])
        wellformed(cfg)
        s = full_snap(cfg)
        OmegaConf.resolve(cfg)
        check(not inters(cfg), "interpolations remain in %r", base)
        check(full_snap(cfg) == s, "resolving again changed %r", base)
    finally:
        OmegaConf.clear_resolver("mk")


CASES = [("tree", 3000, c_tree), ("typed", 1200, c_typed), ("shared", 1500, c_shared), ("custom", 1500, c_custom)]
