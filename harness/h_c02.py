"""C02 struct mode: key sets never grow, unknown keys raise"""
from lib import *


def keysets(w):
    """keys of every mapping that is effectively in struct mode (or a structured config without an explicit opt-out)"""
    return {p: list(content(n).keys()) for p, n in walk(w) if isinstance(n, DictConfig) and isinstance(content(n), dict) and is_struct(n)}


def is_struct(n):
    ot = n._metadata.object_type
    if isinstance(ot, type) and ot is not dict and (hasattr(ot, "__dataclass_fields__") or hasattr(ot, "__attrs_attrs__")):
        # only the flag of the config itself opens a structured config
        return n._metadata.flags.get("struct") is not False
    return bool(flag_oracle(n, "struct"))


def setup(g):
    w = world(g)
    ps = struct_paths(w, Container)
    w_at = at(w, g.pick(ps))
    if g.p(0.7):
        w_at._set_flag("struct", True)
    if g.p(0.3):
        n = g.pick(boxes(w, Container))
        n._set_flag("struct", g.p(0.4))
    return w


def targets(w):
    return [p for p, n in walk(w) if isinstance(n, DictConfig) and isinstance(content(n), dict) and is_struct(n)]


def unknown(g, n):
    for _ in range(50):
        k = g.pick(KEYS + ["unk", "new_key", "items_", "zz9"])
        if k not in content(n):
            return k
    return "unk_zz"


def c_unknown(g):
    w = setup(g)
    ts = targets(w)
    skip_unless(ts)
    p = g.pick(ts)
    n = at(w, p)
    k = unknown(g, n)
    if n._metadata.key_type not in (str, __import__("typing").Any):
        kk = {int: 77, sc.Color: sc.Color.GREEN}.get(n._metadata.key_type)
        skip_unless(kk is not None and kk not in content(n))
        k = kk
    v = gen_value(g)
    before = full_snap(w)
    ks = keysets(w)
    strk = isinstance(k, str)
    ops = [("setitem", lambda: n.__setitem__(k, make_value(v))), ("setdefault", lambda: n.setdefault(k, make_value(v))),
           ("getitem", lambda: n[k]), ("delitem", lambda: n.__delitem__(k)), ("pop", lambda: n.pop(k)),
           ("update-dict", lambda: n.update({k: make_value(v)})), ("merge_with", lambda: n.merge_with({k: make_value(v)})),
           ("merge_with-cfg", lambda: n.merge_with(DictConfig({k: make_value(v)})))]
    if strk:
        ops += [("setattr", lambda: setattr(n, k, make_value(v))), ("getattr", lambda: getattr(n, k)), ("update", lambda: OmegaConf.update(n, k, make_value(v))),
                ("update-merge", lambda: OmegaConf.update(n, k, make_value(v), merge=g.p(0.5))), ("dotlist", lambda: n.merge_with_dotlist(["%s=1" % k])),
                ("update-kw", lambda: n.update(**{k: make_value(v)})),
                ("nested-update", lambda: OmegaConf.update(n, k + ".sub", 5))]
        if all(isinstance(x, str) for x in p) and isinstance(w, DictConfig):
            ops.append(("root-update", lambda: OmegaConf.update(w, ".".join(p + (k,)), make_value(v))))
            ops.append(("root-dotlist", lambda: w.merge_with_dotlist([".".join(p + (k,)) + "=7"])))
    name, f = g.pick(ops)
    g.log.append("%r: %s of unknown key %r at struct %s, value %s" % (w, name, k, p, v))
    o = outcome(f)
    check(k not in content(n), "%s added the unknown key %r to the struct mapping at %s", name, k, p)
    if name in ("merge_with", "merge_with-cfg", "update-dict", "update-kw", "root-dotlist", "dotlist", "root-update", "nested-update", "update", "update-merge"):
        check(keysets(w) == ks, "%s changed the keys of a struct mapping", name)
    else:
        check(full_snap(w) == before, "%s of an unknown key changed the struct mapping at %s: %r", name, p, plain(w))
    check(o[0] == "exc", "%s of the unknown key %r at struct %s returned %r", name, k, p, o[1])
    check(isinstance(o[1], (KeyError, AttributeError, oe.ConfigTypeError, oe.ValidationError)), "%s of an unknown key raised %s", name, okind(o))
    if name in ("setitem", "getitem") and v[0] == "plain" and isinstance(v[1], (int, str)):
        check(isinstance(o[1], KeyError), "%s of an unknown key raised %s, not a key error", name, okind(o))
    if name in ("setattr", "getattr") and v[0] == "plain" and isinstance(v[1], (int, str)):
        check(isinstance(o[1], AttributeError), "%s of an unknown key raised %s, not an attribute error", name, okind(o))
    check(k not in n, "the unknown key %r is reported as contained", k)


def c_delete(g):
    w = setup(g)
    ts = [p for p in targets(w) if content(at(w, p))]
    skip_unless(ts)
    p = g.pick(ts)
    n = at(w, p)
    k = g.pick(list(content(n)))
    before = full_snap(w)
    name, f = g.pick([("delitem", lambda: n.__delitem__(k)), ("pop", lambda: n.pop(k)), ("popd", lambda: n.pop(k, None)), ("popitem", lambda: n.popitem()), ("clear", lambda: n.clear())])
    g.log.append("%r: %s %r at struct %s" % (w, name, k, p))
    o = outcome(f)
    check(o[0] == "exc", "%s of %r in the struct mapping at %s did not raise", name, k, p)
    check(full_snap(w) == before, "%s in the struct mapping at %s changed it to %r", name, p, plain(w))


def c_any(g):
    """no operation at all adds a key to a struct mapping"""
    w = setup(g)
    ks = keysets(w)
    for _ in range(5):
        p = g.pick(struct_paths(w))
        n = at(w, p)
        op = gen_op(g, n)
        g.log.append("%r: %s at %s" % (w, op, p))
        ids = {id(x): (q, list(content(x))) for q, x in walk(w) if isinstance(x, DictConfig) and isinstance(content(x), dict) and is_struct(x)}
        keep = nodes(w)
        kind = {id(x): (x._metadata.object_type) for x in keep}
        direct = id(n)
        outcome(lambda: run_op(n, op))
        for x in nodes(w):
            if id(x) in ids and isinstance(content(x), dict):
                q, old = ids[id(x)]
                if op[0] in ("set_value",) and x is n:
                    continue
                if kind[id(x)] is not x._metadata.object_type or op[0] in ("resolve",):
                    continue
                new = [k for k in content(x) if k not in old]
                if op[0] in ("setitem", "setattr", "setdefault", "ocupdate", "dotlist", "merge_with", "update") and x._get_parent() is not None and id(x) != direct:
                    # assignment of a whole mapping value to an existing key replaces the content of the child
                    if op[0] in ("setitem", "setattr", "setdefault", "ocupdate"):
                        continue
                check(not new, "%s at %s added the keys %s to the struct mapping at %s", op, p, new, q)


def c_known(g):
    """existing keys can be read, assigned and merged as without struct mode"""
    def mk(g):
        return OmegaConf.create(g.dict(3, n=4))
    a, b = build_twice(g, mk)
    OmegaConf.set_struct(a, True)
    ps = [p for p, n in walk(a) if isinstance(n, DictConfig) and content(n)]
    skip_unless(ps)
    p = g.pick(ps)
    k = g.pick(list(content(at(a, p))))
    v = ("plain", g.scalar())
    g.log.append("%r: %s at %s" % (a, v, p + (k,)))
    for name, f in [("getitem", lambda n: n[k]), ("in", lambda n: k in n), ("get", lambda n: n.get(k)), ("setitem", lambda n: n.__setitem__(k, make_value(v))),
                    ("setattr", lambda n: setattr(n, k, make_value(v))), ("update", lambda n: OmegaConf.update(n, k, make_value(v))),
                    ("merge", lambda n: n.merge_with({k: make_value(v)})), ("setdefault", lambda n: n.setdefault(k, 3)), ("iter", lambda n: list(n))]:
        oa, ob = outcome(lambda: f(at(a, p))), outcome(lambda: f(at(b, p)))
        check(okind(oa) == okind(ob), "%s of the existing key %r: %s in struct mode, %s without", name, k, okind(oa), okind(ob))
        check(snap(a, flags=False) == snap(b, flags=False), "%s of the existing key differs in struct mode: %r", name, plain(a))


def c_override(g):
    """open_dict and force are scoped; afterwards the mapping is closed again"""
    w = setup(g)
    ts = [p for p in targets(w) if at(w, p)._metadata.key_type in (str, __import__("typing").Any)]
    skip_unless(ts)
    p = g.pick(ts)
    n = at(w, p)
    skip_unless(n._metadata.element_type is __import__("typing").Any)
    k = unknown(g, n)
    flags0 = own_flags(w)
    mode = g.r.randrange(3)
    g.log.append("%r at %s key %s mode %d" % (w, p, k, mode))
    try:
        if mode == 0:
            with open_dict(n):
                n[k] = 1
        elif mode == 1:
            OmegaConf.update(n, k, 1, force_add=True)
        else:
            with flag_override(n, "struct", False):
                n[k] = 1
                raise ZeroDivisionError()
    except ZeroDivisionError:
        pass
    check(k in content(n) and n[k] == 1, "explicit override did not add the key")
    check([x for x in own_flags(w) if x[0] in dict(flags0)] == flags0, "override left other flags behind")
    k2 = "unk_zz2"
    o = outcome(lambda: n.__setitem__(k2, 1))
    check(o[0] == "exc" and k2 not in content(n), "after the override %r could still be added at %s", k2, p)


CASES = [("unknown", 14000, c_unknown), ("delete", 4000, c_delete), ("any", 3000, c_any), ("known", 3000, c_known), ("override", 2000, c_override)]
