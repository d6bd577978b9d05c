"""C04 typed containers and structured configs"""
from lib import *
import typing as T
from typing import Any, Dict, List, Optional, Union, Tuple
import dataclasses


def gen_type(g, d=2):
    k = g.r.randrange(16 if d > 0 else 9)
    base = [int, float, bool, str, bytes, pathlib.Path, sc.Color]
    if k < 7:
        return base[k]
    if k == 7:
        return Any
    if k == 8:
        return Union[int, str] if g.p(0.5) else Union[float, bool, bytes]
    if k == 9:
        return sc.Inner
    if k in (10, 11):
        t = gen_type(g, d - 1)
        return Optional[t] if t is not Any else t
    if k in (12, 13):
        return List[gen_type(g, d - 1)]
    kt = g.pick([str, str, int, sc.Color, bool, float, bytes])
    return Dict[kt, gen_type(g, d - 1)]


def gen_key(g, kt):
    return {str: lambda: g.pick(KEYS), int: lambda: g.r.randrange(-3, 9), sc.Color: lambda: g.pick(list(sc.Color)), bool: lambda: g.p(0.5),
            float: lambda: g.pick([0.5, 1.5, -2.5]), bytes: lambda: g.pick([b"k", b""])}[kt]()


def conf(g, t):
    """a value of exactly type t"""
    org, args = T.get_origin(t), T.get_args(t)
    if t is Any:
        return g.simple()
    if org is Union:
        a = g.pick(args)
        return None if a is type(None) else conf(g, a)
    if org is list:
        return [conf(g, args[0]) for _ in range(g.r.randrange(0, 3))]
    if org is dict:
        return {gen_key(g, args[0]): conf(g, args[1]) for _ in range(g.r.randrange(0, 3))}
    if t is sc.Inner:
        return g.pick([lambda: sc.Inner(), lambda: sc.Inner(x=g.r.randrange(9)), lambda: sc.Inner2(w=False)])()
    return {int: lambda: g.pick(INTS), float: lambda: g.pick(FLTS), bool: lambda: g.p(0.5), str: lambda: g.pick(["a", "zz", "1", ""]), bytes: lambda: g.pick([b"", b"x"]),
            pathlib.Path: lambda: pathlib.Path("a/b"), sc.Color: lambda: g.pick(list(sc.Color))}[t]()


def nonconf(g, t):
    """a value that can neither be of type t nor be converted, or raises Skip"""
    org, args = T.get_origin(t), T.get_args(t)
    if t is Any:
        raise Skip()
    if org is Union:
        real = [a for a in args if a is not type(None)]
        if len(real) == 1:
            v = nonconf(g, real[0])
            if v is None:
                raise Skip()
            return v
        if set(real) == {int, str}:
            return g.pick([1.5, b"x", sc.Color.RED, [1], {"a": 1}])
        return g.pick(["s", 5, sc.Color.RED, [1], {"a": 1}])
    if org is list:
        k = g.r.randrange(3)
        if k == 0:
            return g.pick([5, "str", {"a": 1}, 1.5, b"x"])
        return [conf(g, args[0]) for _ in range(g.r.randrange(0, 2))] + [nonconf(g, args[0])]
    if org is dict:
        k = g.r.randrange(3)
        if k == 0:
            return g.pick([5, "str", [1], 1.5, b"x"])
        if k == 1 and args[0] in (int, sc.Color, float, bytes):
            return {"badkey": conf(g, args[1])}
        if k == 1 and args[0] is str:
            return {5: conf(g, args[1])}
        d = {gen_key(g, args[0]): conf(g, args[1]) for _ in range(g.r.randrange(0, 2))}
        d[gen_key(g, args[0])] = nonconf(g, args[1])
        return d
    if t is sc.Inner:
        return g.pick([5, "s", sc.Other(), [1], sc.Other, b"x"])
    return {int: lambda: g.pick(["x", 1.5, True, b"1", [1], {"a": 1}, sc.Color.RED, None]), float: lambda: g.pick(["x", True, b"1", [1], None]),
            bool: lambda: g.pick(["x", 1.5, b"1", [1], None]), str: lambda: g.pick([b"x", [1], {"a": 1}, None]), bytes: lambda: g.pick(["s", 5, [1], None]),
            pathlib.Path: lambda: g.pick([5, 1.5, b"x", [1], None]), sc.Color: lambda: g.pick(["NOPE", 99, 1.5, True, b"x", sc.Height.TALL, [1], None])}[t]()


def as_plain(v):
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return {f.name: as_plain(getattr(v, f.name)) for f in dataclasses.fields(v)}
    if isinstance(v, dict):
        return {k: as_plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [as_plain(x) for x in v]
    return v


def setup(g, t):
    """(root, container, key): a place of declared type t holding a conforming value"""
    k = g.r.randrange(4)
    v0 = conf(g, t)
    if k == 0:
        C = dataclasses.make_dataclass("C", [("before", List[int], dataclasses.field(default_factory=lambda: [1])), ("f", t, dataclasses.field(default_factory=lambda: copy.deepcopy(v0))), ("after", Dict[str, int], dataclasses.field(default_factory=dict))])
        cfg = OmegaConf.structured(C)
        return cfg, cfg, "f"
    if k == 1:
        cfg = OmegaConf.create({"d": DictConfig({"k": copy.deepcopy(v0), "k2": copy.deepcopy(v0)}, element_type=t, key_type=str)})
        return cfg, cfg.d, "k"
    if k == 2:
        cfg = OmegaConf.create({"l": ListConfig([copy.deepcopy(v0), copy.deepcopy(v0)], element_type=t)})
        return cfg, cfg.l, g.r.randrange(2)
    C = dataclasses.make_dataclass("D", [("dd", Dict[str, List[t]], dataclasses.field(default_factory=lambda: {"x": [copy.deepcopy(v0)]}))])
    cfg = OmegaConf.structured(C)
    return cfg, cfg.dd.x, 0


def ways(g, root, c, k, v):
    w = [("item", lambda: c.__setitem__(k, v))]
    if isinstance(c, DictConfig):
        w += [("attr", lambda: setattr(c, k, v)), ("update", lambda: OmegaConf.update(c, k, v)), ("updm", lambda: OmegaConf.update(c, k, v, merge=False))]
        if c._metadata.object_type in (dict, None) :
            w += [("new", lambda: c.__setitem__("nk", v)), ("setdefault", lambda: c.setdefault("nk", v))]
        if not isinstance(v, (dict,)) and not dataclasses.is_dataclass(v):
            w += [("merge", lambda: c.merge_with({k: v}))]
    else:
        w += [("append", lambda: c.append(v)), ("insert", lambda: c.insert(g.r.randrange(-2, 3), v)), ("extend", lambda: c.extend([v])),
              ("slice", lambda: c.__setitem__(slice(0, 1), [v]))]
    return g.pick(w)


def c_accept(g):
    t = gen_type(g)
    root, c, k = setup(g, t)
    check_typed(root)
    decl = declared(root)
    has_union = "Union[" in repr(t).replace("Optional", "")
    g.log.append("type %s value %r" % (t, plain(root)))
    for _ in range(3):
        v = conf(g, t)
        wrapped = g.p(0.25) and isinstance(v, (dict, list))
        vv = v
        name, f = ways(g, root, c, k, vv)
        if name == "slice" and has_union:
            continue
        g.log.append("%s %r" % (name, v))
        n0 = len(content(c))
        o = outcome(f)
        if o[0] == "exc" and not name == "item" and "Inner is not a subclass of Inner2" in str(o[1]):
            raise Skip()    # merging a structured config into one of a subclass is an error by design
        check(o[0] == "ret", "%s of the conforming value %r to type %s raised %s", name, v, t, o[1])
        check_typed(root)
        if name in ("item", "attr", "updm") or (name == "update" and not isinstance(v, dict) and not dataclasses.is_dataclass(v)):
            check(tv(plain(content(c)[k])) == tv(as_plain(v)), "%s of %r to type %s stored %r", name, v, t, plain(content(c)[k]))
        after = declared(root)
        for p, dcl in decl.items():
            if p in after and p[:1] != ("dd",) and not (len(p) > 1):
                check(after[p] == dcl or p == () and False, "declared type at %s changed from %s to %s by %s", p, dcl, after[p], name)
        if c is not root:
            check(declared(c)[()][1:] == decl.get((c._key(),), declared(c)[()])[1:], "declared types of the container changed")


def c_reject(g):
    t = gen_type(g)
    root, c, k = setup(g, t)
    v = nonconf(g, t)
    name, f = ways(g, root, c, k, v)
    if name in ("extend", "slice", "merge"):
        name, f = "item", lambda: c.__setitem__(k, v)
    before = full_snap(root)
    g.log.append("type %s: %r %s := %r" % (t, plain(root), name, v))
    o = outcome(f)
    check(o[0] == "exc", "%s of %r to a place of type %s accepted: %r", name, v, t, plain(root))
    check(isinstance(o[1], (oe.ValidationError, oe.KeyValidationError, KeyError, oe.ConfigTypeError)), "%s of %r to type %s raised %s", name, v, t, okind(o))
    if name in ("updm",) or name == "update":
        check_typed(root)
        return
    check(full_snap(root) == before, "rejected %s of %r changed the config to %r", name, v, plain(root))


def c_node(g):
    """config containers and typed nodes as values of places of another type"""
    t = gen_type(g)
    root, c, k = setup(g, t)
    v = g.pick([lambda: OmegaConf.create(g.dict(2, leaf=g.simple)), lambda: OmegaConf.create(g.list(2, leaf=g.simple)), lambda: IntegerNode(3), lambda: BooleanNode(True),
                lambda: FloatNode(1.5), lambda: StringNode("s"), lambda: EnumNode(sc.Color, "RED"), lambda: BytesNode(b"x"), lambda: AnyNode(True), lambda: AnyNode(5),
                lambda: OmegaConf.structured(sc.Inner), lambda: OmegaConf.structured(sc.Other), lambda: ListConfig([True, 1], element_type=Any), lambda: ListConfig([1], element_type=int),
                lambda: DictConfig({"a": True}), lambda: DictConfig({"a": 1}, element_type=int), lambda: ListConfig(None), lambda: DictConfig("???")])()
    ops = [lambda: c.__setitem__(k, v)]
    if isinstance(c, ListConfig):
        ops += [lambda: c.append(v), lambda: c.insert(g.r.randrange(-2, 3), v), lambda: c.merge_with([v]), lambda: c.merge_with([v], list_merge_mode=ListMergeMode.EXTEND)]
    else:
        ops += [lambda: c.__setitem__("nk", v), lambda: c.setdefault("nk", v), lambda: c.merge_with({k: v}), lambda: c.merge_with({"nk": v})]
    i = g.r.randrange(len(ops))
    g.log.append("type %s: %r, op %d with %s %r" % (t, plain(root), i, type(v).__name__, v))
    o = outcome(ops[i])
    check_typed(root)
    # what went in can only be changed to conforming values
    for p, n in walk(root):
        if isinstance(n, (DictConfig, ListConfig)) and isinstance(content(n), (dict, list)):
            for kk, _ in children(n):
                outcome(lambda: n.__setitem__(kk, g.pick(["abc", True, 1.5, b"z", [1], {"q": 1}])))
        if g.p(0.5):
            break
    check_typed(root)


def c_key(g):
    kt = g.pick([str, int, sc.Color, bool, float, bytes])
    cfg = DictConfig({gen_key(g, kt): 1}, key_type=kt, element_type=int)
    root = OmegaConf.create({"d": cfg})
    d = root.d
    for _ in range(6):
        k = g.pick([1, 0, True, False, 1.5, "a", "1", "RED", "true", b"k", sc.Color.BLUE, None, ("t",), 3, "3", "Color.RED", 0.5, "0.5", "no"])
        op = g.pick(["set", "setdefault", "merge", "update"])
        before = full_snap(root)
        g.log.append("%s: %s key %r" % (kt, op, k))
        f = {"set": lambda: d.__setitem__(k, 5), "setdefault": lambda: d.setdefault(k, 5), "merge": lambda: d.merge_with({k: 5}), "update": lambda: d.update({k: 5})}[op]
        o = outcome(f)
        check_typed(root)
        exact = isinstance(k, kt) if isinstance(kt, type) and issubclass(kt, enum.Enum) else type(k) is kt
        if exact:
            check(o[0] == "ret", "key %r of the declared type %s rejected: %s", k, kt, o[1])
            check(k in content(d), "key %r not stored", k)
        elif o[0] == "exc" and op != "merge" and op != "update":
            check(full_snap(root) == before, "rejected key %r changed the mapping", k)


def c_ops(g):
    """any operations, then everything still conforms and the declared types are the same"""
    w = world(g, kind=g.pick(["struct", "struct", "typeddict", "typedlist", "mixed"]))
    check_typed(w)
    for _ in range(6):
        p = g.pick(struct_paths(w))
        n = at(w, p)
        op = gen_op(g, n)
        if op[0] == "set_value" and not isinstance(n, (ValueNode, UnionNode)):
            continue
        anc = [x for q, x in walk(w) if p[:len(q)] == q]
        decl = [(x, (repr(x._metadata.ref_type), x._metadata.optional, repr(getattr(x._metadata, "key_type", None)), repr(getattr(x._metadata, "element_type", None)))) for x in nodes(w)
                if x is not n and x not in anc or True]
        s = "%r: %s at %s" % (plain(w), op, p)
        o = outcome(lambda: run_op(n, op))
        g.log.append(s + " -> " + okind(o))
        check_typed(w)
        still = {id(x) for x in nodes(w)}
        for x, d in decl:
            if id(x) in still and op[0] not in ("merge_with", "update", "ocupdate", "dotlist", "resolve"):
                now = (repr(x._metadata.ref_type), x._metadata.optional, repr(getattr(x._metadata, "key_type", None)), repr(getattr(x._metadata, "element_type", None)))
                check(now[:2] == d[:2], "%s at %s changed the declared type of a node from %s to %s", op, p, d, now)


def c_untyped(g):
    """merging typed but empty or missing containers into untyped ones"""
    d = {"a": g.list(2, leaf=g.simple) if g.p(0.6) else g.dict(2, leaf=g.simple), "b": 1}
    cfg = OmegaConf.create(d)
    et = g.pick([int, str, bool, float, Optional[int], sc.Color, sc.Inner, List[int], Dict[str, int], Union[int, str]])
    c = g.pick(["???", None, [], {}])
    src = outcome(lambda: (ListConfig(c, element_type=et) if g.p(0.6) else DictConfig(c, key_type=str, element_type=et, ref_type=g.pick([Any, Dict[str, et]]))))
    skip_unless(src[0] == "ret")
    src = src[1]
    mode = g.pick(["REPLACE", "EXTEND", "EXTEND_UNIQUE"])
    g.log.append("%r: merge %r (element_type %s) into a, %s" % (d, src, et, mode))
    if g.p(0.5):
        o = outcome(lambda: cfg.merge_with(DictConfig({"a": src}), list_merge_mode=getattr(ListMergeMode, mode)))
    else:
        o = outcome(lambda: cfg.a.merge_with(src, list_merge_mode=getattr(ListMergeMode, mode)))
    if o[0] == "ret":
        check_typed(cfg)


def c_long(g):
    """a long node given to a place of container type: every element is checked, whatever its position"""
    t = g.pick([int, str, bool, sc.Color, List[int], Dict[str, int]])
    ct = g.pick([List[t], Dict[str, t]])
    root, c, k = setup(g, ct)
    n = g.pick([17, 40, 70, 130, 300])
    vs = [conf(g, t) for _ in range(n)]
    bad = g.pick([None, 0, n - 1, n // 2, g.r.randrange(n)])
    if bad is not None:
        vs[bad] = nonconf(g, t)
    v = ListConfig(vs) if ct == List[t] else DictConfig({"k%d" % i: x for i, x in enumerate(vs)})
    name, f = ways(g, root, c, k, v)
    g.log.append("type %s: %s of %d elements, element %s wrong: %r" % (ct, name, n, bad, None if bad is None else vs[bad]))
    outcome(f)
    check_typed(root)


CASES = [("long", 120, c_long), ("untyped", 2000, c_untyped), ("node", 6000, c_node), ("accept", 6000, c_accept), ("reject", 6000, c_reject), ("key", 2500, c_key), ("ops", 2500, c_ops)]
