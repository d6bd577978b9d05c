"""C08 copies and pickles"""
from lib import *
import pickle

HOWS = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "pickle2": lambda x: pickle.loads(pickle.dumps(x, protocol=2)),
        "method": lambda x: x.copy(), "deepcopy-in-list": lambda x: copy.deepcopy([x])[0]}
STRUCTURAL = {"create": OmegaConf.create, "dictconfig": lambda x: DictConfig(x) if isinstance(x, DictConfig) else ListConfig(x),
              "embed": lambda x: OmegaConf.create({"e": x}).e, "merge": lambda x: OmegaConf.merge(x), "merge2": lambda x: OmegaConf.merge({} if isinstance(x, DictConfig) else [], x),
              "assign": lambda x: assigned(x), "append": lambda x: appended(x), "insert": lambda x: inserted(x)}


def assigned(x):
    c = OmegaConf.create({})
    c.k = x
    return c._get_node("k")


def appended(x):
    c = OmegaConf.create([])
    c.append(x)
    return c._get_node(0)


def inserted(x):
    c = OmegaConf.create([1, 2])
    c.insert(1, x)
    return c._get_node(1)


def rich(g):
    w = world(g, flags=g.p(0.5))
    if g.p(0.3):
        # values that are themselves special
        for n in boxes(w, DictConfig):
            if isinstance(content(n), dict) and n._metadata.element_type is __import__("typing").Any and n._metadata.object_type is dict and g.p(0.5):
                n.__dict__["_content"]["spec"] = None
                del n.__dict__["_content"]["spec"]
    for n in nodes(w):
        if g.p(0.05):
            n._set_flags_root(True)
        if g.p(0.1):
            n._set_flag("custom", g.p(0.5))
    return w


def disjoint(a, b, what):
    ids = {id(x) for x in nodes(a)}
    for x in nodes(b):
        check(id(x) not in ids, "%s shares the node %r with the original", what, x)
    mids = {id(x._metadata) for x in nodes(a)}
    fids = {id(x._metadata.flags) for x in nodes(a) if x._metadata.flags is not None}
    cids = {id(content(x)) for x in nodes(a) if isinstance(content(x), (dict, list))}
    for x in nodes(b):
        check(id(x._metadata) not in mids, "%s shares metadata with the original", what)
        check(x._metadata.flags is None or id(x._metadata.flags) not in fids, "%s shares a flags table with the original", what)
        check(not isinstance(content(x), (dict, list)) or id(content(x)) not in cids, "%s shares a content container with the original", what)


def mutate(g, w, n=6):
    done = []
    for _ in range(n):
        p = g.pick(struct_paths(w))
        x = at(w, p)
        op = gen_op(g, x) if g.p(0.8) else ("flag", g.pick(["readonly", "struct", "custom"]), g.pick([True, False, None]))
        done.append((op, p))
        outcome(lambda: run_op(x, op))
    return done


def c_copy(g):
    w = rich(g)
    paths = struct_paths(w, Container) if g.p(0.5) else [()]
    p = g.pick(paths)
    n = at(w, p)
    if isinstance(n._get_parent(), UnionNode):
        return
    how = g.pick(list(HOWS))
    if how == "method" and not isinstance(n, Container):
        how = "copy"
    before = full_snap(w)
    for x in nodes(w):
        if g.p(0.3):
            x._get_flag("readonly")
    g.log.append("%s of %r at %s" % (how, w, p))
    c = HOWS[how](n)
    check(full_snap(w) == before, "%s changed the original", how)
    check(type(c) is type(n), "%s of a %s is a %s", how, type(n).__name__, type(c).__name__)
    check(snap(c) == snap(n), "%s of %r differs: %r", how, plain(n), plain(c))
    for (q, x), (q2, y) in zip(walk(n), walk(c)):
        for f in ("readonly", "struct", "custom"):
            exp = flag_oracle(x, f)
            if not how.startswith("pickle") or p == ():
                if how.startswith("pickle") or p == ():
                    check(y._get_flag(f) is exp, "%s: flag %s at %s is %s, original %s", how, f, q2, y._get_flag(f), exp)
    wellformed(c)
    disjoint(n, c, how)
    if n._get_parent() is None:
        check(c._get_parent() is None, "the %s of a root has a parent", how)
    eq = outcome(lambda: c == n)
    check(eq == ("ret", True) or eq[0] == "exc", "%s is not equal to the original", how)
    s_orig, s_copy = full_snap(n), full_snap(c)
    m = mutate(g, c)
    g.log.append("mutated copy: %s" % (m,))
    check(full_snap(n) == s_orig, "changing the %s changed the original: %r", how, plain(n))
    s_copy = full_snap(c)
    m = mutate(g, n)
    g.log.append("mutated original: %s" % (m,))
    check(full_snap(c) == s_copy, "changing the original changed the %s: %r", how, plain(c))


def c_structural(g):
    w = world(g)
    how = g.pick(list(STRUCTURAL))
    p = g.pick(struct_paths(w, Container))
    n = at(w, p)
    before = full_snap(w)
    g.log.append("%s of %r at %s" % (how, w, p))
    o = outcome(lambda: STRUCTURAL[how](n))
    if o[0] == "exc":
        return
    c = o[1]
    check(full_snap(w) == before, "%s changed the original", how)
    if not isinstance(c, Node):
        return
    if "???" != plain(n) and "???" != plain(c):
        check(tv(plain(c)) == tv(plain(n)), "%s of %r differs: %r", how, plain(n), plain(c))
    disjoint(n, c, how)
    mutate(g, c)
    check(full_snap(w) == before, "changing the result of %s changed the original: %r", how, plain(w))
    s = full_snap(c)
    mutate(g, w)
    check(full_snap(c) == s, "changing the original changed the result of %s: %r", how, plain(c))


def c_value(g):
    """value nodes"""
    for n in [IntegerNode(5), StringNode("${a}"), FloatNode(1.5, is_optional=False), BooleanNode("???"), EnumNode(sc.Color, "RED"), BytesNode(b"x"), PathNode("a/b"), AnyNode([]) if False else AnyNode(3),
              UnionNode(5, ref_type=__import__("typing").Union[int, str]), UnionNode("???", ref_type=__import__("typing").Union[int, str])]:
        n._set_flag("custom", True)
        n._set_key("kk")
        root = OmegaConf.create({})
        n._set_parent(root)
        for how in ("deepcopy", "pickle"):
            c = HOWS[how](n)
            check(snap(c) == snap(n), "%s of %r is %r", how, snap(n), snap(c))
            c._set_flag("custom", None)
            check(n._get_node_flag("custom") is True, "%s of a value node shares its flags", how)
            o = outcome(lambda: c._set_value("???"))
            check(plain(n) != "???" or plain(n) == "???" and content(n) == "???", "x")
            if hasattr(n, "enum_type"):
                check(c.enum_type is n.enum_type and c.fields == n.fields, "%s of an enum node loses its enum type", how)


def c_masked(g):
    w = OmegaConf.create(g.dict(3, n=4)) if g.p(0.6) else OmegaConf.structured(sc.Small)
    if g.p(0.5):
        ks = list(w)
        with open_dict(w):
            for i, t in enumerate(g.pick([["${%s}" % (ks[0] if ks else "zz"), "???"], ["${zz}", None], ["x${ix0}", "${.ix0}"]])):
                w["ix%d" % i] = t
    if g.p(0.4):
        OmegaConf.set_readonly(w, True)
    if g.p(0.4):
        OmegaConf.set_struct(w, True)
    keys = [k for k in content(w) if g.p(0.5)]
    before = full_snap(w)
    g.log.append("%r %s" % (w, keys))
    m = OmegaConf.masked_copy(w, keys)
    check(full_snap(w) == before, "masked_copy changed the original")
    check(tv(plain(m)) == tv({k: v for k, v in plain(w).items() if k in keys}), "masked_copy of %s is %r", keys, plain(m))
    disjoint(w, m, "masked_copy")
    mutate(g, m)
    check(full_snap(w) == before, "changing the masked copy changed the original")


CASES = [("copy", 4000, c_copy), ("structural", 3000, c_structural), ("value", 20, c_value), ("masked", 800, c_masked)]
