"""C11 export against an independent exporter"""
from iw import *
from typing import Any
import dataclasses
import attr


class Raises(Exception):
    pass


def is_sc(t):
    return isinstance(t, type) and (dataclasses.is_dataclass(t) or attr.has(t))


def export(n, resolve, throw, e2s, mode, par=None, key=None, deep=0):
    if deep > 40:
        raise Skip()
    if isinstance(n, UnionNode) and isinstance(content(n), Node):
        n = content(n)
    c = content(n)
    if isinstance(c, str) and isinstance(n, (Container, ValueNode, UnionNode)):
        if c == "???":
            if throw:
                raise Raises("missing")
            return c
        if "${" in c and not (isinstance(n, StringNode) and False) and inter(c):
            if not resolve:
                return c
            o = outcome((lambda: n._dereference_node()) if par is None else (lambda: par[key]))
            if o[0] == "exc":
                raise Raises(okind(o))
            v = o[1]
            if isinstance(v, Node):
                return export(v, resolve, throw, e2s, mode, None, None, deep + 1)
            if isinstance(v, str) and v == "???":
                raise Raises("missing")
            return v.name if e2s and isinstance(v, enum.Enum) else v
    if isinstance(c, dict):
        ot = n._metadata.object_type
        if is_sc(ot) and mode == "DICT_CONFIG":
            return n
        inst = is_sc(ot) and mode == "INSTANTIATE"
        if inst:
            resolve, throw = True, True
        out = {}
        init = {f.name: f.init for f in (dataclasses.fields(ot) if dataclasses.is_dataclass(ot) else attr.fields(ot))} if is_sc(ot) else {}
        for k, x in c.items():
            if inst and content(x) == "???" and isinstance(content(x), str) and not init.get(k, False):
                continue
            kk = k.name if e2s and isinstance(k, enum.Enum) else k
            out[kk] = export(x, resolve, throw, e2s, mode, n, k, deep + 1)
        return Inst(ot, out) if inst else out
    if isinstance(c, list):
        return [export(x, resolve, throw, e2s, mode, n, i, deep + 1) for i, x in enumerate(c)]
    return c.name if e2s and isinstance(c, enum.Enum) else c


def inter(s):
    i = s.find("${")
    while i >= 0:
        b = 0
        while i - 1 - b >= 0 and s[i - 1 - b] == "\\":
            b += 1
        if b % 2 == 0:
            return True
        i = s.find("${", i + 1)
    return True  # escaped interpolations also count as interpolations in the library


class Inst:
    def __init__(self, t, d):
        self.t, self.d = t, d


def same(exp, got, where):
    if isinstance(exp, Inst):
        check(type(got) is exp.t, "%s: exported a %s, expected an instance of %s", where, type(got).__name__, exp.t)
        have = dict(got.__dict__)
        check(set(have) >= set(exp.d), "%s: the %s instance has the fields %s, expected %s", where, exp.t.__name__, list(have), list(exp.d))
        for k in exp.d:
            same(exp.d[k], getattr(got, k), where + "." + str(k))
        return
    if isinstance(exp, Node):
        check(isinstance(got, DictConfig) and snap(got) == snap(exp), "%s: exported %r, expected the structured config %r", where, got, exp)
        return
    check(not isinstance(got, Node), "%s: the export contains a config node %r", where, got)
    check(type(got) is type(exp), "%s: exported %r (%s), expected %r", where, got, type(got).__name__, exp if not isinstance(exp, (dict, list)) else type(exp))
    if isinstance(exp, dict):
        check([tv(k) for k in got] == [tv(k) for k in exp], "%s: exported keys %s, expected %s", where, list(got), list(exp))
        for k in exp:
            same(exp[k], got[k], "%s[%r]" % (where, k))
    elif isinstance(exp, list):
        check(len(got) == len(exp), "%s: exported %r, expected %d elements", where, got, len(exp))
        for i, (a, b) in enumerate(zip(exp, got)):
            same(a, b, "%s[%d]" % (where, i))
    else:
        check(tv(got) == tv(exp), "%s: exported %r, expected %r", where, got, exp)


def spoil(x):
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = 1
    elif isinstance(x, list):
        for v in list(x):
            spoil(v)
        x.append("spoiled")
    elif hasattr(x, "__dict__") and is_sc(type(x)):
        for k, v in list(x.__dict__.items()):
            spoil(v)


def run(g, cfg, n, mode):
    resolve, throw, e2s = g.p(0.5), g.p(0.4), g.p(0.4) and mode == "DICT"
    how = "to_container"
    if mode == "INSTANTIATE":
        resolve = throw = True
        if g.p(0.5):
            how = "to_object"
    try:
        exp = ("ret", export(n, resolve, throw, e2s, mode))
    except Raises as e:
        exp = ("exc", str(e))
    if isinstance(content(n), str) and exp[0] == "ret" and not isinstance(exp[1], (dict, list, str, Inst, Node)):
        return  # a container node that refers to a scalar has no container to export
    before = full_snap(cfg)
    w = "%s(resolve=%s, throw_on_missing=%s, enum_to_str=%s, %s)" % (how, resolve, throw, e2s, mode)
    g.log.append("%s of %r" % (w, n))
    if how == "to_object":
        got = outcome(lambda: OmegaConf.to_object(n))
    else:
        got = outcome(lambda: OmegaConf.to_container(n, resolve=resolve, throw_on_missing=throw, enum_to_str=e2s, structured_config_mode=getattr(SCMode, mode)))
    check(full_snap(cfg) == before, "%s modified the config", w)
    check(got[0] == exp[0], "%s of %r gives %s, expected %s", w, plain(n), got[1] if got[0] == "ret" else okind(got), exp)
    if exp[0] == "exc":
        check(isinstance(got[1], (oe.OmegaConfBaseException,)), "%s raises %s", w, okind(got))
        return
    same(exp[1], got[1], w)
    if mode != "DICT_CONFIG":
        spoil(got[1])
        check(full_snap(cfg) == before, "changing the exported value changes the config")


def c_tree(g):
    t = add_refs(g, gen_tree(g), 0.25, 0.03, 0.05)
    cfg = OmegaConf.create(render(t))
    if g.p(0.2):
        OmegaConf.set_readonly(cfg, True)
    n = at(cfg, g.pick(struct_paths(cfg, Container)))
    if not isinstance(content(n), (dict, list)):
        return
    # by the evaluator: fully resolved content
    try:
        p = next(p for p, x in walk(cfg) if x is n)
        exp = value_of(t, ("cont", p))
    except Err:
        exp = None
    if exp is not None:
        got = outcome(lambda: OmegaConf.to_container(n, resolve=True))
        check(got[0] == "ret", "resolving export of %r raises %s", plain(n), okind(got))
        same(exp, got[1], "to_container(resolve=True)")
    run(g, cfg, n, "DICT")


def c_world(g):
    cfg = world(g, flags=True)
    n = at(cfg, g.pick(struct_paths(cfg, Container)))
    if isinstance(n._get_parent(), UnionNode):
        return
    run(g, cfg, n, g.pick(["DICT", "DICT", "INSTANTIATE", "DICT_CONFIG"]))


def c_struct(g):
    cls = copy.deepcopy(g.pick(STRUCTS + [sc.Frozen, sc.AttrFrozen()]))
    cfg = OmegaConf.structured(cls) if g.p(0.6) else OmegaConf.create({"s": cls, "l": [cls, 1], "k": {"z": cls}})
    for _ in range(g.r.randrange(0, 4)):
        p = g.pick(struct_paths(cfg, DictConfig))
        n = at(cfg, p)
        if isinstance(content(n), dict) and content(n):
            k = g.pick(list(content(n)))
            free = [q for q, x in content(n).items() if x._metadata.ref_type is Any and not isinstance(x, Container)]
            if free and g.p(0.3):
                outcome(lambda: n.__setitem__(g.pick(free), g.pick([{"x": "???"}, ["???"], {"x": {"y": "???"}}, {"x": "${.z}", "z": "???"}, {"x": [{"y": 1}]}, {"x": sc.Inner2()}, [sc.Inner(), "???"]])))
            outcome(lambda: n.__setitem__(k, g.pick([5, "text", True, "???", None, [1], [7, 8], {"a": 3}, sc.Inner2(x=4), "RED", sc.Color.BLUE, 2.5, "${i}", b"x", {"n": sc.Inner2()}])))
            if g.p(0.15):
                with open_dict(n):
                    outcome(lambda: n.__setitem__("extra", g.pick([1, "x", [1], {"q": 1}])))
    for m in ("DICT", "INSTANTIATE", "DICT_CONFIG"):
        n = at(cfg, g.pick([p for p in struct_paths(cfg, Container) if len(p) < 3]))
        run(g, cfg, n, m)


def c_frozen(g):
    """instances built from configs carry the same values and equal the original instance"""
    for o in (sc.Typed(i=8, li=[4], dn={"q": sc.Inner2(w=False)}, u="str", ou=True, oinner=sc.Inner(x=0), ol=[1], od={"z": 2}, m=3), sc.Frozen(x=3, l=[]), sc.AttrC(x=2, y="q"), sc.AttrFrozen(), sc.Nested(), sc.NonInit(a=4), sc.Small()):
        b = OmegaConf.to_object(OmegaConf.structured(o))
        check(type(b) is type(o), "to_object of a %s gives a %s", type(o), type(b))
        check(b == o, "to_object of %r gives %r", o, b)
        b2 = OmegaConf.to_object(OmegaConf.create({"k": [o]}))
        check(b2 == {"k": [o]}, "to_object of %r gives %r", [o], b2)


CASES = [("tree", 3500, c_tree), ("world", 3500, c_world), ("struct", 2000, c_struct), ("frozen", 2, c_frozen)]
