"""C09 merge against an independent reference"""
from lib import *
from typing import Any


def ref_merge(a, b, mode):
    if isinstance(a, dict) and isinstance(b, dict):
        out = {k: copy.deepcopy(v) for k, v in a.items()}
        for k, v in b.items():
            if k not in out:
                out[k] = copy.deepcopy(v)
            else:
                out[k] = ref_merge(out[k], v, mode)
        return out
    if isinstance(b, str) and b == "???":
        return a
    skip_unless(not (isinstance(a, (dict, list)) and isinstance(b, (dict, list)) and type(a) is not type(b)))  # refused with an error
    if isinstance(a, list) and isinstance(b, list):
        if mode == "EXTEND":
            return a + copy.deepcopy(b)
        if mode == "EXTEND_UNIQUE":
            out = list(a)
            for x in b:
                if not any(tvm(x) == tvm(y) for y in out):
                    out.append(copy.deepcopy(x))
            return out
        return copy.deepcopy(b)
    return copy.deepcopy(b)


def tvm(x):
    """equality as the library compares: 1 == 1.0 == True"""
    if isinstance(x, dict):
        return ("d", tuple(sorted(((repr(tvm(k)), tvm(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, list):
        return ("l", tuple(tvm(v) for v in x))
    if isinstance(x, (bool, int, float)):
        return float(x) if abs(x) < 2 ** 50 else x
    return x


def leaf(g):
    def f():
        return g.pick([1, 2, 3, "a", "b", "x y", True, False, None, 1.5, "", b"z", sc.Color.RED, "???", "???", 0])
    return f


def inp(g, d):
    k = g.r.randrange(4)
    if k == 0:
        return copy.deepcopy(d)
    if k == 1 or not isinstance(d, dict):
        return OmegaConf.create(copy.deepcopy(d))
    if k == 2:
        return OmegaConf.create({"w": copy.deepcopy(d)}).w
    return DictConfig(copy.deepcopy(d))


def no_none_containers(d):
    return d


def c_plain(g):
    mode = g.pick(["REPLACE", "EXTEND", "EXTEND_UNIQUE"])
    top = g.pick([g.dict, g.dict, g.dict, g.list])
    ds = [top(3, odd=0.1, leaf=leaf(g), n=g.r.randrange(0, 5)) for _ in range(g.r.randrange(1, 4))]
    # share structure so that keys meet
    if isinstance(ds[0], dict):
        for d in ds[1:]:
            for k, v in list(ds[0].items()):
                if g.p(0.5):
                    d[k] = (vary(g, v)) if g.p(0.8) else g.data(2, leaf=leaf(g))
    skip_unless(not any(hasbad(d) for d in ds))
    exp = ds[0]
    for d in ds[1:]:
        exp = ref_merge(exp, d, mode)
    ins = [inp(g, d) for d in ds]
    snaps = [full_snap(x) if isinstance(x, Node) else copy.deepcopy(x) for x in ins]
    how = g.pick(["merge", "unsafe", "merge_with", "merge_with_many", "chain"])
    lm = getattr(ListMergeMode, mode)
    g.log.append("%s %s of %r" % (how, mode, ds))
    if how == "merge":
        r = OmegaConf.merge(*ins, list_merge_mode=lm)
    elif how == "unsafe":
        first = copy.deepcopy(ins[0])
        r = OmegaConf.unsafe_merge(first, *[copy.deepcopy(x) for x in ins[1:]], list_merge_mode=lm)
    else:
        r = OmegaConf.create(copy.deepcopy(ds[0]))
        if how == "merge_with":
            for x in ins[1:]:
                r.merge_with(x, list_merge_mode=lm)
        elif how == "merge_with_many":
            r.merge_with(*ins[1:], list_merge_mode=lm)
        else:
            r2 = r
            for x in ins[1:]:
                r2 = OmegaConf.merge(r2, x, list_merge_mode=lm)
            r = r2
    check(tv(plain(r)) == tv(exp), "%s (%s) of %r gives %r, expected %r", how, mode, ds, plain(r), exp)
    wellformed(r)
    if how == "unsafe":
        return
    for x, s in zip(ins, snaps):
        if isinstance(x, Node):
            check(full_snap(x) == s, "%s modified the input %r", how, plain(x))
            ids = {id(y) for y in nodes(x)}
            check(not any(id(y) in ids for y in nodes(r)), "the result of %s shares a node with an input", how)
        else:
            check(tv(x) == tv(s), "%s modified the input %r", how, x)
    # isolated afterwards
    for n in boxes(r, Container):
        if isinstance(n, DictConfig) and isinstance(content(n), dict):
            outcome(lambda: n.__setitem__("added", {"x": 1}))
        elif isinstance(n, ListConfig) and isinstance(content(n), list):
            outcome(lambda: n.append(99))
    for x, s in zip(ins, snaps):
        check((full_snap(x) == s) if isinstance(x, Node) else tv(x) == tv(s), "changing the result of %s changed an input", how)


def hasbad(d):
    """outside the reference: None or missing against containers is covered by c_none"""
    return False


def vary(g, v):
    if isinstance(v, dict):
        out = {k: vary(g, x) for k, x in v.items() if g.p(0.7)}
        if g.p(0.4):
            out[g.key()] = leaf(g)()
        return out
    if isinstance(v, list):
        return [x for x in v if g.p(0.5)] + [leaf(g)() for _ in range(g.r.randrange(0, 3))]
    return leaf(g)()


TYPED_OVER = {
    "i": [5, "6"], "f": [1.25, 3], "b": [False, "yes"], "s": ["new", 5], "by": [b"n"], "p": ["c/d"], "c": ["BLUE", sc.Color.GREEN, 3], "oi": [5, None], "os": [None, "x"], "oc": [None, "RED"],
    "u": ["s", 7], "ou": [True, None, 1.5], "a": [1, "x", None], "m": [1], "inner": [{"x": 9}, {"y": "n", "z": 1.5}, {}, sc.Inner2(x=3)], "oinner": [{"x": 4}, None, sc.Inner(x=2)],
    "li": [[9], []], "ls": [["q"]], "lo": [[None, 5]], "ol": [[1], None], "lin": [[{"x": 1}], [sc.Inner(x=8), {"y": "k"}]], "ll": [[[5], []]], "d": [{"k": 2}, {"n": 5}], "de": [{sc.Color.BLUE: 1.5}],
    "di": [{1: "uno", 2: "dos"}], "dn": [{"n": {"x": 1}}, {"new": {"y": "q"}}], "dd": [{"o": {"i": 2, "j": 3}}, {"p": {}}], "dl": [{"l": [7]}, {"m": []}], "od": [{"a": 1}, None],
}
BAD_OVER = {"i": ["x", 1.5, None], "f": ["x"], "b": ["x", 1.5], "by": ["s"], "c": ["NOPE"], "u": [1.5], "ou": ["s"], "inner": [{"nope": 1}, {"x": "z"}, sc.Other(), None, 5, [1]], "li": [["x"], None, {"a": 1}, 5],
            "lo": [["x"]], "lin": [[{"nope": 1}], [sc.Other()], [5]], "ll": [[["x"]], [5]], "d": [{"k": "x"}, {"n": [1]}, {"n": {"x": 1}}, {5: 1}, [1]], "de": [{"NOPE": 1.5}], "di": [{"x": "y"}],
            "dn": [{"n": {"nope": 1}}, {"new": {"x": "bad"}}, {"new": 5}], "dd": [{"o": {"i": "x"}}, {"o": 5}, {"q": {"z": None}}], "dl": [{"l": ["x"]}, {"l": 5}], "nope": [1]}


def conv_expected(base, over):
    """expected plain content of field values after a valid typed overlay"""
    import dataclasses

    def asp(v):
        if dataclasses.is_dataclass(v):
            return {f.name: asp(getattr(v, f.name)) for f in dataclasses.fields(v)}
        if isinstance(v, dict):
            return {k: asp(x) for k, x in v.items()}
        if isinstance(v, list):
            return [asp(x) for x in v]
        return v
    NORM = {("i", "6"): 6, ("f", 3): 3.0, ("b", "yes"): True, ("s", 5): "5", ("p", "c/d"): pathlib.Path("c/d"), ("c", "BLUE"): sc.Color.BLUE, ("c", 3): sc.Color.BLUE, ("oc", "RED"): sc.Color.RED}
    out = copy.deepcopy(base)
    inner0 = {"x": 1, "y": "why", "z": None}
    for k, v in over.items():
        try:
            if (k, v) in NORM and not isinstance(v, bool):
                out[k] = NORM[(k, v)]
                continue
        except TypeError:
            pass
        v = asp(v)
        if k == "oinner" and isinstance(v, dict):
            out[k] = {**(out[k] or inner0), **v}
        elif k == "od" and isinstance(v, dict):
            out[k] = {**(out[k] or {}), **v}
        elif k == "lin":
            out[k] = [{**inner0, **x} for x in v]
        elif k == "dn":
            out[k] = {**out[k], **{kk: {**(out[k].get(kk) or inner0), **x} for kk, x in v.items()}}
        elif isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = ref_merge(out[k], v, "REPLACE")
        else:
            out[k] = v
    return out


def c_typed(g):
    base = OmegaConf.structured(sc.Typed) if g.p(0.7) else sc.Typed
    exp = plain(OmegaConf.structured(sc.Typed))
    overs = []
    for _ in range(g.r.randrange(1, 3)):
        o = {k: copy.deepcopy(g.pick(v)) for k, v in TYPED_OVER.items() if g.p(0.25)}
        if g.p(0.3):
            o[g.pick(list(TYPED_OVER))] = "???"
        overs.append(o)
        exp = conv_expected(exp, {k: v for k, v in o.items() if not (isinstance(v, str) and v == "???")})
    g.log.append("%r" % (overs,))
    ins = [OmegaConf.create(copy.deepcopy(o), flags={"allow_objects": True}) if g.p(0.5) and not any("Inner" in repr(v) for v in o.values()) else o for o in overs]
    fixed = full_snap(base) if isinstance(base, Node) else None
    r = OmegaConf.merge(base, *ins)
    check(tv(plain(r)) == tv(exp), "merge of a structured config with %r gives\n %r, expected\n %r", overs, plain(r), exp)
    check_typed(r)
    d0, d1 = declared(OmegaConf.structured(sc.Typed)), declared(r)
    for p in d0:
        if len(p) == 1 and p[0] != "inner" and p[0] != "oinner":
            check(d1[p] == d0[p], "merge changed the declared type of %s from %s to %s", p, d0[p], d1[p])
        elif len(p) == 1:
            check(d1[p][:2] == d0[p][:2], "merge changed the declared type of %s from %s to %s", p, d0[p], d1[p])
    if fixed:
        check(full_snap(base) == fixed, "merge modified the structured input")
    check(r._metadata.object_type is sc.Typed, "merge changed the object type to %s", r._metadata.object_type)


def c_typed_bad(g):
    base = OmegaConf.structured(sc.Typed)
    k = g.pick(list(BAD_OVER))
    o = {k: copy.deepcopy(g.pick(BAD_OVER[k]))}
    before = full_snap(base)
    g.log.append(repr(o))
    r = outcome(lambda: OmegaConf.merge(base, o))
    check(r[0] == "exc", "merging %r into a structured config is accepted: %r", o, r[1])
    check(isinstance(r[1], (oe.ValidationError, oe.KeyValidationError, oe.ConfigKeyError, oe.ConfigTypeError, TypeError)), "merging %r raised %s", o, okind(r))
    check(full_snap(base) == before, "failing merge of %r modified its input", o)


def c_inter(g):
    """interpolations survive a merge as interpolations, merging mappings into them expands"""
    t = {"x": 1, "y": {"z": 2}}
    base = {"t": copy.deepcopy(t), "i": "${t}", "v": "${t.x}", "l": "${lst}", "lst": [1, 2]}
    o = g.pick([({"i": {"x": 5}}, {"i": {"x": 5, "y": {"z": 2}}}), ({"i": {"y": {"w": 1}}}, {"i": {"x": 1, "y": {"z": 2, "w": 1}}}), ({"v": 5}, {"v": 5}), ({"v": "${t.y.z}"}, {"v": "${t.y.z}"}),
                ({"i": "${t.y}"}, {"i": "${t.y}"}), ({"t": {"x": 9}}, {"t": {"x": 9, "y": {"z": 2}}}), ({"t": "${i}"}, {"t": "${i}"}), ({"t": None}, {"t": None}), ({"t": "???"}, {}), ({"i": "???"}, {}),
                ({"lst": "${l}"}, {"lst": "${l}"}), ({"lst": None}, {"lst": None}), ({"lst": "???"}, {}), ({"v": "???"}, {}), ({"v": None}, {"v": None}), ({"i": None}, {"i": None}), ({"t": 5}, {"t": 5}),
                ({"l": [7]}, {"l": [7]}),])
    exp = {**base, **o[1]}
    c = OmegaConf.create(base)
    b = full_snap(c)
    for ov in (o[0], OmegaConf.create(o[0])):
        g.log.append(repr(o))
        r = OmegaConf.merge(c, ov)
        check(tv(plain(r)) == tv(exp), "merging %r into %r gives %r, expected %r", o[0], base, plain(r), exp)
        check(full_snap(c) == b, "merge modified its input")


def c_flags(g):
    """flags of the inputs: a read-only first config stays read-only in the result, a struct target refuses unknown keys, inputs keep theirs"""
    d = g.dict(2, n=3, leaf=g.simple)
    a = OmegaConf.create(d)
    f = g.pick(["readonly", "struct"])
    a._set_flag(f, True)
    k = g.pick(list(d) or ["a"])
    ov = {k: 5} if g.p(0.6) else {"brand_new": 1}
    g.log.append("%r %s %r" % (d, f, ov))
    o = outcome(lambda: OmegaConf.merge(a, ov))
    if f == "struct" and any(x not in d for x in ov):
        check(o[0] == "exc", "merging the unknown key into a struct config is accepted")
    else:
        check(o[0] == "ret", "merge with a %s first config raised %s", f, okind(o))
        check(o[1]._get_flag(f) is True, "the result loses the %s flag", f)
        check(tv(plain(o[1])) == tv(ref_merge(d, ov, "REPLACE")), "merge gives %r", plain(o[1]))
    check(tv(plain(a)) == tv(d) and a._get_node_flag(f) is True, "the input changed")


CASES = [("plain", 12000, c_plain), ("typed", 2500, c_typed), ("typed_bad", 1200, c_typed_bad), ("inter", 300, c_inter), ("flags", 800, c_flags)]
