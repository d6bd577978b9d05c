"""C13 missing values and defaults: a table of expected results per access and kind of entry"""
from iw import *
import typing

FALSY = [None, 0, 0.0, False, "", [], {}, b""]
TRUTHY = [1, "x", True, 2.5, [1], {"q": 1}, "??", "????", " ???", "None", "null", sc.Color.RED]


def pl(x):
    return plain(x) if isinstance(x, Node) else x


def mk(g):
    """(root config, path of a container, {key: (kind, value)})"""
    ents = {}
    data = {}
    base = g.pick(["absent", "value"])
    for k in ["a", "b", "c", "d", "e", "f", "g", "h"]:
        kind = g.pick(["value", "falsy", "missing", "ival", "imiss", "ibad", "ifalsy", "imiss2", "cmiss", "cimiss", "cnone"])
        v = copy.deepcopy(g.pick(TRUTHY if kind in ("value", "ival") else FALSY))
        if kind in ("value", "falsy"):
            data[k] = v
            ents[k] = ("val", v)
        elif kind == "missing":
            data[k] = "???"
            ents[k] = ("miss", None)
        elif kind == "cmiss":
            data[k] = g.pick([DictConfig, ListConfig])("???")
            ents[k] = ("miss", None)
        elif kind == "cimiss":
            data[k] = g.pick([DictConfig, ListConfig])("${src.m}")
            ents[k] = ("imiss", None)
        elif kind == "cnone":
            data[k] = g.pick([DictConfig, ListConfig])(None)
            ents[k] = ("val", None)
        elif kind in ("ival", "ifalsy"):
            data[k] = "${src.%s}" % k
            ents[k] = ("val", v)
            data.setdefault("src_" + k, v)
        elif kind == "imiss":
            data[k] = "${src.m}"
            ents[k] = ("imiss", None)
        elif kind == "imiss2":
            data[k] = "${src.m2}"
            ents[k] = ("imiss", None)
        else:
            data[k] = g.pick(["${src.nope}", "${nope}", "${src.m3.x}", "${nores:1}", "${src.x5.y}", "${" + "." * 9 + "z}"])
            ents[k] = ("bad", None)
    src = {"m": "???", "m2": "${src.m}", "x5": 5}
    for k in list(data):
        if k.startswith("src_"):
            src[k[4:]] = data.pop(k)
    lst = g.p(0.35)
    keys = list(data)
    body = [data[k] for k in keys] if lst else data
    if lst:
        ents = {i: ents[k] for i, k in enumerate(keys)}
    depth = g.r.randrange(3)
    root = {"src": src}
    if depth == 0:
        root["w"] = body
        path = ("w",)
    elif depth == 1:
        root["o"] = {"w": body}
        path = ("o", "w")
    else:
        root["o"] = [0, {"w": body}]
        path = ("o", 1, "w")
    cfg = OmegaConf.create(root)
    if g.p(0.2):
        OmegaConf.set_readonly(cfg, True)
    return cfg, path, ents


class D:
    """default sentinel"""


def expect_read(o, e, what, dflt=None):
    """dflt: None, or ('d', value): value returned for a missing value"""
    kind, v = e
    if kind == "val":
        check(o[0] == "ret" and tv(pl(o[1])) == tv(v), "%s gives %s, expected the value %r", what, o[1] if o[0] == "ret" else okind(o), v)
    elif kind == "miss":
        if dflt is None:
            check(o[0] == "exc" and isinstance(o[1], oe.MissingMandatoryValue), "%s of a missing value gives %s, expected a missing-value error", what, o[1] if o[0] == "ret" else okind(o))
        else:
            check(o[0] == "ret" and o[1] is dflt[1], "%s of a missing value gives %s, expected the default %r", what, o[1] if o[0] == "ret" else okind(o), dflt[1])
    elif kind == "imiss":
        check(o[0] == "exc" and isinstance(o[1], oe.InterpolationToMissingValueError), "%s of an interpolation to a missing value gives %s", what, o[1] if o[0] == "ret" else okind(o))
    else:
        check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "%s of a failing interpolation gives %s", what, o[1] if o[0] == "ret" else okind(o))


def dots(path):
    return dotted(path)


def c_table(g):
    cfg, path, ents = mk(g)
    n = at(cfg, path)
    isd = isinstance(n, DictConfig)
    before = full_snap(cfg)
    g.log.append("%r at %s" % (plain(cfg), path))
    dd = D()
    falsy = g.pick([None, 0, "", False])
    for k, e in ents.items():
        expect_read(outcome(lambda: n[k]), e, "item access to %r" % (k,))
        if isd:
            expect_read(outcome(lambda: getattr(n, k)), e, "attribute access to %r" % (k,))
        expect_read(outcome(lambda: n.get(k)), e, "get(%r)" % (k,), ("d", None))
        expect_read(outcome(lambda: n.get(k, dd)), e, "get(%r, default)" % (k,), ("d", dd))
        expect_read(outcome(lambda: n.get(k, falsy)), e, "get(%r, %r)" % (k, falsy), ("d", falsy))
        m = outcome(lambda: OmegaConf.is_missing(n, k))
        check(m == ("ret", e[0] == "miss"), "is_missing(%r) of %s is %s", k, e, m)
        if isd:
            c = outcome(lambda: k in n)
            check(c == ("ret", e[0] != "miss"), "%r in the config, entry %s, gives %s", k, e, c)
        # selection by path, from the root and from the container
        for base, pth in ((cfg, dots(path + (k,))), (n, dots((k,)))):
            what = "select(%r)" % pth
            expect_read(outcome(lambda: OmegaConf.select(base, pth)), e, what, ("d", None))
            expect_read(outcome(lambda: OmegaConf.select(base, pth, default=dd)), e, what + " with default", ("d", dd))
            expect_read(outcome(lambda: OmegaConf.select(base, pth, default=falsy)), e, what + " with default", ("d", falsy))
            o = outcome(lambda: OmegaConf.select(base, pth, throw_on_missing=True))
            expect_read(o, e, what + " throwing on missing")
            o = outcome(lambda: OmegaConf.select(base, pth, throw_on_resolution_failure=False))
            if e[0] in ("imiss", "bad"):
                check(o == ("ret", None), "%s without resolution errors gives %s", what, o)
            o = outcome(lambda: OmegaConf.select(base, pth, throw_on_resolution_failure=False, default=dd))
            if e[0] in ("imiss", "bad"):
                check(o[0] == "ret" and o[1] is dd, "%s without resolution errors with a default gives %s", what, o)
    # absent keys
    a = "zz" if isd else len(ents) + 1
    if isd:
        check(n.get(a) is None and n.get(a, dd) is dd and n.get(a, falsy) is falsy, "get of an absent key does not give the default")
        check(a not in n, "an absent key is a member")
        o = outcome(lambda: n[a])
        check(o[0] == "exc" and isinstance(o[1], KeyError), "reading an absent key gives %s", o)
        o = outcome(lambda: getattr(n, a))
        check(o[0] == "exc" and isinstance(o[1], AttributeError), "reading an absent attribute gives %s", o)
        check(OmegaConf.is_missing(n, a) is False, "an absent key is missing")
        check(list(n) == list(ents) and list(n.keys()) == list(ents) and len(n) == len(ents), "iteration gives %s for %s", list(n), ents)
        o = outcome(lambda: list(n.items()))
        if all(e[0] == "val" for e in ents.values()):
            check(o[0] == "ret" and [(k, tv(pl(v))) for k, v in o[1]] == [(k, tv(e[1])) for k, e in ents.items()], "items gives %s", o)
        else:
            check(o[0] == "exc" and isinstance(o[1], (oe.MissingMandatoryValue, oe.InterpolationResolutionError)), "items over missing values gives %s", o)
    else:
        o = outcome(lambda: n[a])
        check(o[0] == "exc" and isinstance(o[1], IndexError), "reading an absent index gives %s", o)
        check(len(n) == len(ents), "len is %d", len(n))
        o = outcome(lambda: list(n))
        if all(e[0] == "val" for e in ents.values()):
            check(o[0] == "ret" and [tv(pl(v)) for v in o[1]] == [tv(e[1]) for e in ents.values()], "iteration gives %s", o)
        else:
            check(o[0] == "exc" and isinstance(o[1], (oe.MissingMandatoryValue, oe.InterpolationResolutionError)), "iteration over missing values gives %s", o)
    for p in (path + (a,), path + (a, "x"), ("nope",), ("nope", "x")):
        check(OmegaConf.select(cfg, dots(p)) is None and OmegaConf.select(cfg, dots(p), default=dd) is dd and OmegaConf.select(cfg, dots(p), default=falsy) is falsy, "selecting the absent %s does not give the default", p)
    check(full_snap(cfg) == before, "reading changed the config")


def c_write(g):
    """pop, setdefault: the default is used only when the key is absent or the value missing"""
    cfg, path, ents = mk(g)
    n = at(cfg, path)
    if cfg._get_flag("readonly"):
        OmegaConf.set_readonly(cfg, False)
    dd = g.pick([7, "dflt", None, 0, False, ""])
    if isinstance(n, DictConfig):
        for k, e in list(ents.items()):
            g.log.append("%r %r %s default %r" % (plain(n), k, e, dd))
            before = full_snap(cfg)
            w = g.r.randrange(4)
            rest = {x: plain(y) for x, y in children(n) if x != k}
            if w == 0:
                o = outcome(lambda: n.pop(k, dd))
                expect_read(o, e, "pop(%r, default)" % (k,), ("d", dd))
                if e[0] in ("val", "miss"):
                    check(plain(n) == rest and k not in content(n), "pop leaves %r", plain(n))
                else:
                    check(full_snap(cfg) == before, "failed pop changed the config")
            elif w == 1:
                o = outcome(lambda: n.pop(k))
                expect_read(o, e, "pop(%r)" % (k,))
                if e[0] == "val":
                    check(plain(n) == rest and k not in content(n), "pop leaves %r", plain(n))
                else:
                    check(full_snap(cfg) == before, "failed pop changed the config")
            elif w == 2:
                o = outcome(lambda: n.setdefault(k, dd))
                expect_read(o, e, "setdefault(%r)" % (k,), ("d", dd))
                if e[0] == "miss":
                    check(tv(plain(n)[k]) == tv(dd), "setdefault of a missing value stores %r", plain(n)[k])
                else:
                    check(full_snap(cfg) == before, "setdefault changed an existing value")
            else:
                o = outcome(lambda: n.setdefault("new" + k, dd))
                check(o == ("ret", dd) and tv(plain(n)["new" + k]) == tv(dd), "setdefault of an absent key gives %s", o)
        before = full_snap(cfg)
        check(n.pop("absent", dd) is dd, "pop of an absent key with default")
        o = outcome(lambda: n.pop("absent"))
        check(o[0] == "exc" and isinstance(o[1], KeyError), "pop of an absent key gives %s", o)
        check(full_snap(cfg) == before, "pop of an absent key changed the config")


def c_missing_keys(g):
    t = gen_tree(g, miss=0.25)
    cfg = OmegaConf.create(render(t))
    exp = {dotted(p) for p in leaves(t) if isinstance(at_spec(t, p).v, str) and at_spec(t, p).v == "???"}
    before = full_snap(cfg)
    got = OmegaConf.missing_keys(cfg)
    check(got == exp, "missing_keys of %r is %s, expected %s", plain(cfg), got, exp)
    check(full_snap(cfg) == before, "missing_keys changed the config")
    for p in leaves(t):
        if p:
            o = outcome(lambda: OmegaConf.to_container(cfg, throw_on_missing=True))
            check((o[0] == "exc") == bool(exp), "to_container(throw_on_missing) of %r gives %s", plain(cfg), okind(o))
            break


def c_typed(g):
    """missing fields of structured configs and typed containers"""
    c = OmegaConf.structured(sc.MissingInner)
    for k in ("inner", "l", "d", "x"):
        o = outcome(lambda: c[k])
        check(o[0] == "exc" and isinstance(o[1], oe.MissingMandatoryValue), "reading the missing field %s gives %s", k, o)
        check(OmegaConf.is_missing(c, k) is True and k not in c and c.get(k, 5) == 5 and OmegaConf.select(c, k, default=6) == 6 and OmegaConf.select(c, k) is None, "missing field %s", k)
        check(OmegaConf.select(c, k + ".y", default=6) == 6 if k != "x" else True, "selecting below the missing field %s", k)
    check(OmegaConf.missing_keys(c) == {"inner", "l", "d", "x"}, "missing_keys is %s", OmegaConf.missing_keys(c))
    t = OmegaConf.structured(sc.Typed)
    for f in ("i", "f", "b", "s", "by", "p", "c", "oi", "u", "ou", "a", "inner", "li", "d", "ol", "od", "oinner"):
        keep = plain(t)
        t[f] = "???"
        check(OmegaConf.is_missing(t, f) and f not in t and t.get(f, "D") == "D", "field %s assigned missing", f)
        o = outcome(lambda: t[f])
        check(o[0] == "exc" and isinstance(o[1], oe.MissingMandatoryValue), "field %s assigned missing reads as %s", f, o)
        check(list(t) == list(keep), "assigning missing to %s changes the keys", f)
    for f in ("oi", "os", "oc", "ou", "ol", "od", "oinner"):
        t[f] = None
        check(t[f] is None and f in t and not OmegaConf.is_missing(t, f) and t.get(f, 5) is None and OmegaConf.select(t, f, default=5) is None, "None in the field %s is taken for missing", f)
    for cont in (DictConfig("???"), ListConfig("???")):
        r = OmegaConf.create({})
        r.k = cont
        check(OmegaConf.is_missing(r, "k"), "missing container")
        o = outcome(lambda: r.k)
        check(o[0] == "exc" and isinstance(o[1], oe.MissingMandatoryValue), "missing container reads as %s", o)
        check(r.get("k", 4) == 4 and "k" not in r and len(cont) == 0, "missing container defaults")
    for cont in (DictConfig(None), ListConfig(None)):
        r = OmegaConf.create({"k": cont})
        check(r.k is None and "k" in r and r.get("k", 4) is None and not OmegaConf.is_missing(r, "k"), "None container")
    lst = OmegaConf.create(["???", None, 0, 1])
    check(lst.get(0, "d") == "d" and lst.get(1, "d") is None and lst.get(2, "d") == 0 and lst.get(3) == 1, "list get")
    check([OmegaConf.is_missing(lst, i) for i in range(4)] == [True, False, False, False], "list is_missing")


def c_oc_select(g):
    """oc.select and oc.env use the default only when the key is absent, missing / the variable unset"""
    import os
    v = g.pick(TRUTHY[:4] + FALSY[:5])
    kind = g.pick(["absent", "missing", "value", "deep"])
    d = {"r": "${oc.select:k%s,dflt}" % (".x" if kind == "deep" else ""), "n": "${oc.select:k}"}
    if kind == "missing":
        d["k"] = "???"
    elif kind == "value":
        d["k"] = v
    elif kind == "deep":
        d["k"] = {"x": v}
    c = OmegaConf.create(d)
    exp = "dflt" if kind in ("absent", "missing") else v
    g.log.append("%r" % (d,))
    check(tv(c.r) == tv(exp), "oc.select gives %r, expected %r", c.r, exp)
    if kind in ("absent", "missing"):
        check(c.n is None, "oc.select without default gives %r", c.n)
    name = "VERIF_C13_VAR"
    os.environ.pop(name, None)
    e = OmegaConf.create({"a": "${oc.env:%s,xx}" % name, "b": "${oc.env:%s}" % name, "z": "${oc.env:%s,null}" % name, "i": "${oc.env:%s,${v}}" % name, "v": "vv"})
    check(e.a == "xx" and e.z is None and e.i == "vv", "oc.env default: %r %r", e.a, e.z)
    o = outcome(lambda: e.b)
    check(o[0] == "exc" and isinstance(o[1], oe.InterpolationResolutionError), "oc.env of an unset variable gives %s", o)
    for val in ("", "0", "null", "false", "text", "${a}"):
        os.environ[name] = val
        check(e.a == val and e.b == val and e.z == val, "oc.env of %r gives %r %r", val, e.a, e.z)
    os.environ.pop(name, None)


CASES = [("table", 2500, c_table), ("write", 2500, c_write), ("missing_keys", 2000, c_missing_keys), ("typed", 8, c_typed), ("oc", 200, c_oc_select)]
