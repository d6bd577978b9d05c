"""C16 key paths: splitting, selection, update, dotted lists"""
from iw import *
import re
from omegaconf._utils import split_key

COMPS = ["a", "b", "c", "foo", "x-y", "x y", "0", "1", "-1", "é", "a=b", "_z", "$", "k1", "]", "q]r", "\\", "'"]


def c_split(g):
    """a path rendered from its components is split into exactly these components"""
    comps = [g.pick(COMPS) if g.p(0.8) else "".join(g.pick("ab0-_ ]$'\"\\{}:,") for _ in range(g.r.randrange(1, 5))) for _ in range(g.r.randrange(1, 6))]
    nd = g.pick([0, 0, 1, 2, 3])
    s = "." * nd
    for i, c in enumerate(comps):
        br = g.p(0.4) and "]" not in c
        if br:
            if g.p(0.2):
                c = comps[i] = c + g.pick([".", "[", ".x", "[y"])
            s += "[" + c + "]"
        else:
            s += ("" if i == 0 else ".") + c
    exp = [""] * nd + comps
    g.log.append(repr(s))
    check(split_key(s) == exp, "split_key(%r) is %r, expected %r", s, split_key(s), exp)
    if not any(x in c for c in comps for x in ".["):
        t = ".".join(split_key(s))
        check(split_key(t) == exp, "rejoined path %r splits into %r, expected %r", t, split_key(t), exp)


def chain(cfg, comps):
    """item accesses; ('abs',) when a component is not there"""
    n = cfg
    for i, c in enumerate(comps):
        if isinstance(n, DictConfig):
            if n._is_none() or n._is_missing():
                return ("abs", i)
            if c not in n._content:
                return ("abs", i)
            f = lambda: n[c]
        elif isinstance(n, ListConfig):
            if n._is_none() or n._is_missing():
                return ("abs", i)
            if not re.fullmatch("[-+]?[0-9]+", c):
                return ("badindex", i)
            if not 0 <= int(c) < len(n._content):
                return ("abs", i)
            f = lambda: n[int(c)]
        else:
            return ("abs", i) if n is None else ("leaf", i)
        r = outcome(f)
        if r[0] == "exc":
            if isinstance(r[1], oe.MissingMandatoryValue):
                return ("miss", i)
            return r
        n = r[1]
    return ("ret", n)


def path_str(g, comps, nd=0):
    s = "." * nd
    for i, c in enumerate(comps):
        if g.p(0.25) and "]" not in c:
            s += "[" + c + "]"
        else:
            s += ("." if i else "") + c
    return s


def c_select(g):
    t = add_refs(g, gen_tree(g), 0.2)
    cfg = OmegaConf.create(render(t))
    if not isinstance(cfg, (DictConfig, ListConfig)):
        return
    g.log.append("%r" % (render(t),))
    ps = all_paths(t)
    before = full_snap(cfg)
    conts = [p for p in ps if isinstance(at_spec(t, p), (dict, list))]
    for _ in range(12):
        start = g.pick(conts)
        node = key_at(cfg, start)
        full = g.pick([p for p in ps if p[:len(start)] == start])
        comps = [str(c) for c in full[len(start):]]
        up = 0
        if g.p(0.3):
            up = g.r.randrange(0, len(start) + 1)
            base = start[:len(start) - up]
            full = g.pick([p for p in ps if p[:len(base)] == base])
            comps = [str(c) for c in full[len(base):]]
            node_from = key_at(cfg, base)
            nd = up + 1
        else:
            node_from, nd = node, 0
        k = g.r.randrange(8)
        if k == 0 and comps:
            comps[-1] = g.pick(["nope", "a", "0", "9", "-1", "k"])
        elif k == 1:
            comps = comps + [g.pick(["a", "0", "nope", "b"])]
        elif k == 2 and comps:
            comps[g.r.randrange(len(comps))] = g.pick(["nope", "a", "0", "7"])
        if not comps and nd == 0:
            continue
        s = path_str(g, comps, nd)
        exp = chain(node_from, comps)
        for kw in ({}, {"default": "D"}, {"default": None}, {"throw_on_missing": True}, {"throw_on_resolution_failure": False}):
            got = outcome(lambda: OmegaConf.select(node, s, **kw))
            d = kw.get("default")
            what = "select(%s, %r, %r)" % (start, s, kw)
            if exp[0] == "ret":
                v = exp[1]
                check(got[0] == "ret", "%s raises %s, item access gives %r", what, okind(got), v)
                check(got[1] is v if isinstance(v, Node) else tv(got[1]) == tv(v), "%s is %r, item access gives %r", what, got[1], v)
            elif exp[0] == "abs":
                check(got[0] == "ret" and got[1] == d, "%s is %s, the path is absent, expected %r", what, got, d)
            elif exp[0] == "miss":
                if "throw_on_missing" in kw:
                    check(got[0] == "exc" and isinstance(got[1], oe.MissingMandatoryValue), "%s is %s, item access raises MissingMandatoryValue", what, got)
                else:
                    check(got[0] == "ret" and got[1] == d, "%s is %s, the value is missing, expected %r", what, got, d)
            elif exp[0] == "leaf":
                check(got[0] == "ret" and got[1] == d, "%s is %s, the path goes below a value, expected %r", what, got, d)
            elif exp[0] == "badindex":
                if "throw_on_resolution_failure" in kw:
                    check(got == ("ret", None), "%s is %s for a bad index, expected None", what, got)
                else:
                    check(got[0] == "exc" and isinstance(got[1], oe.ConfigTypeError) or got[0] == "ret" and got[1] == d, "%s is %s for a bad index", what, got)
            else:
                if "throw_on_resolution_failure" in kw:
                    check(got == ("ret", None), "%s is %s for an interpolation that cannot be resolved", what, got)
                else:
                    check(got[0] == "exc" and isinstance(got[1], oe.InterpolationResolutionError), "%s is %s, item access raises %s", what, got, okind(exp))
    check(full_snap(cfg) == before, "selecting modified the config")


class Bad(Exception):
    pass


def merge_into(a, b):
    for k, v in b.items():
        if k in a and isinstance(a[k], dict) and isinstance(v, dict):
            merge_into(a[k], v)
        elif k in a and (isinstance(a[k], list) and isinstance(v, dict) or isinstance(a[k], dict) and isinstance(v, list)):
            raise Skip()
        elif k in a and isinstance(a[k], str) and "${" in a[k] and isinstance(v, (dict, list)):
            raise Skip()  # merging into an interpolation (C09)
        elif k in a and isinstance(a[k], list) and isinstance(v, list):
            a[k] = copy.deepcopy(v)
        else:
            a[k] = copy.deepcopy(v)


def model_update(m, comps, v, merge=True):
    def get(x, c):
        if isinstance(x, dict):
            return x.get(c, Bad)
        if not re.fullmatch("-?[0-9]+", c):
            raise Bad("index")
        return x[int(c)] if 0 <= int(c) < len(x) else Bad

    def put(x, c, v):
        if isinstance(x, dict):
            x[c] = v
        else:
            if not re.fullmatch("-?[0-9]+", c):
                raise Bad("index")
            if not -len(x) <= int(c) < len(x):
                raise Bad("range")
            x[int(c)] = v
    for c in comps[:-1]:
        n = get(m, c)
        if not isinstance(n, (dict, list)):
            if isinstance(m, list) and c.startswith("-"):
                raise Skip()
            put(m, c, {})
            n = get(m, c)
        m = n
    c = comps[-1]
    if merge and isinstance(v, (dict, list)):
        n = get(m, c)
        if isinstance(m, list) and c.startswith("-"):
            raise Skip()
        if isinstance(n, (dict, list)):
            if type(n) is not type(v):
                raise Skip()
            if isinstance(v, dict):
                merge_into(n, v)
            else:
                n[:] = copy.deepcopy(v)
            return
    put(m, c, copy.deepcopy(v))


def gen_plain(g, depth=3):
    k = g.pick(["leaf", "leaf", "dict", "list"]) if depth else "leaf"
    if k == "leaf":
        return g.pick([1, 2, "a", None, True, 1.5, "", "x y", "${a}", "${nope.b}", "???"])
    if k == "dict":
        return {g.pick(["a", "b", "c", "x-y", "0"]): gen_plain(g, depth - 1) for _ in range(g.r.randrange(0, 4))}
    return [gen_plain(g, depth - 1) for _ in range(g.r.randrange(0, 4))]


def gen_new(g, depth=2):
    k = g.pick(["leaf", "leaf", "dict", "list"]) if depth else "leaf"
    if k == "leaf":
        return g.pick([1, 2, "n", None, False, 2.5, "", "new val", "${b}"])
    if k == "dict":
        return {g.pick(["a", "b", "n", "x-y"]): gen_new(g, depth - 1) for _ in range(g.r.randrange(0, 3))}
    return [gen_new(g, depth - 1) for _ in range(g.r.randrange(0, 3))]


def some_path(g, m):
    comps = []
    x = m
    for _ in range(g.r.randrange(1, 5)):
        if isinstance(x, dict):
            c = g.pick(list(x) + ["n", "nope", "a"]) if g.p(0.8) else g.pick(COMPS[:11])
            x = x.get(c)
        elif isinstance(x, list):
            c = str(g.r.randrange(-1, len(x) + 1)) if g.p(0.9) else "a"
            x = x[int(c)] if c != "a" and 0 <= int(c) < len(x) else None
        else:
            c = g.pick(["a", "b", "q", "0"])
        comps.append(c)
    return comps


def c_update(g):
    m = {g.pick(["a", "b", "c"]): gen_plain(g) for _ in range(g.r.randrange(0, 4))}
    cfg = OmegaConf.create(copy.deepcopy(m))
    struct = g.p(0.3)
    if struct:
        OmegaConf.set_struct(cfg, True)
    for _ in range(5):
        comps, v = some_path(g, m), gen_new(g)
        merge = g.p(0.7)
        force = g.p(0.5) if struct else g.p(0.1)
        if struct and not force:
            continue
        s = path_str(g, comps)
        g.log.append("%r update(%r, %r, merge=%s, force_add=%s)" % (m, s, v, merge, force))
        before = copy.deepcopy(m)
        vv = v if g.p(0.5) or not isinstance(v, (dict, list)) else OmegaConf.create(v)
        bad = None
        try:
            model_update(m, comps, v, merge)
        except Bad as e:
            bad = e
        got = outcome(lambda: OmegaConf.update(cfg, s, vv, merge=merge, force_add=force))
        if bad is not None:
            check(got[0] == "exc", "update(%r, %r) of %r does not raise (%s)", s, v, before, bad)
            # intermediate containers may have been created
            m = plain(cfg)
            continue
        check(got[0] == "ret", "update(%r, %r, merge=%s, force_add=%s) of %r raises %s: %s", s, v, merge, force, before, okind(got), str(got[1])[:200] if got[0] == "exc" else "")
        check(tv(plain(cfg)) == tv(m), "update(%r, %r, merge=%s, force_add=%s) of %r gives %r, expected %r", s, v, merge, force, before, plain(cfg), m)
        check(bool(cfg._get_flag("struct")) == struct, "update changed the struct flag")
        wellformed(cfg)
        # select what was set
        if not isinstance(v, (dict, list)) and "${" not in str(v):
            r = outcome(lambda: OmegaConf.select(cfg, s))
            if not any(c.startswith("-") for c in comps):
                check(r[0] == "ret" and tv(r[1]) == tv(v), "after update(%r, %r) select gives %s", s, v, r)


def c_strict(g):
    """struct mode without force_add: an update that needs a new key is refused and changes nothing but the containers created below existing places"""
    m = {g.pick(["a", "b", "c"]): gen_plain(g) for _ in range(g.r.randrange(1, 4))}
    cfg = OmegaConf.create(copy.deepcopy(m))
    OmegaConf.set_struct(cfg, True)
    comps, v = some_path(g, m), g.pick([1, "n", None])
    x, new = m, False
    for i, c in enumerate(comps):
        if isinstance(x, dict):
            if c not in x:
                new = i
                break
            x = x[c]
        elif isinstance(x, list):
            return
        else:
            return
    if new is False:
        return
    s = path_str(g, comps)
    before = full_snap(cfg)
    got = outcome(lambda: OmegaConf.update(cfg, s, v))
    check(got[0] == "exc" and isinstance(got[1], (AttributeError, KeyError)), "update(%r) of %r in struct mode gives %s", s, m, got)
    check(full_snap(cfg) == before, "the refused update changed the config: %r -> %r", m, plain(cfg))


YAML = [("1", 1), ("-3", -3), ("a", "a"), ("true", True), ("False", False), ("null", None), ("", None), ("1.5", 1.5), ("1e3", 1000.0), ("'5'", "5"), ('"x y"', "x y"), ("a b", "a b"), ("[1, 2, a]", [1, 2, "a"]), ("{a: 1, b: x}", {"a": 1, "b": "x"}),
        ("[]", []), ("{}", {}), ("a=b", "a=b"), ("0x1F", 31), ("010", 8), ("1_000", 1000), ("${a}", "${a}"), ("yes", True), ("on", True), ("~", None), (".inf", float("inf")), ("a,b", "a,b"), ("x: ", {"x": None}), ("2020-01-01", "2020-01-01"), ("1:30", 90), ("'???'", "???"), ("{a: {b: 2}}", {"a": {"b": 2}})]


def c_dotlist(g):
    args, m = [], {}
    base = None
    if g.p(0.5):
        base = {g.pick(["a", "b", "c"]): gen_plain(g) for _ in range(g.r.randrange(0, 3))}
        m = copy.deepcopy(base)
    for _ in range(g.r.randrange(0, 6)):
        comps = some_path(g, m)
        comps = [c.replace("=", "e") for c in comps]
        text, v = g.pick(YAML)
        s = path_str(g, comps)
        if g.p(0.08):
            args.append(s)
            v = None
        else:
            args.append(s + "=" + text)
        try:
            model_update(m, comps, v)
        except Bad:
            return
    g.log.append("%r %r" % (base, args))
    if base is None:
        how = g.pick([OmegaConf.from_dotlist, OmegaConf.from_cli])
        got = outcome(lambda: how(list(args)))
        cfg = got[1]
    else:
        cfg = OmegaConf.create(copy.deepcopy(base))
        got = outcome(lambda: cfg.merge_with_dotlist(g.pick([list, tuple])(args)))
    check(got[0] == "ret", "%r merged into %r raises %s", args, base, got)
    check(tv(plain(cfg)) == tv(m), "%r merged into %r gives %r, expected %r", args, base, plain(cfg), m)
    wellformed(cfg)


CASES = [("split", 8000, c_split), ("select", 2500, c_select), ("update", 5000, c_update), ("strict", 1500, c_strict), ("dotlist", 4000, c_dotlist)]
