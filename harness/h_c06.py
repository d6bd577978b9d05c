"""C06 flags: effective value after every history; scoped overrides"""
from lib import *
import pickle

FLAGS = ["readonly", "struct", "allow_objects", "custom"]


def check_flags(w, what):
    for p, n in walk(w):
        for f in FLAGS:
            exp = flag_oracle(n, f)
            got = n._get_flag(f)
            check(got is exp, "%s: flag %s of the node at %s is %r, nearest setting says %r", what, f, p, got, exp)


def mk(g):
    d = {"a": {"b": {"c": 1, "l": [1, [2, {"z": 3}]]}, "d": 5}, "e": [{"f": 1}, 2, [3]], "s": sc.Typed() if g.p(0.4) else {"u": 5, "inner": {"x": 1}}, "m": {"k": {"j": 1}}}
    if g.p(0.2):
        return OmegaConf.create([d, [1, {"a": 2}]])
    return OmegaConf.create(d)


def c_hist(g):
    w = mk(g)
    detached = []
    for _ in range(25):
        ns = nodes(w)
        n = g.pick(ns)
        f = g.pick(FLAGS)
        v = g.pick([True, False, None])
        k = g.r.randrange(18)
        d = "?"
        if k < 5:
            n._set_flag(f, v)
            d = "set %s=%s on %s" % (f, v, n._get_full_key(None))
        elif k == 5:
            vs = [g.pick([True, False, None]) for _ in range(2)]
            n._set_flag(FLAGS[:2], vs)
            d = "set %s on %s" % (vs, n._get_full_key(None))
        elif k == 6:
            (OmegaConf.set_readonly if f == "readonly" else OmegaConf.set_struct)(n, v) if isinstance(n, Container) else OmegaConf.set_readonly(n, v)
            d = "OmegaConf.set on %s %s" % (n._get_full_key(None), v)
        elif k < 10:
            d = "read"
            n._get_flag(f)
            OmegaConf.is_readonly(n)
            if g.p(0.4):
                check_flags(w, "read")
        elif k == 10:
            n._set_flags_root(g.p(0.5))
            d = "flags root %s on %s" % (n._metadata.flags_root, n._get_full_key(None))
        elif k == 11:
            c = g.pick(boxes(w, Container))
            if isinstance(c, DictConfig):
                op = ("setitem", g.pick(list(content(c)) + ["nk"]) if isinstance(content(c), dict) else "nk", ("plain", g.pick([1, {"q": {"r": 1}}, [1, [2]]])))
            else:
                op = g.pick([("append", ("plain", {"q": 1})), ("insert", 0, ("plain", [1])), ("pop", 0), ("setitem", 0, ("plain", {"x": [1]}))])
            d = "%s on %s" % (op, c._get_full_key(None))
            outcome(lambda: run_op(c, op))
        elif k == 12:
            c = g.pick(boxes(w, Container))
            m = g.pick(boxes(w, Container))
            d = "assign node %s into %s" % (m._get_full_key(None), c._get_full_key(None))
            outcome(lambda: c.__setitem__("moved" if isinstance(c, DictConfig) else 0, m))
        elif k == 13:
            # re-parent a detached copy directly
            m = copy.deepcopy(g.pick(ns))
            m._set_parent(None)
            detached.append(m)
            check_flags(m, "detached")
            c = g.pick(boxes(w, Container))
            m._get_flag(f)
            m._set_parent(c)
            check_flags(m, "re-parented")
            if g.p(0.5):
                m._get_flag(g.pick(FLAGS))
                m._set_parent(g.pick(boxes(w, Container)))
                check_flags(m, "moved to another parent")
            d = "reparent copy"
        elif k == 14:
            w = g.pick([copy.deepcopy, copy.copy, lambda x: pickle.loads(pickle.dumps(x))])(w)
            d = "copy"
        elif k == 15:
            d = "resolve/merge"
            outcome(lambda: w.merge_with({"a": {"b": {"zz": [1, {"k": 1}]}}}) if isinstance(w, DictConfig) else w.merge_with([1, {"q": 1}]))
        elif k == 16:
            u = [x for x in ns if isinstance(x, UnionNode)]
            if u:
                x = g.pick(u)
                x._set_flag(f, v)
                outcome(lambda: x._set_value(g.pick([1, "s", 2.5, True])))
            d = "union"
        else:
            with flag_override(n, f, v):
                check(n._get_flag(f) is flag_oracle(n, f), "inside the override")
                if v is not None:
                    check(n._get_flag(f) is v, "override of %s to %s not effective", f, v)
                check_flags(w, "inside override")
            d = "override"
        g.log.append(d)
        if g.p(0.6):
            check_flags(w, d)
    check_flags(w, "end")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def c_scope(g):
    w = mk(g)
    for n in nodes(w):
        for f in FLAGS:
            if g.p(0.15):
                n._set_flag(f, g.p(0.5))
    if g.p(0.5):
        check_flags(w, "prime")

    def nest(depth):
        n = g.pick(nodes(w))
        before = own_flags(w)
        kind = g.r.randrange(5)
        how = g.r.randrange(4)
        tgt = n if kind in (0, 3, 4) or isinstance(n, Container) else g.pick(boxes(w, Container))
        fl = {0: "custom", 1: ["readonly", "struct"], 2: "struct", 3: "readonly", 4: ["readonly", "custom", "struct"]}[kind]
        vals = g.p(0.5) if isinstance(fl, str) else [g.p(0.5) for _ in fl]
        cm = g.pick([lambda: flag_override(tgt, fl, vals)] + ([lambda: read_write(tgt)] if kind == 3 else []) + ([lambda: open_dict(tgt)] if kind == 2 else []))
        c = cm()
        isrw = c.func.__name__ if hasattr(c, "func") else "?"
        g.log.append("%s %s=%s on %s, leave by %d" % (isrw, fl, vals, tgt._get_full_key(None), how))

        def body():
            with c as y:
                check(y is tgt, "the override yields another object")
                exp = False if isrw in ("read_write", "open_dict") else vals
                fs = {"read_write": "readonly", "open_dict": "struct"}.get(isrw, fl)
                for f, e in zip([fs] if isinstance(fs, str) else fs, [exp] if isinstance(fs, str) else exp):
                    check(tgt._get_node_flag(f) is e and tgt._get_flag(f) is e, "%s of %s to %s not effective", isrw, f, e)
                inner = dict(before)
                now = dict(own_flags(w))
                for i in now:
                    if i != id(tgt):
                        check(now[i] == inner[i], "the override changed flags of another node")
                check_flags(w, "inside")
                if depth:
                    nest(depth - 1)
                if how == 1:
                    raise Boom()
                if how == 2:
                    raise BaseBoom()
                if how == 3:
                    return 5
        try:
            body()
        except (Boom, BaseBoom):
            pass
        check(own_flags(w) == before, "own flags are not restored after the block (left by %d)", how)
        check_flags(w, "after")

    nest(g.r.randrange(3))


def c_gen(g):
    """an abandoned or throwing generator using an override restores too"""
    w = mk(g)
    n = g.pick(boxes(w, Container))
    before = own_flags(w)

    def gen():
        with read_write(n):
            yield 1
            yield 2
    it = gen()
    next(it)
    check(n._get_flag("readonly") is False, "read_write not effective")
    it.close()
    check(own_flags(w) == before, "closing a suspended block does not restore the flags")
    o = outcome(lambda: n._set_flag(["readonly", "struct"], [True, False, True]))
    check(o[0] == "exc" and own_flags(w) == before, "mismatching flag lists must raise and change nothing")


def c_mergeflags(g):
    """operations with plain values set no flag on any node"""
    d = {"a": g.dict(2, leaf=g.simple), "l": g.list(2, leaf=g.simple), "v": 1}
    cfg = OmegaConf.create(d, flags={"allow_objects": True} if g.p(0.8) else {})
    if g.p(0.3):
        g.pick([cfg.a, cfg.l, cfg])._set_flag(g.pick(["struct", "readonly", "allow_objects"]), g.pick([False, True]))
    before = {id(n): dict(n._metadata.flags) for n in nodes(cfg)}
    keep = list(nodes(cfg))
    t = g.pick([cfg.a, cfg.l, cfg])
    v = {"a": {"zz": g.simple()}, "n": [g.simple()]} if isinstance(t, DictConfig) else g.list(2, leaf=g.simple)
    f = [lambda: t.merge_with(v)]
    if isinstance(t, DictConfig):
        f += [lambda: t.update(v), lambda: t.__setitem__("n", [1]), lambda: OmegaConf.update(t, "n", {"q": 1}), lambda: t.setdefault("k", {"x": 1})]
    else:
        f += [lambda: t.append(v), lambda: t.extend(v), lambda: t.insert(0, {"a": 1})]
    i = g.r.randrange(len(f))
    g.log.append("%r flags %s: op %d on %r with %r" % (d, cfg._metadata.flags, i, t, v))
    o = outcome(f[i])
    for n in keep:
        check(dict(n._metadata.flags) == before[id(n)], "own flags of %r changed from %s to %s (%s)", n._key(), before[id(n)], n._metadata.flags, okind(o))


CASES = [("mergeflags", 1500, c_mergeflags), ("hist", 3000, c_hist), ("scope", 2500, c_scope), ("gen", 300, c_gen)]
