"""C06: the nearest setting of a flag wins, the cache is never observable, scoped overrides restore the own settings

The flag cache of a node n is coherent for the flag F when a cached value is the node's own setting if there is one, else None at a
flags root or a node without parent, else the value cached for F at its parent.  Every unit shows that coherence of every live node
(one without parent, or held by its parent under its key) survives; the lemma unit is the induction step from coherence to
"the cached value is the effective value"."""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.execu import CMV
from pyvc.oc import Contract, Combine
from . import heap
from .pure import sym_args

EFF = z3.Function("EFFECTIVE", I, z3.StringSort(), Val)  # the effective value of a flag in the current tree (the cache is not part of it)


class Dummy:
    pass


def setup(E):
    """a skolem flag F and a skolem old node n"""
    heap.install(E)
    E.sk = Dummy()
    if not getattr(E, "_cache_owner", False):
        E._cache_owner = True
        OWNK = z3.Function("OWNER_CACHE", I, I)
        E.base_read_hooks.setdefault("_flags_cache", []).append(
            lambda E, a, v: E.fact(Implies(is_tag(v, "vref"), OWNK(ref_of(v)) == a[0])))

        def on_write(r, name, v):
            if name == "_flags_cache" and tag_of(E.term(v)) == "vref":
                E.fact(OWNK(ref_of(E.term(v))) == r)
        E.on_write = on_write
    heap.frame_begin(E)
    s = E.sk
    s.F = E.fresh("F", S)
    s.k = Val.vstr(s.F)
    s.nv = E.node("n")
    s.n = ref_of(s.nv)


def cached(E, n):
    v = E.getf(n, "_flags_cache")
    d = E.dict_body(ref_of(v))
    return And(is_tag(v, "vref"), d.has(E.sk.k)), d.get(E.sk.k)


def own(E, n, k=None):
    d = E.dict_body(ref_of(E.getf(E.meta(n), "flags")))
    k = E.sk.k if k is None else k
    return If(d.has(k), d.get(k), NONE)


def root(E, n):
    return acc(E.getf(E.meta(n), "flags_root"), "vbool")


def parent(E, n):
    return E.getf(n, "_parent")


def held(E, n, pos=None):
    """the parent of n holds n under its key (pos: also at this position of the iteration over its content)"""
    m = E.m
    p = ref_of(parent(E, n))
    c = E.cls_term(p)
    cv = E.getf(p, "_content")
    cr = ref_of(cv)
    key = E.nkey(E.getf(E.meta(n), "key"))
    db, lb = E.dict_body(cr), E.list_body(cr)
    j = acc(key, "vint")
    gd = And(is_tag(cv, "vref"), db.has(key), E.term(db.get(key)) == vref(n))
    gl = And(is_tag(cv, "vref"), is_tag(key, "vint"), j >= 0, j < lb.n, E.term(lb.get(E, j)) == vref(n))
    if pos is not None:
        gd = And(gd, pos >= 0, pos < db.n, db.keyat(pos) == key)
        gl = And(gl, pos == j)
    gu = cv == vref(n)
    isref = is_tag(parent(E, n), "vref")
    return And(isref, Or(And(c == E.cid(m.dictconfig.DictConfig), gd), And(c == E.cid(m.listconfig.ListConfig), gl), And(c == E.cid(m.base.UnionNode), gu)))


def live(E, n):
    return Or(is_tag(parent(E, n), "vnone"), held(E, n))


def inherited(E, n):
    """n has a cached value for F that comes from its parent"""
    h, v = cached(E, n)
    return And(h, is_tag(own(E, n), "vnone"), Not(root(E, n)), is_tag(parent(E, n), "vref"))


def coherent(E, n):
    h, v = cached(E, n)
    o = own(E, n)
    p = ref_of(parent(E, n))
    hp, vp = cached(E, p)
    return Implies(h, If(Not(is_tag(o, "vnone")), v == o, If(Or(root(E, n), is_tag(parent(E, n), "vnone")), is_tag(v, "vnone"), And(hp, v == vp))))


def backed(E, n):
    """an inherited value cached at n is cached at its parent"""
    return Implies(inherited(E, n), cached(E, ref_of(parent(E, n)))[0])


class Invalidate(Contract):
    """_invalidate_flags_cache(self): caches only change to None; self's does; and no child of a node whose cache changed (or of self)
    keeps an inherited value (provided that before the call only cached values of the parent were inherited)"""
    can_raise = False

    def modifies(self, E, A):
        CH = z3.Function("INVAL_%d" % E.fresh("tick", "tick"), I, B)
        return {"_flags_cache": Combine(lambda E, r, new, old: If(CH(r), NONE, old))}

    def result(self, E, A):
        return NONE

    def ensures(self, E, A, old, res):
        s = ref_of(E.term(A["self"]))
        n = E.sk.n
        p = ref_of(parent(E, n))
        with E.at(old):
            was, bk, lv, c0, p0 = inherited(E, n), backed(E, n), live(E, n), E.getf(n, "_flags_cache"), E.getf(p, "_flags_cache")
        c1, p1 = E.getf(n, "_flags_cache"), E.getf(p, "_flags_cache")
        return [("the cache of the node is empty", is_tag(E.getf(s, "_flags_cache"), "vnone")),
                ("caches change only to empty", Or(c1 == c0, is_tag(c1, "vnone"))),
                ("no child keeps an inherited value", Implies(And(bk, lv, is_tag(parent(E, n), "vref"), Or(p == s, p1 != p0)), Not(inherited(E, n))))]


def invalidate_fns(E):
    m = E.m
    out = []
    for c in (m.base.Node, m.base.Container, m.base.UnionNode):
        f = c.__dict__.get("_invalidate_flags_cache")
        if f is not None:
            out.append(f)
    return out


def install_invalidate(E):
    for f in invalidate_fns(E):
        E.contracts[f] = Invalidate(f)


def cls_of_unit(E):
    m = E.m
    return [m.dictconfig.DictConfig, m.listconfig.ListConfig, m.base.UnionNode, m.nodes.AnyNode]


def u_invalidate(E, cls):
    f = cls._invalidate_flags_cache

    def body(rep):
        setup(E)
        s, r, mr = heap.node_at(E, "self", cls)
        install_invalidate(E)
        n = E.sk.n
        p = ref_of(parent(E, n))
        c = Invalidate(f)
        old = E.st.copy()
        pos = E.fresh("pos", I)
        # n stands at some position of the iteration over its parent's content
        E.fact(Implies(held(E, n), held(E, n, pos)))
        with E.at(old):
            was, bk, lv, c0, p0 = inherited(E, n), backed(E, n), live(E, n), E.getf(n, "_flags_cache"), E.getf(p, "_flags_cache")
            hn = held(E, n)

        def inv(E, env, st, i):
            c1, p1 = E.getf(n, "_flags_cache"), E.getf(p, "_flags_cache")
            yield ("caches only to None", And(Or(c1 == c0, is_tag(c1, "vnone")), Or(p1 == p0, is_tag(p1, "vnone"))))
            yield ("self is empty", is_tag(E.getf(r, "_flags_cache"), "vnone"))
            yield ("children of touched nodes", Implies(And(bk, lv, p != r, is_tag(parent(E, n), "vref"), p1 != p0), Not(inherited(E, n))))
            if i is not None:
                yield ("visited children", Implies(And(hn, p == r, pos < i), is_tag(c1, "vnone")))
        E.inv_cands = E.inv_cands + [inv]
        A = {"self": s}
        try:
            E.run_fn(f, [s])
        except PyRaise:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        E.prove_all(c.ensures(E, A, old, NONE) + E.frame_goals(old, {}, "only caches change"))
    return body


class GetFlagC(Contract):
    """Node._get_flag(flag): the effective value, which is cached at the node afterwards; caches only gain effective values and stay
    coherent; nothing else changes"""
    creates = True
    can_raise = False

    def modifies(self, E, A):
        return {"_flags_cache": Combine(lambda E, r, new, old: If(is_tag(old, "vnone"), new, old)),
                "DICT": lambda q: And(heap.ROLE(q) == 4)}

    def result(self, E, A):
        return EFF(ref_of(E.term(A["self"])), acc(E.term(A["flag"]), "vstr"))

    def ensures(self, E, A, old, res):
        s = ref_of(E.term(A["self"]))
        k = E.term(A["flag"])
        n = E.sk.n
        res = E.term(res)
        h, v = cached(E, s)
        out = [("the value is the effective one", res == EFF(s, acc(k, "vstr"))), ("it is cached", Implies(k == E.sk.k, And(h, v == res)))]
        # for all nodes; used by the callers at these
        for nm, q in [("", n), (" (self)", s)] + ([(" (caller)", E.sk.caller)] if self.applying else []):
            with E.at(old):
                co, vo = good(E, q)
            c1, v1 = good(E, q)
            out.append(("caches stay coherent" + nm, Implies(And(co, vo), And(c1, v1))))
        return out

    applying = True


def good(E, n):
    """coherent, and what is cached is the effective value (at n and at its parent)"""
    h, v = cached(E, n)
    p = ref_of(parent(E, n))
    hp, vp = cached(E, p)
    return coherent(E, n), And(Implies(h, v == EFF(n, E.sk.F)), Implies(And(is_tag(parent(E, n), "vref"), hp), vp == EFF(p, E.sk.F)))


def unfold(E, n, F):
    """definition of the effective value"""
    o = own(E, n, Val.vstr(F))
    pv = parent(E, n)
    E.fact(EFF(n, F) == If(Not(is_tag(o, "vnone")), o, If(Or(root(E, n), is_tag(pv, "vnone")), NONE, EFF(ref_of(pv), F))))
    E.fact(Or(is_tag(EFF(n, F), "vnone"), is_tag(EFF(n, F), "vbool")))


def u_get_flag(E, cls, nocache):
    f = cls._get_flag_no_cache if nocache else cls._get_flag

    def body(rep):
        setup(E)
        s, r, mr = heap.node_at(E, "self", cls)
        m = E.m
        c = GetFlagC(m.base.Node._get_flag)
        E.contracts.pop(m.base.Node._get_flag, None)
        flag = E.str("flag")
        n = E.sk.n
        # every node met on the way is coherent: assumed at self, at n and at their parents
        same = E.decide(acc(flag, "vstr") == E.sk.F)
        pr = ref_of(parent(E, r))
        for q in (r, n, pr):
            unfold(E, q, E.sk.F)
            co, vo = good(E, q)
            g = TRUE if q is not pr else is_tag(parent(E, r), "vref")
            E.assume(Implies(g, co))
            E.assume(Implies(g, vo))
        unfold(E, r, acc(flag, "vstr"))
        ch = E.getf(r, "_flags_cache")
        if not same:
            # a cached value of the flag asked for is the effective one
            d = E.dict_body(ref_of(ch))
            E.assume(Implies(And(is_tag(ch, "vref"), d.has(flag)), d.get(flag) == EFF(r, acc(flag, "vstr"))))
        E.contracts[m.base.Node._get_flag] = c
        A = {"self": s, "flag": flag}
        E.sk.caller = r
        old = E.st.copy()
        try:
            res = E.run_fn(f, [s, flag])
        except PyRaise:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        c.applying = False
        gs = c.ensures(E, A, old, res)
        if nocache:
            gs = [g for g in gs if g[0] != "it is cached"]
        E.prove_all(gs + E.frame_goals(old, {"DICT": lambda q: heap.ROLE(q) == 4}, "nothing but caches changes"))
    return body


def u_lemma(E):
    def body(rep):
        setup(E)
        n = E.sk.n
        unfold(E, n, E.sk.F)
        p = ref_of(parent(E, n))
        hp, vp = cached(E, p)
        E.assume(live(E, n))
        E.assume(coherent(E, n))
        E.assume(Implies(And(is_tag(parent(E, n), "vref"), hp), vp == EFF(p, E.sk.F)))
        h, v = cached(E, n)
        rep.exits[0] += 1
        E.prove("induction step: a coherent cached value is the effective one if the parent's is", Implies(h, v == EFF(n, E.sk.F)))
    return body


def names_arg(E):
    """a list of flag names (strings) and LAST, the last index of F in it (-1 when F does not occur)"""
    lv = E.obj("names", list)
    E.fact(E.basefn("KIND", I, I)(ref_of(lv)) == 4)
    E.fact(heap.ROLE(ref_of(lv)) == 0)
    b = E.list_body(ref_of(lv))
    last = E.fresh("LAST", I)
    E.assume(And(last >= -1, last < b.n))
    E.assume(Implies(last >= 0, E.term(b.get(E, last)) == E.sk.k))
    fn = lambda i: E.term(b.get(E, i))
    E.sk.last = last
    E.sk.nameat = fn
    E.sk.nn = b.n
    return lv


def last_fact(E, i):
    """instance of the definition of LAST at index i, and of: names are strings"""
    x = E.sk.nameat(i)
    inr = And(i >= 0, i < E.sk.nn)
    E.fact(Implies(inr, is_tag(x, "vstr")))
    E.fact(Implies(And(inr, x == E.sk.k), i <= E.sk.last))


def values_arg(E):
    """None, a bool, or a list of these"""
    j = E.choose([E.fresh("vk", I) == 0, TRUE, TRUE])
    if j == 0:
        return NONE
    if j == 1:
        return E.bool("value")
    lv = E.obj("values", list)
    E.fact(E.basefn("KIND", I, I)(ref_of(lv)) == 4)
    E.fact(heap.ROLE(ref_of(lv)) == 0)
    return lv


def opt_bool(E, v):
    return Or(is_tag(v, "vnone"), is_tag(v, "vbool"))


def set_flag_inv(E, r, get0):
    """loop invariant of _set_flag: the own setting of F is the value given with its last occurrence so far"""
    n = E.sk.n
    hn = held(E, n)
    on, ok, cn, cp, cr = own(E, n), own(E, r), cached(E, n), cached(E, ref_of(parent(E, n))), cached(E, r)

    def inv(E, env, st, i):
        yield ("held", held(E, n) == hn)
        yield ("own flags of the other node", Implies(n != r, own(E, n) == on))
        for nm, a, b in (("n", cn, cached(E, n)), ("parent", cp, cached(E, ref_of(parent(E, n)))), ("self", cr, cached(E, r))):
            yield ("cache of " + nm, And(a[0] == b[0], Implies(a[0], a[1] == b[1])))
        if i is None or "values" not in env.vars or "flags" not in env.vars:
            return
        last_fact(E, i)
        last_fact(E, i - 1)
        vb = E.list_body(ref_of(E.term(env.vars["values"])))
        o = own(E, r)
        yield ("flag set", Implies(And(E.sk.last >= 0, E.sk.last < i), o == E.term(vb.get(E, E.sk.last))))
        yield ("flag not set", Implies(Or(E.sk.last < 0), o == get0))
    return inv


def args_set_flag(E, one):
    if one:
        nm = E.str("name")
        E.sk.last = If(acc(nm, "vstr") == E.sk.F, z3.IntVal(0), z3.IntVal(-1))
        E.sk.nn = z3.IntVal(1)
        E.sk.nameat = lambda i: nm
        E.assume(E.sk.last >= -1)
        return nm
    return names_arg(E)


def value_of(E, values):
    """the value meant for F"""
    t = E.term(values)
    if tag_of(t) != "vref":
        return t
    b = E.list_body(ref_of(t))
    return If(b.n == 1, E.term(b.get(E, z3.IntVal(0))), E.term(b.get(E, E.sk.last)))


def u_set_flag(E, cls, one):
    f = cls._set_flag

    def body(rep):
        setup(E)
        s, r, mr = heap.node_at(E, "self", cls)
        install_invalidate(E)
        n = E.sk.n
        flags, values = args_set_flag(E, one), values_arg(E)
        want = value_of(E, values)
        E.assume(opt_bool(E, want))
        for q in (n, r):
            E.assume(Implies(live(E, q), coherent(E, q)))
        get0 = own(E, r)
        old = E.st.copy()
        fl = E.getf(mr, "flags")
        E.fmods = {"DICT": lambda q: q == ref_of(fl)}
        E.inv_cands = E.inv_cands + [set_flag_inv(E, r, get0)]
        E.assumptions.add("flag values given to the flag functions are None or booleans, flag names strings")
        try:
            E.run_fn(f, [s, flags, values])
        except PyRaise as p:
            rep.exits[1] += 1
            E.prove("raises only ValueError", E.isa_cls(E.cls_term(p.ref), ValueError))
            E.prove_all(E.frame_goals(old, {}, "nothing changes when it raises") + [("the cache stays coherent", Implies(live(E, n), coherent(E, n)))])
            return
        rep.exits[0] += 1
        gs = [("the cache stays coherent", Implies(live(E, n), coherent(E, n))),
              ("the flag is set", Implies(E.sk.last >= 0, own(E, r) == want)),
              ("other flags are not", Implies(E.sk.last < 0, own(E, r) == get0))]
        E.prove_all(gs + E.frame_goals(old, {"DICT": lambda q: q == ref_of(fl)}, "only the own flags change"))
    return body


def u_simple(E, fn, args, mods, cls=None):
    """_set_parent, _set_flags_root: the cache stays coherent"""
    def body(rep):
        setup(E)
        s, r, mr = heap.node_at(E, "self", cls)
        install_invalidate(E)
        n = E.sk.n
        for q in (n, r):
            E.assume(Implies(live(E, q), coherent(E, q)))
        # C07: n is held by no other node than its parent
        a = args(E)
        old = E.st.copy()
        try:
            E.run_fn(fn, [s] + a)
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes when it raises") + [("the cache stays coherent", Implies(live(E, n), coherent(E, n)))])
            return
        rep.exits[0] += 1
        E.prove_all([("the cache stays coherent", Implies(live(E, n), coherent(E, n)))] + E.frame_goals(old, mods(r, mr), "frame"))
    return body


class SetFlagC(Contract):
    """Node._set_flag: contract proved by the units above, at the skolem flag and node"""
    creates = True

    def modifies(self, E, A):
        s = ref_of(E.term(A["self"]))
        fl = ref_of(E.getf(E.meta(s), "flags"))
        CH = z3.Function("INVAL_%d" % E.fresh("tick", "tick"), I, B)
        return {"_flags_cache": Combine(lambda E, r, new, old: If(CH(r), NONE, old)), "DICT": lambda q: q == fl}

    def modifies_exc(self, E, A):
        return {}

    def result(self, E, A):
        return E.term(A["self"])

    def ensures(self, E, A, old, res):
        s, n = ref_of(E.term(A["self"])), E.sk.n
        with E.at(old):
            co, cs, o0 = Implies(live(E, n), coherent(E, n)), Implies(live(E, s), coherent(E, s)), own(E, s)
        out = [("coherent", Implies(And(co, cs), Implies(live(E, n), coherent(E, n)))), ("coherent at self", Implies(cs, Implies(live(E, s), coherent(E, s))))]
        out.append(("the flag is set", Implies(E.sk.last >= 0, own(E, s) == self.want(E, A, old))))
        out.append(("other flags are not", Implies(E.sk.last < 0, own(E, s) == o0)))
        return out

    def want(self, E, A, old):
        with E.at(old):
            return value_of(E, A["values"])

    def raises(self, E, A, old, exc):
        return [("ValueError", E.isa_cls(E.cls_term(exc), ValueError))]

    def may_raise(self, E, A, old):
        """only for inconsistent lengths"""
        v, f = E.term(A["values"]), E.norm(A["flags"])
        if tag_of(v) != "vref":
            return FALSE
        b = E.list_body(ref_of(v))
        nf = E.list_body(ref_of(E.term(f))).n if tag_of(E.term(f)) == "vref" else z3.IntVal(1)
        return And(b.n != 1, b.n != nf)


def havoc_world(E):
    """an arbitrary with-body: anything reachable may change; objects local to the suspended generator do not"""
    tick = E.fresh("tick", "tick")
    hi = E.fresh("hi", I)
    E.fact(hi >= E.st.hi)
    E.st.hi = hi
    for name in ("_metadata", "_parent", "_content", "_val", "_flags_cache", "flags", "flags_root", "key", "optional", "ref_type", "object_type",
                 "LIST", "DICT"):
        E.wrote(name)
        rd = E.base_reader(name, "%s_w%d" % (name, tick), hi)
        E.st.f[name] = HavocM(E.field(name), lambda q: q >= 0, rd)


def u_override(E, fn, kind, cls, one=True):
    """flag_override / read_write / open_dict: whatever the body does and however it ends, the own settings of the flags named are the
    previous ones afterwards, and the caches are coherent"""
    def body(rep):
        setup(E)
        s, r, mr = heap.node_at(E, "config", cls)
        n = E.sk.n
        E.contracts[E.m.base.Node._set_flag] = SetFlagC(E.m.base.Node._set_flag)
        if kind == "names":
            flags, values = args_set_flag(E, one), values_arg(E)
            args = [s, flags, values]
        else:
            E.sk.last = If(E.sk.F == strlit(kind), z3.IntVal(0), z3.IntVal(-1))
            E.sk.nn = z3.IntVal(1)
            args = [s]
        for q in (n, r):
            E.assume(Implies(live(E, q), coherent(E, q)))
        o0 = own(E, r)
        E.assumptions.add("a with-body of a scoped override may change anything but the local variables of the suspended generator; what it does keeps the caches coherent")

        def wbody(v):
            E.prove("the caches are coherent in the body", Implies(live(E, n), coherent(E, n)))
            if kind != "names":
                E.prove("the flag is off in the body", Implies(E.sk.last >= 0, own(E, r) == vbool(False)))
            if kind == "names":
                E.prove("the flag has the value asked for in the body", Implies(E.sk.last >= 0, own(E, r) == value_of(E, values)))
            lists = [E.term(x) for x in args[1:]] if kind == "names" else []
            keep = [(ref_of(x), E.list_body(ref_of(x))) for x in lists if tag_of(x) == "vref"]
            havoc_world(E)
            # the lists of names and values given by the caller stay as they are
            for q, b in keep:
                E.st.f["LIST"] = StoreM(E.field("LIST"), q, b)
            for q in (n, r):
                E.assume(Implies(live(E, q), coherent(E, q)))
            if E.decide(E.fresh("body_raises", B)):
                x = E.alloc(Exception)
                c = E.fresh("exccls", I)
                E.st.f["cls"] = StoreM(E.st.f["cls"], x, c)
                E.fact(E.isa_cls(c, BaseException))
                raise PyRaise(x)
        f = E.host_fn(fn)
        try:
            E.run_cm(CMV(f, args, {}), wbody)
            rep.exits[0] += 1
        except PyRaise:
            rep.exits[1] += 1
        E.prove("the own settings of the flags are restored", Implies(E.sk.last >= 0, own(E, r) == o0))
        E.prove("the caches are coherent afterwards", Implies(live(E, n), coherent(E, n)))
    return body


def units(E):
    m = E.m
    out = [("lemma: coherent caches hold effective values", u_lemma(E))]
    for c in cls_of_unit(E):
        out.append(("_invalidate_flags_cache[%s]" % c.__name__, u_invalidate(E, c)))
        out.append(("_get_flag[%s]" % c.__name__, u_get_flag(E, c, False)))
        out.append(("_get_flag_no_cache[%s]" % c.__name__, u_get_flag(E, c, True)))
        out.append(("_set_flag[%s; one name]" % c.__name__, u_set_flag(E, c, True)))
        out.append(("_set_flag[%s; a list of names]" % c.__name__, u_set_flag(E, c, False)))
        out.append(("_set_flags_root[%s]" % c.__name__, u_simple(E, m.base.Node._set_flags_root, lambda E: [E.bool("v")], lambda r, mr: {"flags_root": lambda q: q == mr}, c)))
        out.append(("_set_parent[%s]" % c.__name__, u_simple(E, m.base.Node._set_parent, lambda E: [E.any("p")], lambda r, mr: {"_parent": lambda q: q == r}, c)))
    for c in (m.dictconfig.DictConfig, m.listconfig.ListConfig, m.nodes.AnyNode):
        out.append(("flag_override[%s; one name]" % c.__name__, u_override(E, m.oc.flag_override, "names", c)))
        out.append(("flag_override[%s; a list of names]" % c.__name__, u_override(E, m.oc.flag_override, "names", c, False)))
        out.append(("read_write[%s]" % c.__name__, u_override(E, m.oc.read_write, "readonly", c)))
        out.append(("open_dict[%s]" % c.__name__, u_override(E, m.oc.open_dict, "struct", c)))
    return out
