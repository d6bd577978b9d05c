"""functional units of the operations of mapping configs: what they return, and exactly which keys they add or remove (C02, C19)"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import access, get, heap
from .common import *
from .contracts import *
from .get import content_is_dict, good_key_type, inner, interp, missing, norm, nrm, own_flag, plain, raw, rawfn, struct, typed
from .mut import SetItem, install_mut, content_ref, not_a_node, true_flag
from .pure import sym_args


class SetItemS(SetItem):
    """_set_item_impl; in struct mode it returns only for keys that are there"""

    def requires(self, E, A):
        s = ref_of(A["self"])
        if self.islist(E, s):
            return super().requires(E, A)
        n, ok = norm(E, s, A["key"])
        return [("the key is normalised", And(ok, n == E.term(A["key"])))]

    def may_return(self, E, A, old):
        mr = super().may_return(E, A, old)
        s = ref_of(A["self"])
        if self.islist(E, s):
            return mr
        return And(mr, Implies(struct(E, s), E.dict_body(content_ref(E, s)).has(E.nkey(A["key"]))))


def install_ops(E, skip=()):
    m = E.m
    DC, BC = m.dictconfig.DictConfig, m.basecontainer.BaseContainer
    install_reads(E)
    install_makers(E)
    install_mut(E)
    get.install_get(E)
    access.install_access(E)
    del E.contracts[m.oc._select_one]
    f = rawfn(BC._set_item_impl)
    E.contracts[f] = E.all_mut[f] = SetItemS(BC._set_item_impl)
    for n, (fn, kw) in table(E).items():
        if n in ("_select_one", "Container._select_impl"):
            E.contracts[rawfn(fn)] = Reads(rawfn(fn), **kw)
    f = rawfn(BC._get_full_key)
    E.contracts[f] = Reads(f, ret="str", can_raise=False)
    E.assumptions.add("_get_full_key does not raise (the parents of a node form no cycle; used for the class of an error only)")
    for f in skip:
        E.contracts.pop(rawfn(f), None)
    if not getattr(E, "_key_facts", False):
        E._key_facts = True
        E.assumptions.add("every key of a mapping is of its key type (kept by item assignment: C04)")

        def on_key(E, a, k):
            d, i, n = a
            o = heap.OWNC(d)
            kt = E.base_map("key_type").read(E, ref_of(E.base_map("_metadata").read(E, o)))
            nn, ok = nrm(E, kt, k)
            E.fact(Implies(And(d < E.A0, heap.ROLE(d) == 1, i >= 0, i < n), And(ok, E.nkey(nn) == k, good_key_type(E, kt))))
        E.base_read_hooks.setdefault("DICTKEY0", []).append(on_key)
    E.wf_pre = True


def op_unit(E, fn, selfcls, goal, over=None, pre=None):
    """run an operation on a mapping whose content is a dict; goal(E, old, s, A, how, res or exc)"""
    f = rawfn(fn)

    def body(rep):
        install_ops(E, skip=(f,))
        args, A = sym_args(E, fn, selfcls, over)
        s = ref_of(A["self"])
        heap.frame_begin(E)
        E.assumptions.add("the internal flag no_deepcopy_set_nodes is not set (only OmegaConf.unsafe_merge sets it)")
        nd = eff(E, s, "no_deepcopy_set_nodes")
        E.assume(Not(And(is_tag(nd, "vbool"), acc(nd, "vbool"))))
        E.assume(content_is_dict(E, s))
        E.assume(good_key_type(E, E.getf(E.meta(s), "key_type")))
        for n in ("key",):
            if n in A and not (over and n in over):
                E.assume(Not(E.isnode(E.term(A[n]))))
        c = E.all_mut.get(f)
        if c is not None:
            for nm, g in c.requires(E, A):
                E.assume(g)
        if pre:
            pre(E, A, s)
        old = E.st.copy()
        try:
            res = E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            goal(E, old, s, A, "raise", p.ref)
            return
        rep.exits[0] += 1
        goal(E, old, s, A, "return", res)
    return body


def bodies(E, old, s):
    with E.at(old):
        c = content_ref(E, s)
        b0 = E.dict_body(c)
    return b0, E.dict_body(content_ref(E, s))


def same(E, old, s):
    """content, keys, order and children as before"""
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    with E.at(old):
        c0 = E.getf(s, "_content")
    return [("the same content", E.getf(s, "_content") == c0), ("the same keys", And(b.n == b0.n, b.has(k) == b0.has(k))),
            ("the same children", Implies(b.has(k), E.term(b.get(k)) == E.term(b0.get(k)))),
            ("the same order", Implies(And(i >= 0, i < b.n), b.keyat(i) == b0.keyat(i)))]


def added(E, old, s, nk):
    """the entry at nk is there; every other entry is as before; a new key comes last"""
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    had = b0.has(nk)
    with E.at(old):
        c0 = E.getf(s, "_content")
    return [("the same content", E.getf(s, "_content") == c0), ("the key is there", b.has(nk)), ("no other key", b.has(k) == Or(b0.has(k), k == nk)), ("one more entry for a new key", b.n == b0.n + If(had, z3.IntVal(0), z3.IntVal(1))),
            ("the same other children", Implies(And(b0.has(k), k != nk), E.term(b.get(k)) == E.term(b0.get(k)))),
            ("the same order", Implies(And(i >= 0, i < b0.n), b.keyat(i) == b0.keyat(i))), ("a new key comes last", Implies(Not(had), b.keyat(b0.n) == nk))]


def removed(E, old, s, nk):
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    with E.at(old):
        c0 = E.getf(s, "_content")
    return [("the same content", E.getf(s, "_content") == c0), ("the key was there", b0.has(nk)), ("it is gone and no other key", b.has(k) == And(b0.has(k), k != nk)), ("one entry less", b.n == b0.n - 1),
            ("the same other children", Implies(b.has(k), E.term(b.get(k)) == E.term(b0.get(k)))),
            ("the same order of the others", Implies(And(i >= 0, i < b.n), And(Or(b.keyat(i) == b0.keyat(i), b.keyat(i) == b0.keyat(i + 1)),
                                                     Implies(And(i > 0, b.keyat(i) == b0.keyat(i), b.keyat(i) != b0.keyat(i + 1), b.keyat(i - 1) != b0.keyat(i - 1)), FALSE))))]


def closed_(E, s):
    """deletion is not allowed: read-only, struct, or a structured config whose own flag is not cleared"""
    return Or(true_flag(E, s, "readonly"), true_flag(E, s, "struct"), And(typed(E, s), own_flag(E, s, "struct") != vbool(False)))


def at_old(E, old, s, key, kind="item"):
    """the parts of reading key before the call"""
    with E.at(old):
        ac = access.Access(None, kind)
        return ac.parts(E, {"self": vref(s), "key": key, "default_value": K(E.m.basecontainer._DEFAULT_MARKER_), "validate_key": vbool(True)})


def setitem_goal(kind):
    def goal(E, old, s, A, how, res):
        with E.at(old):
            n, ok = norm(E, s, A["key"])
            nk = E.nkey(n)
            st = struct(E, s)
            had = E.dict_body(content_ref(E, s)).has(nk)
            ro = true_flag(E, s, "readonly")
        if how == "return":
            E.prove_all(added(E, old, s, nk) + [("the key is of the key type", ok), ("in struct mode only for a key that is there", Implies(st, had)), ("not read-only", Not(ro))])
        else:
            c = E.cls_term(res)
            er = E.m.errors
            E.prove_all(same(E, old, s) + [("a key validation error for a key of another type", Implies(Not(ok), E.isa_cls(c, er.KeyValidationError)))])
    return goal


def delitem_goal(E, old, s, A, how, res):
    p = at_old(E, old, s, A["key"])
    with E.at(old):
        n, ok = norm(E, s, A["key"])
        nk = E.nkey(n)
        cl = closed_(E, s)
    if how == "return":
        E.prove_all(removed(E, old, s, nk) + [("the key is of the key type", ok), ("allowed", Not(cl))])
    else:
        c = E.cls_term(res)
        E.prove_all(same(E, old, s) + [("raises only for an absent or invalid key, or when not allowed", Or(Not(ok), Not(p["has"]), cl)),
                                       ("a key error for an absent key", Implies(And(ok, Not(cl)), E.isa_cls(c, E.m.errors.ConfigKeyError)))])


def pop_goal(E, old, s, A, how, res):
    p = at_old(E, old, s, A["key"])
    with E.at(old):
        n, ok = norm(E, s, A["key"])
        nk = E.nkey(n)
        cl = closed_(E, s)
        pv = plain(E, p["v"])
    d = E.norm(A["default"])
    nodef = E.ident(d, K(E.m.basecontainer._DEFAULT_MARKER_))
    if how == "return":
        r = E.term(res)
        g = [("the key is of the key type", ok), ("allowed", Not(cl)), ("the value", Implies(p["val"], r == pv)), ("the default for an absent key or a missing value", Implies(Or(Not(p["has"]), p["ms"]), And(Not(nodef), r == E.term(d))))]
        if E.choose([p["has"], Not(p["has"])]) == 0:
            g += removed(E, old, s, nk)
        else:
            g += same(E, old, s)
        E.prove_all(g)
    else:
        c = E.cls_term(res)
        E.prove_all(same(E, old, s) + [("raises only for an absent or invalid key, a missing value, a broken interpolation or when not allowed",
                                        Or(Not(ok), And(Or(Not(p["has"]), p["ms"]), nodef), p["it"], cl)),
                                       ("a key error for an absent key", Implies(And(ok, Not(p["has"]), Not(cl)), E.isa_cls(c, E.m.errors.ConfigKeyError)))])


def popitem_goal(E, old, s, A, how, res):
    with E.at(old):
        b0 = E.dict_body(content_ref(E, s))
        cl = closed_(E, s)
    if how == "return":
        kk, v = [E.term(x) for x in E.unroll(res)]
        with E.at(old):
            nk = E.nkey(kk)
            ch = E.term(b0.get(nk))
            x = raw(E, ref_of(inner(E, ch)))
            pv = plain(E, ch)
        E.prove_all(removed(E, old, s, nk) + [("not empty", b0.n > 0), ("allowed", Not(cl)), ("the value of the key", Implies(Not(interp(E, x)), v == pv))])
    else:
        E.prove_all(same(E, old, s) + [("a key error for an empty mapping", Implies(b0.n == 0, E.isa_cls(E.cls_term(res), KeyError)))])


def setdefault_goal(E, old, s, A, how, res):
    p = at_old(E, old, s, A["key"])
    with E.at(old):
        n, ok = norm(E, s, A["key"])
        nk = E.nkey(n)
        st = struct(E, s)
        pv = plain(E, p["v"])
    if how == "return":
        r = E.term(res)
        isin = Or(p["val"], p["it"])
        g = [("the value of a key that is there", Implies(p["val"], r == pv)), ("the default otherwise", Implies(Not(isin), r == E.term(A["default"]))), ("in struct mode only for a key that is there", Implies(st, p["has"]))]
        if E.choose([isin, Not(isin)]) == 0:
            g += same(E, old, s)
        else:
            g += added(E, old, s, nk)
        E.prove_all(g)
    else:
        E.prove_all(same(E, old, s))


def clear_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all([("empty", b.n == 0), ("allowed, unless it was empty", Or(b0.n == 0, Not(closed(E, old, s))))])


def closed(E, old, s):
    with E.at(old):
        return closed_(E, s)


def len_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all([("the number of keys", E.term(res) == Val.vint(b0.n))] + same(E, old, s))
    else:
        E.prove("does not raise", FALSE)


def units19(E):
    DC = E.m.dictconfig.DictConfig
    t = {"__setitem__": setitem_goal("item"), "__setattr__": setitem_goal("attr"), "__delitem__": delitem_goal, "pop": pop_goal, "popitem": popitem_goal, "setdefault": setdefault_goal,
         "__len__": len_goal}
    return [("DictConfig.%s: effect" % n, op_unit(E, getattr(DC, n), DC, g)) for n, g in t.items()]


units = units19
