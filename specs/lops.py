"""functional units of the operations of list configs: what they return, and exactly which elements they add, remove or move (C15)"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import access, get, heap
from .common import *
from .contracts import *
from .get import content_is_dict as content_is_list, inner, interp, missing, plain, raw, rawfn
from .mut import Append, content_ref, not_a_node, true_flag
from .ops import closed_, install_ops
from .pure import sym_args

EQV = z3.Function("EQV", Val, Val, B)    # a == b, of the heap at entry


def eqv(E, a, b, unwrap=False):
    E.assumptions.add("== of two values is a symmetric function of them that raises nothing and has no effect (decided by C18 for configs)")
    a, b = E.term(E.norm(a)), E.term(E.norm(b))
    if unwrap:
        E.assumptions.add("a node is equal to what its value is equal to (C18)")
        with E.at(E.entry_old):
            a, b = [If(E.isnode(v), plain(E, v), v) for v in (a, b)]
    E.fact(And(EQV(a, b) == EQV(b, a)))
    E.fact(Implies(And(is_tag(a, "vnone"), is_tag(b, "vnone")), EQV(a, b)))
    return EQV(a, b)


def int_const(E, v):
    """an integer literal of the code"""
    return E.is_const(v) and type(E.const(v)) is int


def lop_unit(E, fn, goal, over=None, pre=None, inv=None, eq=False, skip=(), all_plain=False, no_hit=None):
    """run an operation on a list config that holds a list; goal(E, old, s, A, how, res or exc)"""
    f = rawfn(fn)
    LC = E.m.listconfig.ListConfig

    def body(rep):
        install_ops(E, skip=(f,) + skip)
        args, A = sym_args(E, fn, LC, over)
        s = ref_of(A["self"])
        heap.frame_begin(E)
        E.assumptions.add("the internal flag no_deepcopy_set_nodes is not set (only OmegaConf.unsafe_merge sets it)")
        nd = eff(E, s, "no_deepcopy_set_nodes")
        E.assume(Not(And(is_tag(nd, "vbool"), acc(nd, "vbool"))))
        E.assume(content_is_list(E, s))
        c = E.all_mut.get(f)
        if c is not None:
            for nm, g in c.requires(E, A):
                E.assume(g)
        if pre:
            pre(E, A, s)
        E.use_local_lists = True
        E.all_plain = all_plain  # precondition: no element is missing or an interpolation
        E.no_hit = E.term(A[no_hit]) if no_hit else None  # precondition: nor is any equal to x
        if eq:
            E.unwrap = eq == "nodes"
            E.eq = lambda a, b: E.pyeq(a, b) if int_const(E, a) or int_const(E, b) else eqv(E, a, b, E.unwrap)
        if inv:
            E.inv_cands = E.inv_cands + [inv(A)]
        old = E.entry_old = E.st.copy()
        try:
            res = E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            goal(E, old, s, A, "raise", p.ref)
            return
        rep.exits[0] += 1
        goal(E, old, s, A, "return", res)
    return body


def bodies(E, old, s):
    with E.at(old):
        b0 = E.list_body(content_ref(E, s))
    return b0, E.list_body(content_ref(E, s))


def el(E, b, i):
    return E.term(b.get(E, i))


def same(E, old, s):
    """the same list with the same elements"""
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    with E.at(old):
        c0 = E.getf(s, "_content")
    return [("the same content", E.getf(s, "_content") == c0), ("as many elements", b.n == b0.n), ("the same elements", Implies(And(i >= 0, i < b.n), el(E, b, i) == el(E, b0, i)))]


def moved(E, old, s, n, src):
    """n elements; the one at i was at src(i); src(i) None: a new node"""
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    return [("the number of elements", b.n == n), ("every element in its place", Implies(And(i >= 0, i < b.n), el(E, b, i) == el(E, b0, src(i))))]


def inserted(E, old, s, at):
    b0, b = bodies(E, old, s)
    o, i, k = E.fsk
    v = el(E, b, at)
    n = ref_of(v)
    return [("one more element", b.n == b0.n + 1), ("the elements before it stay", Implies(And(i >= 0, i < at), el(E, b, i) == el(E, b0, i))),
            ("the elements from there on move by one", Implies(And(i > at, i < b.n), el(E, b, i) == el(E, b0, i - 1))),
            ("a new node is there", And(E.isnode(v), Or(n < 0, n >= old.hi), E.getf(n, "_parent") == vref(s)))]


def removed(E, old, s, at):
    b0, b = bodies(E, old, s)
    return [("it was there", And(at >= 0, at < b0.n))] + moved(E, old, s, b0.n - 1, lambda i: If(i < at, i, i + 1))


def idx(E, v, n):
    """position of an index from the end or the start"""
    j = acc(E.nkey(v), "vint")
    return If(j < 0, j + n, j), And(j >= -n, j < n)


def readonly(E, old, s):
    with E.at(old):
        return true_flag(E, s, "readonly")


def append_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all(inserted(E, old, s, b0.n) + [("not read-only", Not(readonly(E, old, s)))])
    else:
        E.prove_all(same(E, old, s))


def insert_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    j = acc(E.nkey(A["index"]), "vint")
    at = If(j < 0, If(j + b0.n < 0, z3.IntVal(0), j + b0.n), If(j > b0.n, b0.n, j))
    if how == "return":
        E.prove_all(inserted(E, old, s, at) + [("not read-only", Not(readonly(E, old, s)))])
    else:
        E.prove_all(same(E, old, s))


def delitem_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    at, inr = idx(E, A["key"], b0.n)
    ro = readonly(E, old, s)
    if how == "return":
        E.prove_all(removed(E, old, s, at) + [("the index is in range", inr), ("not read-only", Not(ro))])
    else:
        E.prove_all(same(E, old, s) + [("raises only when read-only or out of range", Or(ro, Not(inr))),
                                       ("an index error out of range", Implies(Not(ro), E.isa_cls(E.cls_term(res), IndexError)))])


def pop_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    at, inr = idx(E, A["index"], b0.n)
    ro = readonly(E, old, s)
    with E.at(old):
        ch = el(E, b0, at)
        x = raw(E, ref_of(inner(E, ch)))
        pv = plain(E, ch)
        ms, it = missing(E, x), interp(E, x)
    if how == "return":
        r = E.term(res)
        E.prove_all(removed(E, old, s, at) + [("the index is in range", inr), ("not read-only", Not(ro)), ("the value of the element", Implies(Not(Or(ms, it)), r == pv)),
                                              ("None for a missing value", Implies(ms, is_tag(r, "vnone")))])
    else:
        E.prove_all(same(E, old, s) + [("raises only when read-only, out of range, or for a broken interpolation", Or(ro, Not(inr), it)),
                                       ("an index error out of range", Implies(And(Not(ro), Not(inr)), E.isa_cls(E.cls_term(res), IndexError)))])


def reverse_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all(moved(E, old, s, b0.n, lambda i: b0.n - 1 - i) + [("not read-only", Not(readonly(E, old, s)))])
    else:
        E.prove_all(same(E, old, s) + [("raises only when read-only", readonly(E, old, s))])


def clear_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all([("empty", b.n == 0), ("not read-only", Not(readonly(E, old, s)))])
    else:
        E.prove_all(same(E, old, s) + [("raises only when read-only", readonly(E, old, s))])


def setitem_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    at, inr = idx(E, A["index"], b0.n)
    i = E.fsk[1]
    if how == "return":
        E.prove_all([("the index is in range", inr), ("not read-only", Not(readonly(E, old, s))), ("as many elements", b.n == b0.n), ("a node is there", E.isnode(el(E, b, at))),
                     ("the other elements stay", Implies(And(i >= 0, i < b.n, i != at), el(E, b, i) == el(E, b0, i)))])
    else:
        E.prove_all(same(E, old, s))


def len_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all([("the number of elements", E.term(res) == Val.vint(b0.n))] + same(E, old, s))
    else:
        E.prove("does not raise", FALSE)


def lentry(E, old, s, i):
    """the element at i before the call: (missing, interpolation, its value)"""
    with E.at(old):
        b0 = E.list_body(content_ref(E, s))
        ch = el(E, b0, i)
        E.fact(Implies(And(i >= 0, i < b0.n), E.isnode(ch)))
        x = raw(E, ref_of(inner(E, ch)))
        if E.all_plain:
            E.fact(Implies(And(i >= 0, i < b0.n), Not(Or(missing(E, x), interp(E, x)))))
        if E.no_hit is not None:
            E.fact(Implies(And(i >= 0, i < b0.n), Not(Or(missing(E, x), interp(E, x), eqv(E, E.no_hit, plain(E, ch), E.unwrap)))))
        return missing(E, x), interp(E, x), plain(E, ch)


def hits(E, old, s, A, x, i):
    """the element at i is a plain value equal to x / is a plain value"""
    ms, it, pv = lentry(E, old, s, i)
    return Not(Or(ms, it)), eqv(E, A[x], pv, E.unwrap)


def index_bounds(E, old, s, A):
    b0, b = bodies(E, old, s)
    lo, hi = E.norm(A["start"]), E.norm(A["end"])
    st = If(is_tag(E.term(lo), "vnone"), z3.IntVal(0), acc(E.term(lo), "vint"))
    en = If(is_tag(E.term(hi), "vnone"), b0.n, acc(E.term(hi), "vint"))
    return st, en, b0


def index_goal(E, old, s, A, how, res):
    st, en, b0 = index_bounds(E, old, s, A)
    i = E.fsk[1]
    pl, eq = hits(E, old, s, A, "x", i)
    if how == "return":
        r = acc(E.term(res), "vint")
        pr, er = hits(E, old, s, A, "x", r)
        E.prove_all(same(E, old, s) + [("a position in the given range", And(r >= st, r < en)), ("its element is equal", Implies(pr, er)),
                                       ("no element before it is", Implies(And(i >= st, i < r, pl), Not(eq)))])
    else:
        er = E.m.errors
        c, c0 = E.cls_term(res), E.cid(er.ConfigValueError)
        for x in (er.MissingMandatoryValue, er.InterpolationResolutionError, er.GrammarParseError, er.ConfigIndexError):
            E.fact(Implies(c == c0, E.isa_cls(c, x) == z3.BoolVal(issubclass(er.ConfigValueError, x))))
        E.prove_all(same(E, old, s) + [("a value error only without an equal element", Implies(And(E.cls_term(res) == E.cid(E.m.errors.ConfigValueError), i >= st, i < en, pl), Not(eq)))])


def index_inv(A):
    def inv(E, env, st, i):
        if i is None:
            return
        s = ref_of(A["self"])
        lo, en, b0 = index_bounds(E, E.entry_old, s, A)
        j = E.fsk[1]
        pl, eq = hits(E, E.entry_old, s, A, "x", j)
        yield ("no equal element so far", Implies(And(j >= lo, j < lo + i, pl), Not(eq)))
    return inv


CNT = z3.Function("CNT", I, I)   # how many of the first i elements are equal to x


def count_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "return":
        E.prove_all(same(E, old, s) + [("the number of equal elements", E.term(res) == Val.vint(CNT(b0.n)))])
    else:
        E.prove_all(same(E, old, s))


def count_inv(A):
    def inv(E, env, st, i):
        if i is None:
            return
        s = ref_of(A["self"])
        pl, eq = hits(E, E.entry_old, s, A, "x", i - 1)
        E.fact(CNT(0) == 0)
        E.fact(Implies(And(i >= 1, pl), CNT(i) == CNT(i - 1) + If(eq, z3.IntVal(1), z3.IntVal(0))))
        for nm, v in locals_of(env, A):
            yield ("as many so far: " + nm, v == Val.vint(CNT(i)))
    return inv


def contains_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    i = E.fsk[1]
    pl, eq = hits(E, old, s, A, "item", i)
    if how == "return":
        r = E.term(res)
        E.prove_all(same(E, old, s) + [("a bool", is_tag(r, "vbool")), ("True if an element is equal", Implies(And(i >= 0, i < b0.n, pl, eq), r == vbool(True)))])
    else:
        E.prove_all(same(E, old, s))


def not_value_node(n):
    def pre(E, A, s):
        v = E.term(A[n])
        E.assume(Not(E.isnode(v, E.value_classes + [E.m.base.UnionNode])))
        E.assume(Not(And(E.isnode(v), is_tag(E.getf(ref_of(v), "_content"), "vnone"))))
    return pre


def contains_inv(A):
    def inv(E, env, st, i):
        if i is None:
            return
        s = ref_of(A["self"])
        j = E.fsk[1]
        hits(E, E.entry_old, s, A, "item", i - 1)
        hits(E, E.entry_old, s, A, "item", i)
        pl, eq = hits(E, E.entry_old, s, A, "item", j)
        yield ("no equal element so far", Implies(And(j >= 0, j < i, pl), Not(eq)))
    return inv


def absent_goal(E, old, s, A, how, res):
    if how == "return":
        E.prove_all(same(E, old, s) + [("False without an equal element", E.term(res) == vbool(False))])
    else:
        E.prove_all(same(E, old, s))


def extend_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    i = E.fsk[1]
    with E.at(old):
        l = E.term(A["lst"] if "lst" in A else A["other"])
        m = E.list_body(If(E.isnode(l), content_ref(E, ref_of(l)), ref_of(l))).n
    v = el(E, b, i)
    n = ref_of(v)
    E.prove_all([("the elements so far stay", Implies(And(i >= 0, i < b0.n), el(E, b, i) == el(E, b0, i))),
                 ("the rest are new nodes", Implies(And(i >= b0.n, i < b.n), And(E.isnode(v), Or(n < 0, n >= old.hi), E.getf(n, "_parent") == vref(s)))),
                 ("at most as many more elements", And(b.n >= b0.n, b.n <= b0.n + m))])
    if how == "return":
        E.prove_all([("as many more elements", b.n == b0.n + m)])


def extend_inv(A):
    def inv(E, env, st, i):
        if i is None:
            return
        s = ref_of(A["self"])
        b0, b = bodies(E, E.entry_old, s)
        j = E.fsk[1]
        v = el(E, b, j)
        n = ref_of(v)
        yield ("one more element each", b.n == b0.n + i)
        yield ("the elements so far stay", Implies(And(j >= 0, j < b0.n), el(E, b, j) == el(E, b0, j)))
        yield ("new nodes", Implies(And(j >= b0.n, j < b.n), And(E.isnode(v), Or(n < 0, n >= E.entry_old.hi), E.getf(n, "_parent") == vref(s))))
        with E.at(E.entry_old):
            c0 = E.getf(s, "_content")
        yield ("the same content", E.getf(s, "_content") == c0)
    return inv


def plain_list(E):
    v = E.any("lst")
    E.assume(And(is_tag(v, "vref"), E.cls_of(v) == E.cid(list)))
    return v


def list_config(E):
    v = E.node("lst", [E.m.listconfig.ListConfig])
    E.assume(content_is_list(E, ref_of(v)))
    return v


def remove_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    i = E.fsk[1]
    r = E.st.g.get("removed_at")
    if how == "return":
        at = E.removed_at
        pl, eq = hits(E, old, s, A, "x", i)
        pr, er = hits(E, old, s, A, "x", at)
        E.prove_all(removed(E, old, s, at) + [("not read-only", Not(readonly(E, old, s))), ("its element is equal", Implies(pr, er)),
                                              ("no element before it is", Implies(And(i >= 0, i < at, pl), Not(eq)))])
    else:
        E.prove_all(same(E, old, s))


class IndexOf(Reads):
    """ListConfig.index(x), by its unit"""

    def result(self, E, A):
        E.removed_at = E.fresh("at", I)
        return Val.vint(E.removed_at)

    def ensures(self, E, A, old, res):
        s = ref_of(A["self"])
        at = acc(E.term(res), "vint")
        i = E.fsk[1]
        b0 = bodies(E, old, s)[0]
        B_ = {"x": A["x"]}
        pl, eq = hits(E, old, s, B_, "x", i)
        pr, er = hits(E, old, s, B_, "x", at)
        return [("a position", And(at >= 0, at < b0.n)), ("its element is equal", Implies(pr, er)), ("no element before it is", Implies(And(i >= 0, i < at, pl), Not(eq)))]


def remove_pre(E, A, s):
    f = E.m.listconfig.ListConfig.index
    E.contracts[f] = IndexOf(f)


def iter_unit(E):
    """iteration: the element at an arbitrary position"""
    LC = E.m.listconfig.ListConfig

    def body(rep):
        install_ops(E)
        s, r, mr = heap.node_at(E, "self", LC)
        heap.frame_begin(E)
        E.assume(content_is_list(E, r))
        E.all_plain, E.no_hit = False, None
        old = E.entry_old = E.st.copy()
        b0 = bodies(E, old, r)[0]
        i = E.fsk[1]
        try:
            it = E.run_fn(LC.__iter__, [s])
        except PyRaise:
            E.prove("creating the iterator does not raise", FALSE)
            return
        n, item = E.iter_view(it)
        E.prove("as many elements", n() == b0.n)
        E.assume(And(i >= 0, i < b0.n))
        ms, ip, pv = lentry(E, old, r, i)
        try:
            v = E.term(E.norm(item(i)))
        except PyRaise as p:
            rep.exits[1] += 1
            c = E.cls_term(p.ref)
            E.prove_all(same(E, old, r) + [("raises only for a missing value or an interpolation", Or(ms, ip)), ("a missing value error", Implies(ms, E.isa_cls(c, E.m.errors.MissingMandatoryValue)))])
            return
        rep.exits[0] += 1
        E.prove_all(same(E, old, r) + [("not for a missing value", Not(ms)), ("the value of the element", Implies(Not(ip), v == pv))])
    return body


def units(E):
    LC = E.m.listconfig.ListConfig
    ix = lambda n: {n: lambda E: E.int(n)}
    t = [("append", append_goal, {}), ("insert", insert_goal, ix("index")), ("__delitem__", delitem_goal, ix("key")), ("pop", pop_goal, ix("index")), ("reverse", reverse_goal, {}),
         ("clear", clear_goal, {}), ("__setitem__", setitem_goal, ix("index")), ("__len__", len_goal, {})]
    out = [("ListConfig.%s: effect" % n, lop_unit(E, getattr(LC, n), g, o)) for n, g, o in t]
    opt = lambda n: (lambda E: NONE if E.decide(E.fresh(n + "_none", B)) else E.int(n))
    out.append(("ListConfig.index: effect", lop_unit(E, LC.index, index_goal, {"start": opt("start"), "end": opt("end")}, inv=index_inv, eq=True)))
    out.append(("ListConfig.count: effect", lop_unit(E, LC.count, count_goal, inv=count_inv, eq=True, all_plain=True)))
    out.append(("ListConfig.__contains__: effect", lop_unit(E, LC.__contains__, contains_goal, inv=contains_inv, eq="nodes", pre=not_value_node("item"))))
    out.append(("ListConfig.__contains__: absent", lop_unit(E, LC.__contains__, absent_goal, inv=contains_inv, eq="nodes", pre=not_value_node("item"), no_hit="item")))
    for n, mk in (("a list", plain_list),):
        for f in ("extend", "__iadd__"):
            out.append(("ListConfig.%s[%s]: effect" % (f, n), lop_unit(E, getattr(LC, f), extend_goal, {"lst": mk, "other": mk}, inv=extend_inv)))
    out.append(("ListConfig.remove: effect", lop_unit(E, LC.remove, remove_goal, pre=remove_pre, eq=True)))
    out.append(("ListConfig.__iter__: elements", iter_unit(E)))
    return out
