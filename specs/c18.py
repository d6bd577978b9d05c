"""C18: equality of configs is the equality of their resolved values; symmetric and reflexive; nothing changes"""
import z3

from pyvc.core import *
from pyvc.interp import IterV, K, Tup
from . import get, heap
from .common import *
from .contracts import *
from .mut import content_ref
from .pure import sym_args


def fn(E, name, *sorts):
    return E.basefn(name, *sorts)


def deref(E, v):
    return fn(E, "RESOLVED", Val, Val)(v)


def child(E, c, k):
    return fn(E, "CHILD", Val, Val, Val)(c, k)


def sameconf(E, kind, a, b):
    """the two configs are equal (the induction hypothesis: equality of smaller configs is symmetric and reflexive)"""
    f = fn(E, kind, Val, Val, B)
    ap = f(a, b)
    x, y = get.raw(E, ref_of(a)), get.raw(E, ref_of(b))
    n1, n2, m1, m2 = is_tag(x, "vnone"), is_tag(y, "vnone"), get.missing(E, x), get.missing(E, y)
    # proved of _dict_conf_eq and _list_eq by the units of this file
    E.fact(And(ap == f(b, a), Implies(a == b, ap), Implies(And(n1, n2), ap), Implies(n1 != n2, Not(ap)), Implies(And(m1, m2), ap), Implies(m1 != m2, Not(ap))))
    return ap


class Det(Contract):
    """a function whose result depends on its arguments only (the configs do not change in between)"""

    def err(self, E, A):
        return fn(E, "ERR_" + self.name, *([Val] * len(self.args(E, A)) + [B]))(*self.args(E, A))

    def args(self, E, A):
        return [E.term(A[p]) for p in self.ps]

    def may_return(self, E, A, old):
        return Not(self.err(E, A))

    def may_raise(self, E, A, old):
        return self.err(E, A)

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class Child(Det):
    """BaseContainer._get_child(key)"""
    name, ps = "child", ("self", "key")

    def result(self, E, A):
        r = child(E, *self.args(E, A))
        E.fact(E.isnode(r))
        return r


class Resolve(Det):
    """Node._maybe_dereference_node(): the node that the interpolation leads to, or None"""
    name, ps = "deref", ("self",)

    def result(self, E, A):
        r = deref(E, *self.args(E, A))
        E.fact(Or(is_tag(r, "vnone"), And(E.isnode(r), Not(get.interp(E, get.raw(E, ref_of(r)))))))
        return r


class Same(Det):
    """_dict_conf_eq, _list_eq"""

    def __init__(self, f, kind, ps):
        super().__init__(f)
        self.kind = self.name = kind
        self.ps = ps

    def err(self, E, A):
        e = super().err(E, A)
        a, b = self.args(E, A)
        E.fact(e == fn(E, "ERR_" + self.name, Val, Val, B)(b, a))
        return e

    def result(self, E, A):
        return Val.vbool(sameconf(E, self.kind, *self.args(E, A)))


class ItemEq(Det):
    """_item_eq(c1, k1, c2, k2); remembers that some pair of items differed"""
    name, ps = "item", ("c1", "k1", "c2", "k2")

    def result(self, E, A):
        r = same_item(E, *self.args(E, A))
        E.wrote("g:differ")
        E.st.g["differ"] = If(r, E.st.g["differ"], z3.IntVal(1))
        return Val.vbool(r)


def same_item(E, *a):
    return fn(E, "SAMEITEM", Val, Val, Val, Val, B)(*a)


def symmetric_values(E):
    """values other than nodes compare as Python compares them: symmetric, and a value equals itself (NaN is excluded)"""
    if getattr(E, "_sym_eq", False):
        return
    E._sym_eq = True
    E.assumptions.add("comparison of plain values is symmetric and reflexive (no NaN, no user-defined asymmetric __eq__)")

    def eq_opaque(a, b):
        ap = E.pyeq_fn(a, b)
        E.fact(And(ap == E.pyeq_fn(b, a), Implies(a == b, ap)))
        return ap
    E.eq_opaque = eq_opaque


def plain_value(E, v):
    """a value node holds no plain dict, list, tuple or structured config (these are wrapped into configs)"""
    c = E.cls_of(v)
    st = E.basefn("P_is_structured_config", Val, B)(v)
    E.assumptions.add("a value node holds no plain dict, list or tuple and no structured config (they become configs; allow_objects with subclasses of them is excluded) and no type")
    E.fact(And(Not(st), *[c != E.cid(k) for k in (dict, list, tuple)]))
    E.fact(Not(E.isa_cls(c, (list))))
    E.fact(Not(E.isa_cls(c, (tuple))))
    E.fact(Not(E.isnode(v)))
    E.fact(Not(is_tag(v, "vtyp")))


def value_of(E, v):
    """(is it an unresolvable interpolation, the value) of the child v"""
    it = isinterp(E, v)
    d = deref(E, v)
    return it, And(it, is_tag(d, "vnone")), get.get_value(E, If(it, d, v))


def eqv(E, a, b):
    """equality of resolved values: configs by their items, everything else as Python values"""
    LC, DC = E.m.listconfig.ListConfig, E.m.dictconfig.DictConfig
    isc = lambda v, c: And(is_tag(v, "vref"), E.cls_term(ref_of(v)) == E.cid(c))
    con = lambda v: Or(isc(v, LC), isc(v, DC))
    return If(And(isc(a, DC), isc(b, DC)), sameconf(E, "SAMEDICT", a, b), If(And(isc(a, LC), isc(b, LC)), sameconf(E, "SAMELIST", a, b), If(Or(con(a), con(b)), FALSE, E.pyeq(a, b))))


def compare(E, x, y):
    """== of the Python language: the left side, then the right side, then identity; a config's method by its contract"""
    x, y = E.term(E.norm(x)), E.term(E.norm(y))
    for v in (x, y):
        if not E.must(Not(E.isnode(v, E.value_classes + [E.m.base.UnionNode]))):
            raise Unsupported("comparison of value nodes")
    return eqv(E, x, y)


def base(E):
    install_reads(E, skip=("Node._maybe_dereference_node", "BaseContainer._get_child", "DictConfig.__len__", "ListConfig.__len__", "BaseContainer.__len__"))
    install_makers(E)
    get.install_get(E)
    m = E.m
    symmetric_values(E)
    BC, LC, DC = m.basecontainer.BaseContainer, m.listconfig.ListConfig, m.dictconfig.DictConfig
    for f, c in ((BC._get_child, Child), (m.base.Node._maybe_dereference_node, Resolve), (BC._item_eq, ItemEq)):
        E.contracts[raw(f)] = c(raw(f))
    E.contracts[raw(DC._dict_conf_eq)] = Same(raw(DC._dict_conf_eq), "SAMEDICT", ("d1", "d2"))
    E.contracts[raw(LC._list_eq)] = Same(raw(LC._list_eq), "SAMELIST", ("l1", "l2"))
    E.assumptions.add("looking a child up and resolving its interpolation give the same each time (resolvers are deterministic)")
    E.st.g["differ"] = z3.IntVal(0)


class Formula(Contract):
    """a function of what the configs hold, given as a formula"""
    can_raise = False

    def __init__(self, f, form):
        super().__init__(f)
        self.form = form

    def result(self, E, A):
        return self.form(E, A)


def isinterp(E, v):
    return And(get.interp(E, get.raw(E, ref_of(v))), E.cls_term(ref_of(v)) != E.cid(E.m.nodes.InterpolationResultNode))


def formulas(E):
    """(function, formula of its result): each is proved of the function by a unit of its own"""
    m = E.m
    N = m.base.Node
    s = lambda A: E.term(A["self"])
    none = lambda E, A: Val.vbool(is_tag(get.raw(E, ref_of(s(A))), "vnone"))
    miss = lambda E, A: Val.vbool(get.missing(E, get.raw(E, ref_of(s(A)))))
    it = lambda E, A: Val.vbool(isinterp(E, s(A)))
    out = [(N._is_none, none), (N._is_missing, miss)]
    for c in (m.basecontainer.BaseContainer, m.base.UnionNode, m.nodes.ValueNode, m.nodes.InterpolationResultNode):
        out.append((c.__dict__["_is_interpolation"], it))
    out.append((m.utils._get_value, lambda E, A: get.get_value(E, E.term(A["value"]))))
    return out


def conf_eq(E, cls, v, o):
    """DictConfig.__eq__, ListConfig.__eq__ with an argument that is no plain dict, list, tuple or structured config"""
    ni = E.term(K(NotImplemented))
    x = E.getf(ref_of(v), "_content")
    same = And(is_tag(o, "vref"), E.cls_term(ref_of(o)) == E.cid(cls))
    kind = "SAMEDICT" if cls is E.m.dictconfig.DictConfig else "SAMELIST"
    ml = Val.vbool(get.missing(E, o))
    rest = If(get.missing(E, x), ml, ni)
    none = Val.vbool(is_tag(x, "vnone"))
    return If(is_tag(o, "vnone"), none, If(same, Val.vbool(sameconf(E, kind, v, o)), rest))


def formula_unit(E, f, form, cls):
    def body(rep):
        base(E)
        args, A = sym_args(E, f, cls, {"value": lambda E: E.node("value", [cls]) if cls is not None else not_a_node(E, "value")})
        heap.frame_begin(E)
        old = E.st.copy()
        try:
            r = E.term(E.run_fn(raw(f), args))
        except PyRaise:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        E.prove_all([("the result", r == form(E, A))] + E.frame_goals(old, {}, "nothing changes"))
    return body


def eq_unit(E, cls):
    def body(rep):
        base(E)
        v, r, _ = heap.node_at(E, "self", cls)
        heap.frame_begin(E)
        if E.decide(E.fresh("other_node", B)):
            o = E.node("other", E.container_classes)
        else:
            o = E.any("other")
            plain_value(E, o)
        # a list compared with None: by the list made of None, whose content the contract of the constructor leaves open
        shown = TRUE if cls is E.m.dictconfig.DictConfig else Not(is_tag(o, "vnone"))
        old = E.st.copy()
        try:
            x = E.term(E.run_fn(raw(cls.__eq__), [v, o]))
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes"))
            return
        rep.exits[0] += 1
        E.prove_all([("the result", Implies(shown, x == conf_eq(E, cls, v, o)))] + E.frame_goals(old, {}, "nothing changes"))
    return body


def not_a_node(E, n):
    v = E.any(n)
    E.assume(Not(E.isnode(v)))
    return v


KINDS = {"a value": lambda E: [c for c in E.value_classes if c is not E.m.nodes.InterpolationResultNode], "a config": lambda E: E.container_classes, "a union": lambda E: [E.m.base.UnionNode]}


def of_kind(E, v, kinds):
    E.assume(E.isnode(v, kinds))


def item_spec(E, v1, v2):
    """equality of two children: of their resolved values; of their text if one of them cannot be resolved"""
    it1, br1, x1 = value_of(E, v1)
    it2, br2, x2 = value_of(E, v2)
    return If(Or(br1, br2), And(it1, it2, E.pyeq(get.raw(E, ref_of(v1)), get.raw(E, ref_of(v2)))), eqv(E, x1, x2))


def lemma_unit(E, k1, k2):
    """the equality of items that _item_eq is proved to compute is symmetric and reflexive"""
    def body(rep):
        base(E)
        v1, v2 = E.any("v1"), E.any("v2")
        of_kind(E, v1, KINDS[k1](E))
        of_kind(E, v2, KINDS[k2](E))
        children(E, v1, v2)
        rep.exits[0] += 1
        E.prove("symmetric", item_spec(E, v1, v2) == item_spec(E, v2, v1))
        if k1 == k2:
            E.prove("reflexive", Implies(v1 == v2, item_spec(E, v1, v2)))
    return body


def children(E, *vs):
    for v in vs:
        d = deref(E, v)
        E.fact(Or(is_tag(d, "vnone"), And(E.isnode(d), Not(get.interp(E, get.raw(E, ref_of(d)))))))
        for x in (v, d):
            for q in (x, get.raw(E, ref_of(x))):
                with_val(E, q)


def item_unit(E, k1, k2):
    BC = E.m.basecontainer.BaseContainer
    f = raw(BC._item_eq)

    def body(rep):
        base(E)
        del E.contracts[f]
        c1, c2 = E.node("c1", E.container_classes), E.node("c2", E.container_classes)
        a, b = E.any("k1"), E.any("k2")
        heap.frame_begin(E)
        v1, v2 = child(E, c1, a), child(E, c2, b)
        of_kind(E, v1, KINDS[k1](E))
        of_kind(E, v2, KINDS[k2](E))
        for g, form in formulas(E):
            E.contracts[raw(g)] = Formula(raw(g), form)
        E.eq = lambda x, y: compare(E, x, y)
        E.ne = lambda x, y: Not(compare(E, x, y))
        children(E, v1, v2)
        old = E.st.copy()
        try:
            r1 = E.term(E.run_fn(f, [c1, a, c2, b]))
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes"))
            return
        rep.exits[0] += 1
        E.prove_all([("the items are equal exactly if their resolved values are", r1 == Val.vbool(item_spec(E, v1, v2)))] + E.frame_goals(old, {}, "nothing changes"))
    return body


def with_val(E, q):
    """what a value node at q holds is a plain value"""
    n = ref_of(q)
    x = E.getf(n, "_val")
    E._pv = getattr(E, "_pv", [])
    c = E.cls_of(x)
    isv = E.isnode(q, E.value_classes)
    st = E.basefn("P_is_structured_config", Val, B)(x)
    E.assumptions.add("a value node holds no plain dict, list or tuple, no structured config and no type (they become configs)")
    E.fact(Implies(isv, And(Not(st), *[c != E.cid(k) for k in (dict, list, tuple)], Not(E.isa_cls(c, list)), Not(E.isa_cls(c, tuple)), Not(E.isnode(x)), Not(is_tag(x, "vtyp")))))


def items_view(E, x, k):
    """items_ex(resolve=False): the items in order"""
    s = E.term(x[0])
    c = content_ref(E, ref_of(s))
    b = E.dict_body(c)

    def val(i):
        v = E.term(b.get(b.keyat(i)))
        return If(E.isnode(v, E.value_classes), E.getf(ref_of(v), "_val"), v)
    return IterV("zip", IterV("dictkeys", c), IterV("seqbody", LBody(b.n, lambda i: val(i))))


def conf_unit(E, cls):
    """equality of two mappings (two lists): both None, or both missing, or the same keys (length) and every item equal"""
    DC = E.m.dictconfig.DictConfig
    f = raw(cls._dict_conf_eq if cls is DC else cls._list_eq)

    def body(rep):
        base(E)
        del E.contracts[f]
        E.intrinsics[raw(DC.items_ex)] = lambda E, x, k: items_view(E, x, k)
        a, r1, _ = heap.node_at(E, "d1", cls)
        b, r2, _ = heap.node_at(E, "d2", cls)
        heap.frame_begin(E)
        o, i, k = E.fsk
        x1, x2 = E.getf(r1, "_content"), E.getf(r2, "_content")
        c1, c2 = ref_of(x1), ref_of(x2)

        def bodies():
            return (E.dict_body(c1), E.dict_body(c2)) if cls is DC else (E.list_body(c1), E.list_body(c2))

        def at(j):
            b1, b2 = bodies()
            if cls is DC:
                key = b1.keyat(j)
                return And(b2.has(E.nkey(key)), same_item(E, a, key, b, key))
            return same_item(E, a, Val.vint(j), b, Val.vint(j))

        def inv(E, env, st, j):
            if j is None:
                return
            yield ("the items so far are equal", Implies(And(is_tag(x1, "vref"), is_tag(x2, "vref"), i >= 0, i < j), at(i)))
            yield ("no two items differed so far", E.st.g["differ"] == 0)
        E.inv_cands = E.inv_cands + [inv]
        old = E.st.copy()
        try:
            r = E.term(E.run_fn(f, [a, b]))
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes"))
            return
        rep.exits[0] += 1
        n1, n2 = is_tag(x1, "vnone"), is_tag(x2, "vnone")
        ref1, ref2 = is_tag(x1, "vref"), is_tag(x2, "vref")
        ms = lambda x: get.missing(E, x)
        b1, b2 = bodies()
        t = And(is_tag(r, "vbool"), acc(r, "vbool"))
        gs = [("the result is a bool", is_tag(r, "vbool")),
              ("two that are None are equal", Implies(And(n1, n2), t)), ("one that is None is unequal to one that is not", Implies(n1 != n2, Not(t))),
              ("two missing ones are equal", Implies(And(ms(x1), ms(x2)), t)),
              ("a missing one is unequal to one that is not", Implies(ms(x1) != ms(x2), Not(t))),
              ("different sizes are unequal", Implies(And(ref1, ref2, b1.n != b2.n), Not(t))),
              ("equal ones have the same keys and equal items", Implies(And(t, ref1, ref2, i >= 0, i < b1.n), at(i))),
              ("unequal ones of the same size differ in a key or an item", Implies(And(Not(t), ref1, ref2, b1.n == b2.n), Or(E.st.g["differ"] == 1, z3.BoolVal(cls is DC))))]
        E.prove_all(gs + E.frame_goals(old, {}, "nothing changes"))
    return body


def ne_unit(E, cls):
    """!= is the negation of =="""
    def body(rep):
        base(E)
        EQF = raw(cls.__eq__)

        class Eqc(Det):
            name, ps = "eq", ("self", "other")

            def result(self, E, A):
                return fn(E, "EQRESULT", Val, Val, Val)(*self.args(E, A))
        E.contracts[EQF] = Eqc(EQF)
        v, r, _ = heap.node_at(E, "self", cls)
        o = E.any("other")
        heap.frame_begin(E)
        e = fn(E, "EQRESULT", Val, Val, Val)(v, o)
        ni = E.term(K(NotImplemented))
        E.assume(Or(is_tag(e, "vbool"), e == ni) if cls is not E.m.nodes.AnyNode else is_tag(e, "vbool"))
        try:
            x = E.term(E.run_fn(raw(cls.__ne__), [v, o]))
        except PyRaise:
            rep.exits[1] += 1
            E.prove("raises only if the comparison does", fn(E, "ERR_eq", Val, Val, B)(v, o))
            return
        rep.exits[0] += 1
        E.prove("!= is the negation of ==, or both leave it to the other side", If(e == ni, x == ni, x == Val.vbool(Not(acc(e, "vbool")))))
    return body


def units(E):
    DC, LC = E.m.dictconfig.DictConfig, E.m.listconfig.ListConfig
    out = []
    for a in KINDS:
        for b in KINDS:
            out.append(("BaseContainer._item_eq[%s, %s]" % (a, b), item_unit(E, a, b)))
            out.append(("lemma: equality of items[%s, %s]" % (a, b), lemma_unit(E, a, b)))
    out += [("DictConfig._dict_conf_eq", conf_unit(E, DC)), ("ListConfig._list_eq", conf_unit(E, LC))]
    out += [("%s.__ne__" % c.__name__, ne_unit(E, c)) for c in (DC, LC, E.m.base.UnionNode, E.m.nodes.AnyNode)]
    for f, form in formulas(E):
        f = raw(f)
        cs = ([c for c in E.node_classes if raw(getattr(c, f.__name__)) is f] if f.__name__ != "_get_value" else list(E.node_classes) + [None])
        for c in cs:
            out.append(("%s[%s]" % (f.__qualname__, c.__name__ if c else "not a node"), formula_unit(E, f, form, c)))
    out += [("%s.__eq__" % c.__name__, eq_unit(E, c)) for c in (DC, LC)]
    return out
