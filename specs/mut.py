"""contracts of the mutating helpers shared by several properties"""
import inspect
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.oc import Contract, Combine
from . import heap
from .common import *
from .contracts import *
from .pure import sym_args

BELOW = z3.Function("BELOW", I, I, B)  # r lies in the part of the heap reached from the content of the node at c


def below(E, c, r):
    """r lies below c.  Nothing that existed before the call lies below an object created in the call (separation)"""
    if E.is_new(c):
        return FALSE if E.is_old(r) else And(Or(r < 0, r >= E.A0), BELOW(c, r))
    return BELOW(c, r)


def content_ref(E, r):
    return ref_of(E.getf(r, "_content"))


SUBTREE = ("_content", "_val", "_metadata", "_parent", "key", "ref_type", "object_type", "optional", "flags", "element_type", "key_type", "LIST", "DICT",
           "enum_type", "fields")


def subtree(E, c, extra=()):
    """everything below c may change (c is not below itself)"""
    for q in (c, ref_of(E.getf(c, "_metadata")), content_ref(E, c)):
        E.fact(Not(BELOW(c, q)))
    return {f: (lambda q: below(E, c, q)) for f in SUBTREE}


def union(*ms):
    out = {}
    for m in ms:
        for f, p in m.items():
            out[f] = (lambda a, b: lambda q: Or(a(q), b(q)))(out[f], p) if f in out else p
    return out


def at_ref(c):
    return lambda q: q == c


def list_entry(E, cr, i):
    b = E.list_body(cr)
    return E.term(b.get(E, i))


def wf_at(E, o, i, k, named=False):
    """the tree invariant at one container o, list index i and key k: the child there is a node whose parent is o and whose key
    is the place where o holds it"""
    DC, LC = E.cid(E.m.dictconfig.DictConfig), E.cid(E.m.listconfig.ListConfig)
    cv = E.getf(o, "_content")
    cr = ref_of(cv)
    oc = E.cls_term(o)
    isref = is_tag(cv, "vref")
    lb, db = E.list_body(cr), E.dict_body(cr)

    def placed(e, key, same):
        n = ref_of(e)
        return [("is a node", E.isnode(e)), ("has it as parent", E.getf(n, "_parent") == vref(o)), ("has its place as key", same(E.getf(E.meta(n), "key"), key))]
    e = E.term(lb.get(E, i))
    d = E.term(db.get(k))
    gl = And(oc == LC, isref, E.cls_term(cr) == E.cid(list), i >= 0, i < lb.n)
    gd = And(oc == DC, isref, E.cls_term(cr) == E.cid(dict), db.has(k))
    gs = [("an element of any list config " + n, Implies(gl, g)) for n, g in placed(e, Val.vint(i), lambda a, b: E.nkey(a) == b)]
    gs += [("a child of any mapping config " + n, Implies(gd, g)) for n, g in placed(d, k, lambda a, b: E.nkey(a) == b)]
    return gs if named else And(*[g for n, g in gs])


class SetItem(Contract):
    """BaseContainer._set_item_impl(self, key, value): never returns on a read-only node; changes nothing when it raises; otherwise
    exactly the entry at key is replaced or added: afterwards it holds a node with parent self and this key, which is the old one
    (whose value may have changed) or a new one"""
    creates = True
    ro = True

    def may_return(self, E, A, old):
        s = ref_of(A["self"])
        ok = Not(true_flag(E, s, "readonly")) if self.ro else TRUE
        ok = And(ok, is_tag(E.getf(s, "_content"), "vref"))
        if self.islist(E, s):
            # a list has an entry at the key
            k = E.nkey(A["key"])
            b = E.list_body(content_ref(E, s))
            ok = And(ok, Implies(is_tag(k, "vint"), And(acc(k, "vint") >= -b.n, acc(k, "vint") < b.n)))
        return ok

    def requires(self, E, A):
        if self.islist(E, ref_of(A["self"])):
            return [("the key of a list element is an integer", is_tag(E.nkey(A["key"]), "vint")),
                    ("a negative index has been normalised", self.notneg(E, A))]
        return []

    def notneg(self, E, A):
        k = acc(E.nkey(A["key"]), "vint")
        s = ref_of(A["self"])
        return Or(Not(is_tag(E.getf(s, "_content"), "vref")), k >= 0, k < -E.list_body(content_ref(E, s)).n)

    def islist(self, E, s):
        c = E.cls_term(s)
        if E.must(c == E.cid(E.m.listconfig.ListConfig)):
            return True
        if E.must(c == E.cid(E.m.dictconfig.DictConfig)):
            return False
        raise Unsupported("class of the container")

    def entry(self, E, A):
        """the entry at key before the call: (is there a node, its address)"""
        s = ref_of(A["self"])
        c = content_ref(E, s)
        if self.islist(E, s):
            k = E.nkey(A["key"])
            b = E.list_body(c)
            j = acc(k, "vint")
            v = E.term(b.get(E, If(j < 0, j + b.n, j)))
            return And(is_tag(k, "vint"), E.isnode(v)), ref_of(v)
        k = E.nkey(A["key"])
        b = E.dict_body(c)
        v = E.term(b.get(k))
        return And(b.has(k), E.isnode(v)), ref_of(v)

    def modifies(self, E, A):
        s = ref_of(A["self"])
        c = content_ref(E, s)
        h, t = self.entry(E, A)
        mt = E.meta(t)
        at = lambda q: And(h, q == t)
        atm = lambda q: And(h, q == mt)
        return {"LIST" if self.islist(E, s) else "DICT": at_ref(c), "_content": at, "_val": at, "object_type": atm, "flags": atm}

    def modifies_exc(self, E, A):
        return {}

    def ghost(self, E, A):
        return ("fv",)

    def ghost_exc(self, E, A):
        return ()

    def apply(self, E, args, kwargs):
        self.body0 = None
        return super().apply(E, args, kwargs)

    def effect(self, E, A, old, c, islist, v):
        """the new body of the content at c, with v at the key"""
        with E.at(old):
            if islist:
                b = E.list_body(c)
                k = E.nkey(A["key"])
                j = acc(k, "vint")
                j = If(j < 0, j + b.n, j)
                other = b
                return LBody(b.n, lambda i: If(And(is_tag(k, "vint"), i == j), v, E.term(other.get(E, i))))
            b = E.dict_body(c)
            k = E.nkey(A["key"])
            had = b.has(k)
            ka = None
            if b.keyat_ is not None:
                ka = lambda i: If(And(Not(had), i == b.n), k, b.keyat(i))
            return DBody(lambda x: Or(Eq(x, k), b.has(x)), lambda x: If(Eq(x, k), v, E.term(b.get(x))), b.n + If(had, z3.IntVal(0), z3.IntVal(1)), ka)

    def ensures(self, E, A, old, res):
        s = ref_of(A["self"])
        c = content_ref(E, s)
        with E.at(old):
            islist = self.islist(E, s)
            h, t = self.entry(E, A)
            c = content_ref(E, s)
        key = E.nkey(A["key"])
        if not isinstance(res, z3.ExprRef):
            res = NONE
        if self.applying:
            v = E.fresh_val("entry")
            f = "LIST" if islist else "DICT"
            E.st.f[f] = StoreM(old.f.get(f) or E.base_map(f), c, self.effect(E, A, old, c, islist, v))
        else:
            if islist:
                b = E.list_body(c)
                j = acc(key, "vint")
                v = E.term(b.get(E, If(j < 0, j + b.n, j)))
            else:
                v = E.term(E.dict_body(c).get(key))
        n = ref_of(v)
        km = E.getf(E.meta(n), "key")
        samekey = E.nkey(km) == key
        new = Or(n < 0, n >= old.hi)
        guard = is_tag(key, "vint") if islist else TRUE
        if islist:
            guard = And(guard, acc(key, "vint") >= 0)
        out = [("the entry is the old node or a new one placed there", Implies(guard, And(E.isnode(v), Or(And(h, n == t), And(new, E.getf(n, "_parent") == vref(s), samekey)))))]
        o, i, k = E.fsk
        out.append(("the children of a replaced container are well placed", Implies(And(h, o == t), wf_at(E, o, i, k))))
        if not self.applying:
            nb = self.effect(E, A, old, c, islist, v)
            if islist:
                b = E.list_body(c)
                out.append(("no other entry changes", Implies(guard, And(b.n == nb.n, Implies(And(i >= 0, i < b.n), E.term(b.get(E, i)) == E.term(nb.get(E, i)))))))
            else:
                b = E.dict_body(c)
                g = And(b.n == nb.n, b.has(k) == nb.has(k), Implies(b.has(k), E.term(b.get(k)) == E.term(nb.get(k))))
                if b.keyat_ is not None and nb.keyat_ is not None:
                    g = And(g, Implies(And(i >= 0, i < b.n), b.keyat(i) == nb.keyat(i)))
                out.append(("no other entry changes", g))
        return out

    applying = True

    def result(self, E, A):
        return NONE

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class Append(SetItem):
    """ListConfig.append: one new element at the end, placed there; nothing changes when it raises"""

    def requires(self, E, A):
        return []

    def may_return(self, E, A, old):
        s = ref_of(A["self"])
        return And(Not(true_flag(E, s, "readonly")), is_tag(E.getf(s, "_content"), "vref"))

    def modifies(self, E, A):
        return {"LIST": at_ref(content_ref(E, ref_of(A["self"])))}

    def ensures(self, E, A, old, res):
        s = ref_of(A["self"])
        with E.at(old):
            c = content_ref(E, s)
            b = E.list_body(c)
        n0 = b.n
        if self.applying:
            v = E.fresh_val("entry")
            nb = LBody(n0 + 1, lambda i: If(i == n0, v, E.term(b.get(E, i))))
            E.st.f["LIST"] = StoreM(old.f.get("LIST") or E.base_map("LIST"), c, nb)
        else:
            v = E.term(E.list_body(c).get(E, n0))
        n = ref_of(v)
        out = [("the last element is a new node placed there", And(E.isnode(v), Or(n < 0, n >= old.hi), E.getf(n, "_parent") == vref(s),
                                                                   E.nkey(E.getf(E.meta(n), "key")) == Val.vint(n0)))]
        if not self.applying:
            nb = E.list_body(c)
            i = E.fsk[1]
            out.append(("one more element", nb.n == n0 + 1))
            out.append(("no other element changes", Implies(And(i >= 0, i < n0), E.term(b.get(E, i)) == E.term(nb.get(E, i)))))
        return out


class WrapSet(SetItem):
    """BaseContainer._wrap_value_and_set: puts a new node under key, or raises and changes nothing"""
    ro = False

    def requires(self, E, A):
        return super().requires(E, A) + [("the value is not an existing node", not_old_node(E, A["val"]))]

    def modifies(self, E, A):
        s = ref_of(A["self"])
        c = content_ref(E, s)
        return {"LIST" if self.islist(E, s) else "DICT": at_ref(c)}

    def ghost(self, E, A):
        return ()

    def entry(self, E, A):
        h, t = super().entry(E, A)
        return FALSE, t


class SetValue(Contract):
    """Node._set_value on a container, union or value node: when it raises nothing changes; otherwise the node's value and its
    declared content type; the children of a container are new and well placed"""
    creates = True

    def __init__(self, fn, cls):
        super().__init__(fn)
        self.cls = cls

    def ro(self, E):
        b = E.m
        return not issubclass(self.cls, b.base.Container)

    def may_return(self, E, A, old):
        if self.ro(E):
            return Not(true_flag(E, ref_of(A["self"]), "readonly"))
        return TRUE

    def modifies(self, E, A):
        s = ref_of(A["self"])
        if issubclass(self.cls, E.m.nodes.ValueNode):
            return {"_val": at_ref(s)}
        mr = E.meta(s)
        if self.cls is E.m.base.UnionNode:
            return {"_content": at_ref(s)}
        return {"_content": at_ref(s), "object_type": at_ref(mr), "flags": at_ref(mr)}

    def modifies_exc(self, E, A):
        return {}

    def ghost(self, E, A):
        return () if issubclass(self.cls, E.m.nodes.ValueNode) else ("fv",)

    def ghost_exc(self, E, A):
        return ()

    def result(self, E, A):
        return NONE

    def ensures(self, E, A, old, res):
        if not issubclass(self.cls, E.m.base.Container) or E.fsk is None:
            return []
        o, i, k = E.fsk
        s = ref_of(A["self"])
        return [("its children are well placed", Implies(o == s, wf_at(E, o, i, k)))]

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class SetValueImpl(SetValue):
    """the part of _set_value that can leave a partial state behind when it raises (restored by the caller)"""

    def may_return(self, E, A, old):
        return TRUE

    def modifies_exc(self, E, A):
        return self.modifies(E, A)

    def ghost_exc(self, E, A):
        return self.ghost(E, A)


class NoCache(Contract):
    """_invalidate_flags_cache: changes flag caches only"""
    can_raise = False

    def result(self, E, A):
        return NONE


class DeepHint(Contract):
    """_deep_update_type_hint(node, type_hint): changes declared types of node and what is below it"""
    creates = True

    def modifies(self, E, A):
        s = ref_of(E.term(A["node"]))
        mr = E.meta(s)
        c = content_ref(E, s)
        own = {f: at_ref(mr) for f in ("ref_type", "optional", "element_type", "key_type")}
        has = is_tag(E.getf(s, "_content"), "vref")
        return union(subtree(E, s), own, {"LIST": lambda q: And(has, q == c, heap.ROLE(q) == 2), "DICT": lambda q: And(has, q == c, heap.ROLE(q) == 1)})

    def ghost(self, E, A):
        return ()

    def result(self, E, A):
        return NONE

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class UpdateKeys(Contract):
    """ListConfig._update_keys: the key of every element becomes a position at which the element stands; nothing else changes"""
    can_raise = False

    def requires(self, E, A):
        s = ref_of(A["self"])
        v = E.getf(s, "_content")
        return [("the content is a list", And(is_tag(v, "vref"), E.cls_term(ref_of(v)) == E.cid(list)))]

    def modifies(self, E, A):
        s = ref_of(A["self"])
        b = E.list_body(content_ref(E, s))
        mm = E.field("_metadata")
        t = E.fresh("tick", "tick")
        CH, POS = z3.Function("CH_%d" % t, I, B), z3.Function("POS_%d" % t, I, I)

        def meta_at(i):
            e = E.term(b.get(E, i))
            return is_tag(e, "vref"), ref_of(mm.read(E, ref_of(e)))

        def fn(E, r, new, old):
            p = POS(r)
            c, mr = meta_at(p)
            E.fact(Implies(CH(r), And(p >= 0, p < b.n, c, mr == r)))
            return If(CH(r), Val.vint(p), old)
        i = E.fsk[1]
        c, mr = meta_at(i)
        E.fact(Implies(And(i >= 0, i < b.n, c), CH(mr)))
        return {"key": Combine(fn)}

    def result(self, E, A):
        return NONE


def update_keys_unit(E):
    LC = E.m.listconfig.ListConfig
    f = LC._update_keys

    def body(rep):
        install_reads(E, skip=("ListConfig._get_node", "ListConfig._validate_get"))
        s, r, mr = heap.node_at(E, "self", LC)
        heap.frame_begin(E)
        cv = E.getf(r, "_content")
        E.assume(And(is_tag(cv, "vref"), E.cls_term(ref_of(cv)) == E.cid(list)))
        body = E.list_body(ref_of(cv))
        old = E.st.copy()
        sk, fi = E.fsk[0], E.fsk[1]
        k0 = E.getf(sk, "key")

        def el(j):
            v = E.term(body.get(E, j))
            with E.at(old):
                return v, E.meta(ref_of(v))

        def listed(key, mref, hi):
            p = acc(key, "vint")
            v, m2 = el(p)
            return And(is_tag(key, "vint"), p >= 0, p < hi, m2 == mref)

        def inv(E, env, st, i):
            if i is None:
                return
            yield ("keys so far: only elements", Or(E.getf(sk, "key") == k0, listed(E.getf(sk, "key"), sk, i)))
            v, m2 = el(fi)
            yield ("keys so far: every element", Implies(And(fi >= 0, fi < i), listed(E.getf(m2, "key"), m2, i)))
        E.inv_cands = E.inv_cands + [inv]
        try:
            E.run_fn(f, [s])
        except PyRaise:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        n = body.n
        k1 = E.getf(sk, "key")
        E.prove("a changed key is a position of its node", Or(k1 == k0, listed(k1, sk, n)))
        v, m2 = el(fi)
        E.prove("every element's key is one of its positions", Implies(And(fi >= 0, fi < n), listed(E.getf(m2, "key"), m2, n)))
        for nm, g in E.frame_goals(old, {"key": lambda q: TRUE}, "nothing else changes"):
            E.prove(nm, g)
    return body


def not_a_node(E, name):
    v = E.any(name)
    E.assume(Not(E.isnode(v)))
    return v


def mutators(E):
    """name -> (function, class of self, overrides of the symbolic arguments)"""
    m = E.m
    DC, LC, UN = m.dictconfig.DictConfig, m.listconfig.ListConfig, m.base.UnionNode
    BC = m.basecontainer.BaseContainer
    sk = {"key": lambda E: NONE if E.decide(E.fresh("key_none", B)) else Val.vcst(E.fresh("keyfn", I))}
    t = {}
    for n in ("__setitem__", "__setattr__", "__delitem__", "__delattr__", "pop", "popitem", "setdefault", "clear"):
        t["DictConfig." + n] = (getattr(DC, n), DC, {})
    for n in ("append", "insert", "extend", "remove", "__delitem__", "clear", "pop", "reverse", "__iadd__"):
        t["ListConfig." + n] = (getattr(LC, n), LC, {})
    t["ListConfig.__setitem__[index]"] = (LC.__setitem__, LC, {"index": lambda E: E.int("index")})
    t["ListConfig.sort"] = (LC.sort, LC, sk)
    kinds = {"a value node": lambda E: E.node("value", E.value_classes), "a container": lambda E: E.node("value", E.container_classes),
             "a union node": lambda E: E.node("value", [UN]), "not a node": lambda E: not_a_node(E, "value")}
    for c in (DC, LC):
        for kn, mk in kinds.items():
            t["BaseContainer._set_item_impl[%s; the value is %s]" % (c.__name__, kn)] = (BC._set_item_impl, c, {"value": mk})
    t["BaseContainer._wrap_value_and_set[DictConfig]"] = (BC._wrap_value_and_set, DC, {})
    t["BaseContainer._wrap_value_and_set[ListConfig]"] = (BC._wrap_value_and_set, LC, {})
    t["DictConfig._set_value"] = (DC._set_value, DC, {"flags": no_flags})
    for c in (DC, LC, UN):
        t["%s._set_value_impl" % c.__name__] = (c._set_value_impl, c, {"flags": no_flags})
    t["ListConfig._set_value"] = (LC._set_value, LC, {"flags": no_flags})
    t["UnionNode._set_value"] = (UN._set_value, UN, {"flags": no_flags})
    for c in E.value_classes:
        t["%s._set_value" % c.__name__] = (c._set_value, c, {"flags": no_flags})
    return t


def no_flags(E):
    return NONE


def install_mut(E, skip=()):
    m = E.m
    DC, LC, UN = m.dictconfig.DictConfig, m.listconfig.ListConfig, m.base.UnionNode
    BC = m.basecontainer.BaseContainer

    E.all_mut = {}

    def put(fn, c):
        E.all_mut[raw(fn)] = c
        if raw(fn) not in skip:
            E.contracts[raw(fn)] = c
    put(BC._set_item_impl, SetItem(BC._set_item_impl))
    put(LC.append, Append(LC.append))
    put(BC._wrap_value_and_set, WrapSet(BC._wrap_value_and_set))
    for c in (DC, LC, UN):
        put(c._set_value, SetValue(c._set_value, c))
        put(c._set_value_impl, SetValueImpl(c._set_value_impl, c))
    for c in E.value_classes:
        f = c.__dict__.get("_set_value") or m.nodes.ValueNode._set_value
        put(f, SetValue(f, m.nodes.ValueNode))
    for c in (m.base.Node, m.base.Container, UN, BC, DC, LC):
        f = c.__dict__.get("_invalidate_flags_cache")
        if f is not None:
            put(f, NoCache(f))
    put(LC._update_keys, UpdateKeys(LC._update_keys))
    put(m.basecontainer._deep_update_type_hint, DeepHint(m.basecontainer._deep_update_type_hint))


def contract_goals(E, c, old, A, how, exc):
    """what the contract of the function under verification promises to its callers"""
    with E.at(old):
        mods = c.modifies(E, A) if how == "return" else c.modifies_exc(E, A)
        mr = c.may_return(E, A, old)
    gs = E.frame_goals(old, mods, "contract: frame")
    if how == "return":
        gs.append(("contract: may return", mr))
        c.applying = False
        gs += [("contract: " + n, g) for n, g in c.ensures(E, A, old, NONE)]
        c.applying = True
    else:
        gs.append(("contract: may raise", c.may_raise(E, A, old)))
        gs += [("contract: " + n, g) for n, g in c.raises(E, A, old, exc)]
    return gs


def mut_unit(E, fn, selfcls, over, goal, pre=None, readonly=False, wf=False):
    """run a mutator and prove the frame: always (readonly) or on the exits by an exception"""
    f = raw(fn)

    def body(rep):
        install_reads(E)
        install_makers(E)
        install_mut(E, skip=(f,))
        E.wf_pre = wf
        E.cur_contract = E.all_mut.get(f)
        args, A = sym_args(E, fn, selfcls, over)
        s = ref_of(A["self"])
        heap.frame_begin(E)
        if wf:
            E.inv_cands = E.inv_cands + [lambda E, env, st, i: [("wf: " + n, g) for n, g in wf_at(E, *E.fsk, named=True)]]
        E.assumptions.add("the internal flag no_deepcopy_set_nodes is not set (only OmegaConf.unsafe_merge sets it)")
        nd = eff(E, s, "no_deepcopy_set_nodes")
        E.assume(Not(And(is_tag(nd, "vbool"), acc(nd, "vbool"))))
        if E.cur_contract is not None:
            for nm, g in E.cur_contract.requires(E, A):
                E.assume(g)
        if pre:
            pre(E, A, s)
        old = E.st.copy()
        try:
            E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            goal(E, old, s, A, "raise", p.ref)
            return
        rep.exits[0] += 1
        goal(E, old, s, A, "return", None)
    return body
