"""C04: what is put under a typed container is made to fit the declared type: contracts of the functions that check and convert"""
import enum
import typing
import pathlib
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import get, heap
from .common import *
from .contracts import *
from .mut import *
from .mut import SUBTREE, install_mut
from .pure import sym_args

FIT = "_fit"   # ghost: the type hint that the node was last checked against, or wrapped with


def u(E, n):
    return E.basefn("P_" + n, Val, B)


def any_(E):
    return E.term(K(typing.Any))


def opt(E, t):
    return E.basefn("OPT_FLAG", Val, B)(t)


def ref(E, t):
    return E.basefn("OPT_TYPE", Val, Val)(t)


def elem(E, t):
    return E.basefn("LIST_ELEMENT", Val, Val)(t)


def dkey(E, t):
    return E.basefn("DICT_KEY", Val, Val)(t)


def delem(E, t):
    return E.basefn("DICT_ELEMENT", Val, Val)(t)


def install_types(E):
    m = E.m
    E.assumptions.add("the functions that take a type annotation apart (_resolve_optional, get_list_element_type, get_dict_key_value_types) are pure "
                      "functions of it; Any resolves to (True, Any)")
    a = any_(E)
    E.fact(And(opt(E, a), ref(E, a) == a))
    E.fact(Not(Or(*[u(E, n)(a) for n in ("is_list_annotation", "is_dict_annotation", "is_tuple_annotation", "is_union_annotation", "is_structured_config")])))
    E.intrinsics[m.utils.get_list_element_type] = lambda E, x, k: elem(E, E.term(E.norm(x[0])))

    def kv(E, x, k):
        t = E.term(E.norm(x[0]))
        return Tup([dkey(E, t), delem(E, t)])
    E.intrinsics[m.utils.get_dict_key_value_types] = kv


def kinds(E, t):
    """an annotation is of at most one of these kinds"""
    ps = [u(E, n)(t) for n in ("is_list_annotation", "is_dict_annotation", "is_tuple_annotation", "is_union_annotation")]
    E.fact(And(*[Or(Not(a), Not(b)) for i, a in enumerate(ps) for b in ps[:i]]))


class Hint(DeepHint):
    def modifies(self, E, A):
        n = ref_of(E.term(A["node"]))
        for r in E.tree_top:
            E.fact(Not(BELOW(n, r)))
            E.fact(And(n != r, E.meta(n) != r, Implies(is_tag(E.getf(n, "_content"), "vref"), content_ref(E, n) != r)))
        new = lambda q: Or(q < 0, q >= E.A0)
        if E.tree_top:  # nothing that existed before the call lies below an object created in the call
            E.fact(Implies(new(n), And(Or(new(E.fsk[0]), Not(BELOW(n, E.fsk[0]))), new(E.meta(n)), Implies(is_tag(E.getf(n, "_content"), "vref"), new(content_ref(E, n))))))
        return super().modifies(E, A)

    doc =     """_deep_update_type_hint(node, hint): afterwards the node, and everything below it, fits the hint"""

    def ensures(self, E, A, old, res):
        if self.applying:
            n, h = ref_of(E.term(A["node"])), E.term(A["type_hint"])
            E.setf(n, FIT, If(h == any_(E), E.getf(n, FIT), h))
        return []

    applying = True


class Sub(Contract):
    """_deep_update_subnode(node, key, hint): afterwards the child at key fits the hint; the other children stay"""
    creates = True

    def result(self, E, A):
        return NONE

    def modifies(self, E, A):
        s = ref_of(E.term(A["node"]))
        return subtree(E, s)

    def ensures(self, E, A, old, res):
        n, h = E.term(A["node"]), E.term(A["value_type_hint"])
        o, i, k = E.fsk
        key = E.nkey(A["key"])
        islist = E.must(E.cls_term(ref_of(n)) == E.cid(E.m.listconfig.ListConfig))
        at = key == (Val.vint(i) if islist else k)
        s = ref_of(n)
        c = content_ref(E, s)
        # the entry at the key may be replaced
        v = E.fresh_val("entry")
        if islist:
            b = E.list_body(c)
            j = acc(key, "vint")
            E.wrote("LIST")
            E.st.f["LIST"] = StoreM(E.field("LIST"), c, LBody(b.n, lambda x: If(x == j, v, E.term(b.get(E, x)))))
        else:
            b = E.dict_body(c)
            E.wrote("DICT")
            E.st.f["DICT"] = StoreM(E.field("DICT"), c, DBody(b.has, lambda x: If(Eq(x, key), v, E.term(b.get(x))), b.n, b.keyat_))
        E.wrote("g:fit")
        E.st.g["fit"] = If(And(at, h == E.want), z3.IntVal(1), E.st.g["fit"])
        return [("a node", E.isnode(v)), ("what the content is stays", And(E.getf(s, "_content") == vref(c)))]

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class Shallow(Contract):
    """_shallow_validate_type_hint(node, hint)"""

    def ensures(self, E, A, old, res):
        E.wrote("g:shallow")
        E.st.g["shallow"] = If(And(E.term(A["node"]) == E.fits_node, E.term(A["type_hint"]) == E.fits_hint), z3.IntVal(1), E.st.g["shallow"])
        return []

    def result(self, E, A):
        return NONE

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


def base(E, skip):
    install_reads(E, skip=skip)
    install_makers(E, skip=[s for s in skip if isinstance(s, str)])
    install_mut(E, skip=skip)
    install_types(E)
    E.st.g["fit"] = z3.IntVal(0)
    E.tree_top = ()
    E.st.g["shallow"] = z3.IntVal(0)
    bc = E.m.basecontainer
    for f, c in ((bc._deep_update_type_hint, Hint), (bc._deep_update_subnode, Sub), (bc._shallow_validate_type_hint, Shallow)):
        if f not in skip:
            E.contracts[f] = c(f)


def special(E, r):
    """the container's content is None, missing or an interpolation"""
    return Not(is_tag(E.getf(r, "_content"), "vref"))


def hint_unit(E, cls):
    f = E.m.basecontainer._deep_update_type_hint

    def body(rep):
        base(E, (f,))
        v, s, mr = heap.node_at(E, "node", cls)
        h = E.any("type_hint")
        heap.frame_begin(E)
        o, i, k = E.fsk
        a = any_(E)
        rt = ref(E, h)
        kinds(E, rt)
        LC, DC = E.m.listconfig.ListConfig, E.m.dictconfig.DictConfig
        isl, isd = And(u(E, "is_list_annotation")(rt), z3.BoolVal(cls is LC)), And(u(E, "is_dict_annotation")(rt), z3.BoolVal(cls is DC))
        E.want = elem(E, rt) if cls is LC else delem(E, rt)
        E.fits_node, E.fits_hint = v, h

        def inv(E, env, st, j):
            if j is None or cls not in (LC, DC):
                return
            for f in ("ref_type", "optional", "element_type", "key_type"):
                with E.at(st):
                    v0 = E.getf(mr, f)
                yield ("its own %s stays" % f, E.getf(mr, f) == v0)
            for f in ("_metadata", "_content"):
                with E.at(st):
                    v0 = E.getf(s, f)
                yield ("its own %s stays" % f, E.getf(s, f) == v0)
            c = content_ref(E, s)
            with E.at(st):
                b0 = E.list_body(c) if cls is LC else E.dict_body(c)
            b = E.list_body(c) if cls is LC else E.dict_body(c)
            yield ("as many children", b.n == b0.n)
            if cls is DC:
                yield ("the same keys", b.has(k) == b0.has(k))
                yield ("in the same order", Implies(And(i >= 0, i < b.n), b.keyat(i) == b0.keyat(i)))
            with E.at(st):
                ms = DeepHint.modifies(None, E, {"node": v})
            for f in SUBTREE:
                with E.at(st):
                    om = E.field(f)
                new = E.field(f)
                yield ("only what lies below changes:" + f, Or(ms[f](o), E.same_at(f, om, new, o)))
            if cls is LC:
                yield ("the elements so far fit", Implies(And(i >= 0, i < j), E.st.g["fit"] == 1))
            else:
                b = E.dict_body(c)
                yield ("the children so far fit", Implies(And(i >= 0, i < j, k == b.keyat(i)), And(E.st.g["fit"] == 1, Or(dkey(E, rt) == a, E.isa_sym(k, acc(dkey(E, rt), "vtyp"))))))
        E.inv_cands = E.inv_cands + [inv]
        old = E.st.copy()
        mr = E.meta(s)
        try:
            E.run_fn(f, [v, h])
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(hint_frame(E, old, v))
            return
        rep.exits[0] += 1
        g = E.st.g
        gs = [("the node itself was checked against the hint", Or(h == a, g["shallow"] == 1)),
              ("its declared type is that of the hint", Or(h == a, And(E.getf(mr, "ref_type") == rt, E.getf(mr, "optional") == Val.vbool(opt(E, h))))),
              ("with Any nothing changes", Implies(h == a, And(*[g_ for n, g_ in E.frame_goals(old, {}, "")]) if E.frame_goals(old, {}, "") else TRUE))]
        if cls is LC:
            c = content_ref(E, s)
            b = E.list_body(c)
            gs += [("the element type is that of the hint", Implies(And(h != a, isl), E.getf(mr, "element_type") == E.want)),
                   ("every element was made to fit it", Implies(And(h != a, isl, Not(special(E, s)), i >= 0, i < b.n), g["fit"] == 1))]
        if cls is DC:
            c = content_ref(E, s)
            b = E.dict_body(c)
            gs += [("the element and the key type are those of the hint", Implies(And(h != a, isd), And(E.getf(mr, "element_type") == E.want, E.getf(mr, "key_type") == dkey(E, rt)))),
                   ("every value was made to fit it", Implies(And(h != a, isd, Not(special(E, s)), i >= 0, i < b.n, k == b.keyat(i)), g["fit"] == 1)),
                   ("every key is of the key type", Implies(And(h != a, isd, Not(special(E, s)), i >= 0, i < b.n, k == b.keyat(i)), Or(dkey(E, rt) == a, E.isa_sym(k, acc(dkey(E, rt), "vtyp")))))]
        E.prove_all(gs + hint_frame(E, old, v))
    return body


def hint_frame(E, old, v):
    with E.at(old):
        ms = DeepHint.modifies(None, E, {"node": v})
    return E.frame_goals(old, ms, "only declared types and what lies below change")


RTYPE = {"StringNode": str, "PathNode": pathlib.Path, "IntegerNode": int, "BytesNode": bytes, "FloatNode": float, "BooleanNode": bool}


def declared(E, n, cls, A):
    """the declared types of a new node are those given to its constructor"""
    mr = E.meta(n)
    N = E.m.nodes
    g = lambda f: E.getf(mr, f)
    name = cls.__name__
    out = []
    if name in RTYPE:
        out.append(("declared type of the class", g("ref_type") == Val.vtyp(E.cid(RTYPE[name]))))
    elif cls is N.EnumNode:
        out += [("declared type is the enum", g("ref_type") == E.term(A["enum_type"])), ("enum type as given", E.getf(n, "enum_type") == E.term(A["enum_type"]))]
    elif cls in (N.AnyNode, N.InterpolationResultNode):
        out.append(("declared type Any", g("ref_type") == any_(E)))
    else:
        rt = E.term(A["ref_type"])
        out.append(("declared type as given", Or(g("ref_type") == rt, And(z3.BoolVal(cls is not E.m.base.UnionNode), is_tag(rt, "vnone"), g("ref_type") == any_(E)))))
    if "is_optional" in A:
        out.append(("optional as given", g("optional") == E.term(A["is_optional"])))
    elif cls is not N.InterpolationResultNode:
        out.append(("optional", g("optional") == vbool(True)))
    if cls is E.m.dictconfig.DictConfig:
        out += [(f + " as given", g(f) == E.term(A[f])) for f in ("key_type", "element_type")]
    if cls is E.m.listconfig.ListConfig:
        out += [(f + " as given", g(f) == E.term(A[f])) for f in ("element_type",)]
    return out


class InitT(Init):
    """a constructor: the declared types are the ones given"""

    def ensures(self, E, A, old, res):
        return super().ensures(E, A, old, res) + declared(E, ref_of(E.term(A["self"])), self.cls, A)


class SetFlag(Contract):
    """_set_flag on a new node"""

    def modifies(self, E, A):
        m = E.meta(ref_of(A["self"]))
        fl = E.getf(m, "flags")
        E.assumptions.add("the flags table of a new node is None or a dict of its own")
        E.fact(Or(is_tag(fl, "vnone"), And(is_tag(fl, "vref"), Or(ref_of(fl) < 0, ref_of(fl) >= E.A0))))
        return {"flags": at_ref(m), "DICT": lambda q: And(is_tag(fl, "vref"), q == ref_of(fl))}

    def ghost(self, E, A):
        return ("fv",)

    def result(self, E, A):
        return NONE

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


def init_unit(E, cls):
    f = cls.__init__

    def body(rep):
        base(E, (f,) if False else ())
        E.contracts.pop(raw(f), None)
        args, A = sym_args(E, f, cls, {"self": lambda E: vref(E.alloc(cls)), "is_optional": lambda E: E.bool("is_optional"), "flags": no_flags})
        n = ref_of(A["self"])
        heap.frame_begin(E)
        if cls is E.m.dictconfig.DictConfig:
            E.contracts[raw(cls._set_flag)] = SetFlag(cls._set_flag)
        old = E.st.copy()
        try:
            E.run_fn(raw(f), args)
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {x: at_ref(n) for x in E.fields_of(cls)}, "no existing object changes"))
            return
        rep.exits[0] += 1
        E.prove_all(declared(E, n, cls, A) + Init(f, cls).ensures(E, A, old, NONE) + E.frame_goals(old, {x: at_ref(n) for x in E.fields_of(cls)}, "no existing object changes"))
    return body


def is_ty(E, t, c):
    return t == Val.vtyp(E.cid(c))


def fits(E, n, t, o, value):
    """the new node n is of the class that the declared type t asks for, with t (and optional o) as its declared type;
    (the case, what holds then)"""
    m, N = E.m, E.m.nodes
    u_ = lambda x: u(E, x)
    DC, LC, UN = E.cid(m.dictconfig.DictConfig), E.cid(m.listconfig.ListConfig), E.cid(m.base.UnionNode)
    c = E.cls_term(n)
    mr = E.meta(n)
    g = lambda f: E.getf(mr, f)
    own = And(Or(g("ref_type") == t, And(is_tag(t, "vnone"), g("ref_type") == any_(E))), g("optional") == o)
    a = any_(E)
    anyt = Or(t == a, is_tag(t, "vnone"))
    vd = And(is_tag(value, "vref"), E.cls_term(ref_of(value)) == E.cid(dict))
    struct_v = u_("is_structured_config")(value)
    out = []
    isd = u_("is_dict_annotation")(t)
    isl = Or(u_("is_list_annotation")(t), u_("is_tuple_annotation")(t))
    st = u_("is_structured_config")(t)
    un = u_("is_union_annotation")(t)
    out.append(("a dict annotation gives a mapping of that type", Implies(isd, And(c == DC, own, g("key_type") == dkey(E, t), g("element_type") == delem(E, t)))))
    out.append(("a list annotation gives a list of that type", Implies(And(Not(isd), isl), And(c == LC, own, g("element_type") == elem(E, t)))))
    out.append(("a structured config type gives a mapping of that type", Implies(And(Not(isd), Not(isl), st), And(c == DC, own))))
    cont = Or(isd, isl, st)
    out.append(("a union type gives a union node of that type", Implies(And(Not(cont), Not(struct_v), un), And(c == UN, own))))
    for k, cl in (("int", N.IntegerNode), ("float", N.FloatNode), ("bool", N.BooleanNode), ("str", N.StringNode), ("bytes", N.BytesNode)):
        ty = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes}[k]
        out.append(("%s gives a node of that class" % k, Implies(And(is_ty(E, t, ty), Not(struct_v)), And(c == E.cid(cl), own))))
    out.append(("Path gives a node of that class", Implies(And(is_ty(E, t, pathlib.Path), Not(struct_v)), And(c == E.cid(N.PathNode), own))))
    en = And(is_tag(t, "vtyp"), E.isa_cls(acc(t, "vtyp"), enum.Enum))
    out.append(("an enum type gives an enum node of that type", Implies(And(en, Not(struct_v)), And(c == E.cid(N.EnumNode), own, E.getf(n, "enum_type") == t))))
    out.append(("an untyped node is for untyped places only", Implies(And(c == E.cid(N.AnyNode), Not(anyt)), E.allow)))
    out.append(("a dict in an untyped place becomes a mapping", Implies(And(t == a, vd), c == DC)))
    # a structured value in a place of a type that is no config type is rejected or becomes a config of that declared type
    out.append(("a structured value keeps the declared type", Implies(And(Not(isd), Not(isl), struct_v), And(c == DC, own))))
    return out


def type_facts(E, t):
    """classes of values are no annotations of containers or unions"""
    kinds(E, t)
    names = ("is_list_annotation", "is_dict_annotation", "is_tuple_annotation", "is_union_annotation", "is_structured_config")
    cls = And(is_tag(t, "vtyp"), Or(*[acc(t, "vtyp") == E.cid(x) for x in (int, float, bool, str, bytes, type(None))], E.isa_cls(acc(t, "vtyp"), enum.Enum), E.isa_cls(acc(t, "vtyp"), pathlib.Path)))
    E.assumptions.add("a class of primitive values or an Enum class is no annotation of a container or union and no structured config class")
    co = E.cls_of(t)
    E.fact(Implies(is_tag(t, "vcst"), Not(Or(*[co == E.cid(x) for x in (int, float, bool, str, bytes, type(None))], E.isa_cls(co, enum.Enum), E.isa_cls(co, pathlib.Path)))))
    E.fact(Implies(t == any_(E), Not(E.isa_cls(acc(t, "vtyp"), enum.Enum))))
    E.fact(Implies(Or(cls, is_tag(t, "vnone")), Not(Or(*[u(E, n)(t) for n in names]))))
    E.fact(Implies(And(is_tag(t, "vtyp"), E.isa_cls(acc(t, "vtyp"), enum.Enum)), Not(Or(*[acc(t, "vtyp") == E.cid(x) for x in (int, float, bool, str, bytes, pathlib.Path)]))))


def node_wrap_unit(E, pre):
    f = E.m.oc._node_wrap

    def body(rep):
        base(E, ())
        del E.contracts[f]
        for c in E.node_classes:
            E.contracts[c.__init__] = InitT(c.__init__, c)
        args, A = sym_args(E, f, None, {"value": lambda E: not_a_node(E, "value"), "is_optional": lambda E: E.bool("is_optional")})
        heap.frame_begin(E)
        t, p = E.term(A["ref_type"]), E.term(A["parent"])
        type_facts(E, t)
        E.assumptions.add("a declared type is a class, a typing construct or None")
        E.assume(Or(is_tag(t, "vnone"), is_tag(t, "vtyp"), is_tag(t, "vcst")))
        E.assume(Or(t == any_(E), Not(E.pyeq(t, any_(E)))))
        v = E.term(A["value"])
        E.fact(Implies(u(E, "is_structured_config")(v), And(*[E.cls_of(v) != E.cid(x) for x in (list, tuple, dict)])))
        E.assume(pre(t))
        pr = ref_of(p)
        E.allow = FALSE if tag_of(p) == "vnone" else true_flag(E, pr, "allow_objects")
        old = E.st.copy()
        try:
            res = E.term(E.run_fn(f, args))
        except PyRaise as x:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "no existing object changes"))
            return
        rep.exits[0] += 1
        n = ref_of(res)
        anyt = Or(t == any_(E), is_tag(t, "vnone"))
        E.prove_all([("a new node", And(E.isnode(res), Or(n < 0, n >= old.hi))), ("parent as given", E.getf(n, "_parent") == p), ("key as given", E.getf(E.meta(n), "key") == E.term(A["key"]))]
                    + fits(E, n, t, E.term(A["is_optional"]), E.term(A["value"])) + E.frame_goals(old, {}, "no existing object changes"))
    return body


def shallow_unit(E, cls):
    f = E.m.basecontainer._shallow_validate_type_hint

    def body(rep):
        base(E, (f,))
        get.install_get(E)
        v, n, mr = heap.node_at(E, "node", cls)
        h = E.any("type_hint")
        heap.frame_begin(E)
        t, o = ref(E, h), opt(E, h)
        E.assume(Or(is_tag(t, "vnone"), is_tag(t, "vtyp"), is_tag(t, "vcst")))
        E.assumptions.add("a declared type is a class, a typing construct or None")
        type_facts(E, t)
        x = get.raw(E, n)
        old = E.st.copy()
        try:
            E.run_fn(f, [v, h])
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes"))
            return
        rep.exits[0] += 1
        m = E.m
        pl = get.plain(E, v)
        none = is_tag(pl, "vnone")
        val = Not(get.special(E, x))
        if cls is m.base.UnionNode:
            val = And(val, Not(none), Not(get.missing(E, pl)), Not(get.interp(E, pl)))
        gs = [("None only where the type is optional", Implies(none, o))]
        prim = And(is_tag(t, "vtyp"), Or(*[acc(t, "vtyp") == E.cid(c) for c in (int, float, bool, str, bytes)], E.isa_cls(acc(t, "vtyp"), enum.Enum), E.isa_cls(acc(t, "vtyp"), pathlib.Path)))
        isd, isl, st, un = [u(E, "is_" + n_)(t) for n_ in ("dict_annotation", "list_annotation", "structured_config", "union_annotation")]
        if issubclass(cls, m.nodes.ValueNode):
            gs.append(("the value is an instance of a primitive type", Implies(And(val, prim), E.isa_sym(x, acc(t, "vtyp")))))
            gs.append(("a bool is no int", Implies(And(val, t == Val.vtyp(E.cid(int))), Not(is_tag(x, "vbool")))))
            gs.append(("a value fits no container or union type", Implies(val, Not(Or(isd, isl, st, un)))))
        elif cls is m.base.UnionNode:
            gs.append(("a union node fits its own union type only", Implies(val, And(un, E.pyeq(E.getf(mr, "ref_type"), t)))))
        elif cls is m.listconfig.ListConfig:
            gs.append(("a list fits list types only", Implies(val, isl)))
        else:
            ot = E.getf(mr, "object_type")
            gs.append(("a mapping fits dict types and structured configs only", Implies(val, Or(isd, st))))
            gs.append(("a structured config is of a subclass of the declared one", Implies(And(val, st), And(is_tag(ot, "vtyp"), E.subcls(acc(ot, "vtyp"), acc(t, "vtyp"))))))
        E.prove_all(gs + E.frame_goals(old, {}, "nothing changes"))
    return body


class WrapT(Wrap):
    """_node_wrap, _maybe_wrap: the new node is made for the declared type (its units above)"""

    def ensures(self, E, A, old, res):
        out = super().ensures(E, A, old, res)
        n = ref_of(E.term(res))
        E.setf(n, "_fr", E.term(A["ref_type"]))
        E.setf(n, "_fo", E.term(A["is_optional"]))
        return out


class WrapSetT(WrapSet):
    """_wrap_value_and_set: the new child is made for the hint"""

    def ensures(self, E, A, old, res):
        out = super().ensures(E, A, old, res)
        s = ref_of(A["self"])
        key = E.nkey(A["key"])
        c = content_ref(E, s)
        if self.islist(E, s):
            b = E.list_body(c)
            j = acc(key, "vint")
            v = E.term(b.get(E, If(j < 0, j + b.n, j)))
        else:
            v = E.term(E.dict_body(c).get(key))
        E.setf(ref_of(v), FIT, E.term(A["type_hint"]))
        return out


def entry(E, s, islist, key):
    c = content_ref(E, s)
    return E.term(E.list_body(c).get(E, acc(key, "vint"))) if islist else E.term(E.dict_body(c).get(key))


def wrap_set_unit(E, cls):
    f = E.m.basecontainer.BaseContainer._wrap_value_and_set

    def body(rep):
        base(E, ())
        del E.contracts[f]
        E.contracts[E.m.oc._maybe_wrap] = WrapT(E.m.oc._maybe_wrap)
        c = E.all_mut[f]
        args, A = sym_args(E, f, cls, {"val": lambda E: not_a_node(E, "val")})
        s = ref_of(A["self"])
        heap.frame_begin(E)
        for nm, g in c.requires(E, A):
            E.assume(g)
        E.assume(is_tag(E.getf(s, "_content"), "vref"))
        old = E.st.copy()
        try:
            E.run_fn(f, args)
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(E.frame_goals(old, {}, "nothing changes when it raises"))
            return
        rep.exits[0] += 1
        h = E.term(A["type_hint"])
        islist = cls is E.m.listconfig.ListConfig
        key = E.nkey(A["key"])
        g = And(is_tag(key, "vint"), acc(key, "vint") >= 0) if islist else TRUE
        n = ref_of(entry(E, s, islist, key))
        E.prove_all([("the child is made for the hint", Implies(g, And(E.getf(n, "_fr") == ref(E, h), E.getf(n, "_fo") == Val.vbool(opt(E, h)))))])
    return body


def maybe_wrap_unit(E, node):
    f = E.m.oc._maybe_wrap

    def body(rep):
        base(E, ())
        del E.contracts[f]
        E.contracts[E.m.oc._node_wrap] = WrapT(E.m.oc._node_wrap)
        args, A = sym_args(E, f, None, {"value": (lambda E: E.node("value")) if node else lambda E: not_a_node(E, "value"), "is_optional": lambda E: E.bool("is_optional")})
        heap.frame_begin(E)
        old = E.st.copy()
        try:
            res = E.term(E.run_fn(f, args))
        except PyRaise:
            rep.exits[1] += 1
            E.prove("raises only without a node", z3.BoolVal(not node))
            return
        rep.exits[0] += 1
        n = ref_of(res)
        gs = [("parent as given", E.getf(n, "_parent") == E.term(A["parent"])), ("key as given", E.getf(E.meta(n), "key") == E.term(A["key"]))]
        if node:
            gs.append(("the node itself", res == E.term(A["value"])))
        else:
            gs += [("made for the declared type", And(E.getf(n, "_fr") == E.term(A["ref_type"]), E.getf(n, "_fo") == E.term(A["is_optional"])))] + E.frame_goals(old, {}, "no existing object changes")
        E.prove_all(gs)
    return body


def in_tree(E, top, child):
    """what lies below a child, the child itself, its metadata and its content lie below its parent container"""
    n = ref_of(child)
    E.assumptions.add("what lies below a child lies below its container, as do the child, its metadata and its content")
    o = E.fsk[0]
    for q in (n, E.meta(n)):
        E.fact(BELOW(top, q))
    E.fact(Implies(is_tag(E.getf(n, "_content"), "vref"), BELOW(top, content_ref(E, n))))
    E.fact(Implies(BELOW(n, o), BELOW(top, o)))


def sub_frame(E, old, s, e0, islist, key):
    """only what lies below the container changes, and its own entry at the key"""
    o, i, k = E.fsk
    with E.at(old):
        in_tree(E, s, e0)
        ms = subtree(E, s)
        c = content_ref(E, s)
    at = Val.vint(i) == key if islist else k == key
    ms[FIT] = lambda q: TRUE
    ms["LIST" if islist else "DICT"] = lambda q: Or(BELOW(s, q), And(q == c, at))
    return E.frame_goals(old, ms, "only what lies below the container changes, and the entry at the key")


def sub_unit(E, cls):
    f = E.m.basecontainer._deep_update_subnode

    def body(rep):
        from .ops import install_ops
        install_ops(E)
        install_types(E)
        bc = E.m.basecontainer
        E.contracts[bc._deep_update_type_hint] = Hint(bc._deep_update_type_hint)
        E.contracts[raw(bc.BaseContainer._wrap_value_and_set)] = WrapSetT(bc.BaseContainer._wrap_value_and_set)
        islist = cls is E.m.listconfig.ListConfig
        v, s, mr = heap.node_at(E, "node", cls)
        h = E.any("value_type_hint")
        k = E.int("key") if islist else E.any("key")
        heap.frame_begin(E)
        E.assume(is_tag(E.getf(s, "_content"), "vref"))
        key = E.nkey(k)
        if islist:
            b = E.list_body(content_ref(E, s))
            E.assume(And(acc(key, "vint") >= 0, acc(key, "vint") < b.n))
        else:
            nn, ok = get.norm(E, s, k)
            E.assume(And(ok, nn == E.term(k), E.dict_body(content_ref(E, s)).has(key), Not(E.isnode(E.term(k)))))
        e0 = entry(E, s, islist, key)
        E.fact(E.isnode(e0))
        E.assumptions.add("a container does not lie below its own child (the tree, C07)")
        E.tree_top = (s, mr, content_ref(E, s))
        old = E.st.copy()
        a = any_(E)
        try:
            E.run_fn(f, [v, k, h])
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all(sub_frame(E, old, s, e0, islist, key))
            return
        rep.exits[0] += 1
        e1 = entry(E, s, islist, key)
        n = ref_of(e1)
        i = E.fsk[1]
        gs = [("the child was checked against the hint, or made for it", Or(h == a, E.getf(n, FIT) == h)),
              ("an untyped child is replaced by one made for the hint", Implies(And(E.cls_term(n) == E.cid(E.m.nodes.AnyNode), h != a), Or(n < 0, n >= old.hi)))]
        E.prove_all(gs + sub_frame(E, old, s, e0, islist, key))
    return body


def set_item_unit(E, cls, mk, exact=False):
    """item assignment: afterwards the child at the key was checked against the element type or made for it, or it is the child
    that was there and took the value itself (its _set_value converts and checks)"""
    BC = E.m.basecontainer.BaseContainer
    f = BC._set_item_impl

    def body(rep):
        bc = E.m.basecontainer
        base(E, ())
        if exact:  # the structured config there gives the type: the exact contract of _get_node
            from .ops import install_ops
            install_ops(E)
            E.contracts[bc._deep_update_type_hint] = Hint(bc._deep_update_type_hint)
        E.contracts.pop(raw(f), None)
        c = E.all_mut[raw(f)]
        E.contracts[raw(BC._wrap_value_and_set)] = WrapSetT(BC._wrap_value_and_set)
        args, A = sym_args(E, f, cls, {"value": mk})
        s = ref_of(A["self"])
        islist = cls is E.m.listconfig.ListConfig
        heap.frame_begin(E)
        E.assumptions.add("the internal flag no_deepcopy_set_nodes is not set (only OmegaConf.unsafe_merge sets it)")
        nd = eff(E, s, "no_deepcopy_set_nodes")
        E.assume(Not(And(is_tag(nd, "vbool"), acc(nd, "vbool"))))
        for nm, g in c.requires(E, A):
            E.assume(g)
        E.assume(is_tag(E.getf(s, "_content"), "vref"))
        key = E.nkey(A["key"])
        if islist:
            E.assume(And(acc(key, "vint") >= 0, acc(key, "vint") < E.list_body(content_ref(E, s)).n))
        mr = E.meta(s)
        el = E.getf(mr, "element_type")
        kinds(E, ref(E, el))
        E.assumptions.add("a container does not lie below its own child (the tree, C07)")
        E.tree_top = (s, mr, content_ref(E, s))
        had = TRUE if islist else E.dict_body(content_ref(E, s)).has(key)
        t0 = entry(E, s, islist, key)
        E.fact(Implies(had, And(E.isnode(t0), ref_of(t0) != s, E.meta(ref_of(t0)) != mr)))
        v = E.term(A["value"])
        old = E.st.copy()
        try:
            E.run_fn(raw(f), args)
        except PyRaise:
            rep.exits[1] += 1
            E.prove("decided", TRUE)
            return
        rep.exits[0] += 1
        e1 = entry(E, s, islist, key)
        n = ref_of(e1)
        has = TRUE if islist else E.dict_body(content_ref(E, s)).has(key)
        kept = And(had, e1 == t0)
        fresh = And(Not(kept), Not(And(had, E.isnode(t0), u(E, "is_structured_config")(v))))
        E.prove_all([("there is a child at the key", And(has, E.isnode(e1))),
                     ("the child keeps the declared type of the place, or was made for or checked against the element type", Implies(fresh, Or(el == any_(E), E.getf(n, FIT) == el))),
                     ("the element type stays", E.getf(mr, "element_type") == el)])
    return body


def made_fit(E, A, e, h, t, struct=True):
    """the node e is the one that was there (h, t), or was made for or checked against the element type"""
    n = ref_of(e)
    el = E.getf(E.meta(ref_of(A["self"])), "element_type")
    sc = u(E, "is_structured_config")(E.term(A["value"])) if struct else FALSE
    return Or(And(h, n == t), And(h, sc), el == any_(E), E.getf(n, FIT) == el)


class SetItemT(SetItem):
    """_set_item_impl: the entry at the key is the node that was there or fits the element type (its units above)"""

    def modifies(self, E, A):
        s = ref_of(A["self"])
        h, t = self.entry(E, A)
        E.assumptions.add("a container does not lie below its own child (the tree, C07)")
        E.fact(Implies(h, And(t != s, E.meta(t) != E.meta(s))))
        return super().modifies(E, A)

    def ensures(self, E, A, old, res):
        out = super().ensures(E, A, old, res)
        s = ref_of(A["self"])
        with E.at(old):
            h, t = self.entry(E, A)
            islist = self.islist(E, s)
            b = E.list_body(content_ref(E, s)) if islist else None
        key = E.nkey(A["key"])
        g = And(is_tag(key, "vint"), acc(key, "vint") >= 0, acc(key, "vint") < b.n) if islist else TRUE
        out.append(("the entry fits the element type", Implies(g, made_fit(E, A, entry(E, s, islist, key), h, t))))
        return out


class AppendT(Append):
    def ensures(self, E, A, old, res):
        out = super().ensures(E, A, old, res)
        s = ref_of(A["self"])
        with E.at(old):
            n0 = E.list_body(content_ref(E, s)).n
        e = E.term(E.list_body(content_ref(E, s)).get(E, n0))
        out.append(("the new element fits the element type", made_fit(E, A, e, FALSE, z3.IntVal(0), struct=False)))
        return out


def assign_unit(E, fn, cls, over, struct=None):
    """whatever an operation puts into a container fits its element type: every child is afterwards one that existed before, or was
    made for or checked against the element type"""
    f = raw(fn)

    def body(rep):
        base(E, ())
        E.contracts.pop(f, None)
        BC, LC = E.m.basecontainer.BaseContainer, E.m.listconfig.ListConfig
        E.contracts[E.m.oc._maybe_wrap] = WrapT(E.m.oc._maybe_wrap)
        for g, c in ((BC._set_item_impl, SetItemT), (LC.append, AppendT)):
            if raw(g) is not f:
                E.contracts[raw(g)] = c(g)
        args, A = sym_args(E, fn, cls, over)
        s = ref_of(A["self"])
        islist = cls is LC
        heap.frame_begin(E)
        o, i, k = E.fsk
        E.assumptions.add("the internal flag no_deepcopy_set_nodes is not set (only OmegaConf.unsafe_merge sets it)")
        nd = eff(E, s, "no_deepcopy_set_nodes")
        E.assume(Not(And(is_tag(nd, "vbool"), acc(nd, "vbool"))))
        if struct:
            E.assumptions.add("a structured value is assigned under the declared type of the place (the unit of _set_item_impl)")
            E.assume(Not(u(E, "is_structured_config")(E.term(A[struct]))))
        mr = E.meta(s)
        el = E.getf(mr, "element_type")
        E.tree_top = (s, mr, content_ref(E, s))
        c0 = content_ref(E, s)

        def exists(e):
            E.fact(Implies(is_tag(e, "vref"), And(ref_of(e) >= 0, ref_of(e) < E.A0)))
        if islist:
            b0 = E.list_body(c0)
            for j in (i, acc(E.term(A["index"]), "vint") if "index" in A else i):
                exists(E.term(b0.get(E, If(j < 0, j + b0.n, j))))
        else:
            for q in (k, E.nkey(get.norm(E, s, A["key"])[0])):
                exists(E.term(E.dict_body(c0).get(q)))

        def good(b):
            e = E.term(b.get(E, i)) if islist else E.term(b.get(k))
            n = ref_of(e)
            at = And(i >= 0, i < b.n) if islist else b.has(k)
            return Implies(And(at, is_tag(e, "vref")), Or(And(n >= 0, n < E.A0), el == any_(E), E.getf(n, FIT) == el))

        def inv(E, env, st, j):
            yield ("every child is an old one or fits", good(E.list_body(c0) if islist else E.dict_body(c0)))
        E.inv_cands = E.inv_cands + [inv]
        try:
            E.run_fn(f, args)
        except PyRaise:
            rep.exits[1] += 1
            E.prove("decided", TRUE)
            return
        rep.exits[0] += 1
        v = E.getf(s, "_content")
        b = E.list_body(ref_of(v)) if islist else E.dict_body(ref_of(v))
        E.prove("every child is an old one, or was made for or checked against the element type", Implies(is_tag(v, "vref"), good(b)))
    return body


def assigners(E):
    LC, DC = E.m.listconfig.ListConfig, E.m.dictconfig.DictConfig
    return {"ListConfig.append": (LC.append, LC, {}), "ListConfig.insert": (LC.insert, LC, {}), "ListConfig.extend": (LC.extend, LC, {}),
            "ListConfig.__iadd__": (LC.__iadd__, LC, {}), "ListConfig.__setitem__[index]": (LC.__setitem__, LC, {"index": lambda E: E.int("index")}, "value"),
            "DictConfig.__setitem__": (DC.__setitem__, DC, {}, "value"), "DictConfig.__setattr__": (DC.__setattr__, DC, {}, "value"),
            "DictConfig.setdefault": (DC.setdefault, DC, {}, "default")}


def units(E):
    out = []
    for n, a in assigners(E).items():
        out.append((n + ": what it puts in fits the element type", assign_unit(E, *a)))
    ks = {"a value node": lambda E: E.node("value", E.value_classes), "a container": lambda E: E.node("value", E.container_classes),
          "a union node": lambda E: E.node("value", [E.m.base.UnionNode]), "not a node": lambda E: not_a_node(E, "value")}
    for c in (E.m.listconfig.ListConfig, E.m.dictconfig.DictConfig):
        for kn, mk in ks.items():
            out.append(("BaseContainer._set_item_impl[%s; the value is %s]: fits the element type" % (c.__name__, kn), set_item_unit(E, c, mk, kn == "not a node")))
    LC, DC, UN = E.m.listconfig.ListConfig, E.m.dictconfig.DictConfig, E.m.base.UnionNode
    for c in [LC, DC, UN] + E.value_classes:
        out.append(("_deep_update_type_hint[%s]" % c.__name__, hint_unit(E, c)))
    for c in [LC, DC, UN] + E.value_classes:
        out.append(("%s.__init__" % c.__name__, init_unit(E, c)))
    P = lambda *n: lambda t: Or(*[u(E, "is_%s_annotation" % x)(t) for x in n])
    isst = lambda t: u(E, "is_structured_config")(t)
    prim = lambda *cs: lambda t: Or(*[is_ty(E, t, c) for c in cs])
    isen = lambda t: And(is_tag(t, "vtyp"), E.isa_cls(acc(t, "vtyp"), enum.Enum))
    isany = lambda t: Or(t == any_(E), is_tag(t, "vnone"))
    pr1, pr2 = prim(int, float, bool), prim(str, bytes, pathlib.Path)
    cont = P("dict", "list", "tuple")
    cases = {"a dict annotation": P("dict"), "a list or tuple annotation": P("list", "tuple"), "a structured config": lambda t: And(Not(cont(t)), isst(t)),
             "a union": lambda t: And(P("union")(t), Not(isst(t))), "an enum": isen, "int, float or bool": pr1, "str, bytes or Path": pr2, "Any": isany}
    allc = list(cases.values())
    cases["anything else"] = lambda t: Not(Or(*[c(t) for c in allc]))
    for n, c in cases.items():
        out.append(("_node_wrap[the type is %s]" % n, node_wrap_unit(E, c)))
    for c in [LC, DC, UN] + E.value_classes:
        out.append(("_shallow_validate_type_hint[%s]" % c.__name__, shallow_unit(E, c)))
    for c in (LC, DC):
        out.append(("BaseContainer._wrap_value_and_set[%s]: made for the hint" % c.__name__, wrap_set_unit(E, c)))
        out.append(("_deep_update_subnode[%s]" % c.__name__, sub_unit(E, c)))
    out += [("_maybe_wrap[not a node]", maybe_wrap_unit(E, False)), ("_maybe_wrap[a node]", maybe_wrap_unit(E, True))]
    return out
