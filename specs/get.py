"""functional contracts of reading by key or index (C02, C13, C15, C19): what is returned, and when it raises"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.oc import Contract
from . import heap
from .common import *
from .contracts import *
from .mut import content_ref
from .pure import sym_args

NORM = z3.Function("NORM", Val, Val, Val)   # key type, key -> normalised key
NOK = z3.Function("NOK", Val, Val, B)       # the key is of the key type


def norm(E, s, key):
    """the normalised key and whether it is valid, for the mapping at s"""
    return nrm(E, E.getf(E.meta(s), "key_type"), key)


def nrm(E, kt, key):
    k = E.term(key)
    n, ok = NORM(kt, k), NOK(kt, k)
    E.fact(Implies(ok, And(NORM(kt, n) == n, NOK(kt, n), Or(is_tag(n, "vbool"), E.nkey(n) == n), good_key(E, n))))
    E.fact(Implies(And(ok, Or(kt == E.term(K(ANY)), *[kt == Val.vtyp(E.cid(t)) for t in (str, int, float, bytes)])), n == k))
    # an object among the keys is an enum member (older than the call)
    E.fact(Implies(And(ok, is_tag(n, "vref")), And(ref_of(n) >= 0, ref_of(n) < E.A0)))
    return n, ok


def good_key(E, n):
    """the keys of mappings: scalars and enum members"""
    return Or(*[is_tag(n, t) for t in ("vbool", "vint", "vflt", "vstr", "vbyt")], And(Or(is_tag(n, "vref"), is_tag(n, "vcst")), E.isa_cls(E.cls_of(n), enum.Enum)))


def good_key_type(E, kt):
    """the key types of mappings"""
    return Or(kt == E.term(K(ANY)), *[kt == Val.vtyp(E.cid(t)) for t in PRIM], And(is_tag(kt, "vtyp"), E.isa_cls(acc(kt, "vtyp"), enum.Enum),
              *[acc(kt, "vtyp") != E.cid(t) for t in PRIM]))


PRIM = (str, bytes, int, float, bool)


import enum
import typing
ANY = typing.Any


def raw(E, n):
    """what the node holds: _val of a value node, _content of a box"""
    c = E.cls_term(n)
    box = Or(*[c == E.cid(k) for k in E.box_classes])
    return If(box, E.getf(n, "_content"), E.getf(n, "_val"))


def missing(E, v):
    return v == vstr("???")


def interp(E, v):
    return And(is_tag(v, "vstr"), z3.Contains(acc(v, "vstr"), strlit("${")))


def special(E, v):
    return Or(is_tag(v, "vnone"), missing(E, v), interp(E, v))


def isunion(E, n):
    return E.cls_term(n) == E.cid(E.m.base.UnionNode)


def inner(E, v):
    """the node itself, or the value node inside a union node that holds one"""
    n = ref_of(v)
    x = E.getf(n, "_content")
    return If(And(is_tag(v, "vref"), isunion(E, n), Not(special(E, x))), x, v)


def plain(E, v):
    """the value of a node that is neither missing nor an interpolation: what a value node or a union holds, None, or the container"""
    n = ref_of(v)
    x = raw(E, n)
    box = Or(*[E.cls_term(n) == E.cid(k) for k in E.container_classes])
    sp = special(E, x)
    return If(And(box, Not(sp)), v, If(And(isunion(E, n), Not(sp)), E.getf(ref_of(x), "_val"), x))


def isdict(E, s):
    c = E.cls_term(s)
    if E.must(c == E.cid(E.m.dictconfig.DictConfig)):
        return True
    if E.must(c == E.cid(E.m.listconfig.ListConfig)):
        return False
    raise Unsupported("class of the container")


def boolarg(E, A, n):
    v = E.term(A[n])
    return acc(v, "vbool")


def own_flag(E, s, name):
    d = E.dict_body(ref_of(E.getf(E.meta(s), "flags")))
    k = vstr(name)
    return If(d.has(k), d.get(k), NONE)


def vtyp(E, t):
    return Val.vtyp(E.cid(t))


TYPED = z3.Function("TYPED", Val, B)   # the mapping is a structured config: a function of its object type


def typed(E, s):
    ot = E.getf(E.meta(s), "object_type")
    E.fact(Implies(TYPED(ot), And(is_tag(ot, "vtyp"), ot != vtyp(E, dict))))
    return TYPED(ot)


class IsTyped(Contract):
    """DictConfig._is_typed: whether the object type is a class other than dict's, depends on nothing else"""
    can_raise = False

    def result(self, E, A):
        return Val.vbool(typed(E, ref_of(E.term(A["self"]))))


def struct(E, s):
    """the mapping is in struct mode: the flag is effectively set, or it is a structured config whose own flag is not cleared"""
    o = own_flag(E, s, "struct")
    E.fact(Implies(Not(is_tag(o, "vnone")), eff(E, s, "struct") == o))  # the node's own setting wins (C06)
    return And(o != vbool(False), Or(true_flag(E, s, "struct"), typed(E, s)))


def content_is_dict(E, s):
    return is_tag(E.getf(s, "_content"), "vref")


class Pure(Reads):
    """a reading operation with its own clauses"""

    def __init__(self, fn):
        super().__init__(fn)

    def modifies(self, E, A):
        return {}


class NormKey(Pure):
    """_s_validate_and_normalize_key(key_type, key)"""
    creates = False

    def nrm(self, E, A):
        return nrm(E, E.term(A["key_type"]), A["key"])

    def may_return(self, E, A, old):
        return self.nrm(E, A)[1]

    def may_raise(self, E, A, old):
        return Not(self.nrm(E, A)[1])

    def result(self, E, A):
        return self.nrm(E, A)[0]

    def ensures(self, E, A, old, res):
        return []

    def raises(self, E, A, old, exc):
        c = E.cls_term(exc)
        return [("KeyValidationError", E.isa_cls(c, E.m.errors.KeyValidationError))]


class ValidateGet(Pure):
    """DictConfig._validate_get(key): in struct mode it returns only for keys that are there"""

    def ok(self, E, A):
        s = ref_of(E.term(A["self"]))
        return Or(E.dict_body(content_ref(E, s)).has(E.nkey(A["key"])), Not(struct(E, s)))

    def requires(self, E, A):
        s = ref_of(E.term(A["self"]))
        n, ok = norm(E, s, A["key"])
        return [("the key is normalised", And(ok, n == E.term(A["key"])))]

    def may_return(self, E, A, old):
        return Or(self.nodict(E, A), self.ok(E, A))

    def may_raise(self, E, A, old):
        return Or(self.nodict(E, A), Not(self.ok(E, A)))

    def nodict(self, E, A):
        return Not(content_is_dict(E, ref_of(E.term(A["self"]))))

    def result(self, E, A):
        return NONE

    def ensures(self, E, A, old, res):
        return []

    def raises(self, E, A, old, exc):
        return [("ConfigAttributeError", Implies(content_is_dict(E, ref_of(E.term(A["self"]))), E.isa_cls(E.cls_term(exc), E.m.errors.ConfigAttributeError))),
                ("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class ValidateGetL(Pure):
    """ListConfig._validate_get: accepts every integer"""

    def __init__(self, fn):
        super().__init__(fn)
        self.ret = "none"

    def may_return(self, E, A, old):
        k = E.term(A["key"])
        return Not(Or(*[is_tag(k, t) for t in ("vnone", "vstr", "vflt", "vbyt", "vtyp")]))

    def may_raise(self, E, A, old):
        k = E.term(A["key"])
        return Not(Or(is_tag(k, "vint"), is_tag(k, "vbool")))

    def raises(self, E, A, old, exc):
        return [("KeyValidationError", E.isa_cls(E.cls_term(exc), E.m.errors.KeyValidationError)), ("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class GetNodeD(Pure):
    """DictConfig._get_node"""
    child = False

    def parts(self, E, A):
        s = ref_of(E.term(A["self"]))
        n, ok = norm(E, s, A["key"])
        b = E.dict_body(content_ref(E, s))
        nk = E.nkey(n)
        has = b.has(nk)
        v = E.term(b.get(nk))
        a = {x: boolarg(E, A, x) for x in ("validate_access", "validate_key", "throw_on_missing_value", "throw_on_missing_key")}
        ms = And(has, missing(E, raw(E, ref_of(v))))
        bad1 = And(Not(ok), Or(And(a["validate_access"], a["validate_key"]), a["throw_on_missing_key"]))
        bad2 = And(ok, a["validate_access"], Not(has), struct(E, s))
        bad3 = And(ok, Not(has), a["throw_on_missing_key"])
        bad4 = And(ok, ms, a["throw_on_missing_value"])
        return s, n, ok, has, v, a, bad1, bad2, bad3, bad4

    def nodict(self, E, A):
        return Not(content_is_dict(E, ref_of(E.term(A["self"]))))

    def may_return(self, E, A, old):
        p = self.parts(E, A)
        return Or(self.nodict(E, A), Not(Or(*p[6:])))

    def may_raise(self, E, A, old):
        p = self.parts(E, A)
        return Or(self.nodict(E, A), Or(*p[6:]))

    def result(self, E, A):
        s, n, ok, has, v, a = self.parts(E, A)[:6]
        nd = self.nodict(E, A)
        if E.choose([Not(nd), nd]) == 1:
            return E.fresh_val("node")
        r = If(And(ok, has), inner(E, v) if self.child else v, NONE)
        return r

    def ensures(self, E, A, old, res):
        s, n, ok, has, v, a = self.parts(E, A)[:6]
        res = E.term(res)
        nd = self.nodict(E, A)
        kind = ("a node or None", Or(E.isnode(res), is_tag(res, "vnone")))
        if self.applying:
            return [kind, ("a node", Implies(And(Not(nd), ok, has), E.isnode(res)))]
        return [kind, ("the node at the key", Implies(And(Not(nd), ok, has), res == (inner(E, v) if self.child else v))),
                ("None without one", Implies(And(Not(nd), Not(And(ok, has))), is_tag(res, "vnone")))]

    applying = True

    def raises(self, E, A, old, exc):
        c = E.cls_term(exc)
        er = E.m.errors
        with E.at(old):
            s, n, ok, has, v, a, b1, b2, b3, b4 = self.parts(E, A)
            cd = Not(self.nodict(E, A))
        b1, b2, b3, b4 = [And(cd, b) for b in (b1, b2, b3, b4)]
        return [("an exception", E.isa_cls(c, Exception)), ("an error of a key", Implies(And(b1, a["validate_access"], a["validate_key"]), E.isa_cls(c, er.KeyValidationError))),
                ("an attribute error", Implies(Or(And(b1, Not(And(a["validate_access"], a["validate_key"]))), b2), E.isa_cls(c, er.ConfigAttributeError))),
                ("a key error", Implies(And(b3, Not(b2)), E.isa_cls(c, er.ConfigKeyError))),
                ("a missing value error", Implies(And(b4), E.isa_cls(c, er.MissingMandatoryValue)))]


class GetChildD(GetNodeD):
    child = True


class GetNodeL(Pure):
    """ListConfig._get_node for an integer index of a list: the element, or an index error (None without access validation)"""
    child = False

    def parts(self, E, A):
        s = ref_of(E.term(A["self"]))
        k = E.nkey(A["key"])
        ex = And(content_is_dict(E, s), is_tag(k, "vint"))
        b = E.list_body(content_ref(E, s))
        i = acc(k, "vint")
        j = If(i < 0, i + b.n, i)
        inr = And(i >= -b.n, i < b.n)
        v = E.term(b.get(E, j))
        E.fact(Implies(And(ex, inr), E.isnode(v)))  # representation: elements are nodes
        ms = And(inr, missing(E, raw(E, ref_of(v))), boolarg(E, A, "throw_on_missing_value"))
        return ex, inr, v, ms, boolarg(E, A, "validate_access")

    def may_return(self, E, A, old):
        ex, inr, v, ms, va = self.parts(E, A)
        return Implies(ex, And(Not(ms), Or(inr, Not(va))))

    def may_raise(self, E, A, old):
        ex, inr, v, ms, va = self.parts(E, A)
        return Implies(ex, Or(ms, And(Not(inr), va)))

    def result(self, E, A):
        ex, inr, v, ms, va = self.parts(E, A)
        if E.choose([ex, Not(ex)]) == 0:
            return If(inr, inner(E, v) if self.child else v, NONE)
        return E.fresh_val("nodes")

    def ensures(self, E, A, old, res):
        ex, inr, v, ms, va = self.parts(E, A)
        res = E.term(res)
        if self.applying:
            return [("a node", Implies(And(ex, inr), E.isnode(res)))]
        return [("the element at the index", Implies(And(ex, inr), res == (inner(E, v) if self.child else v))), ("None out of range", Implies(And(ex, Not(inr)), is_tag(res, "vnone")))]

    applying = True

    def raises(self, E, A, old, exc):
        c = E.cls_term(exc)
        with E.at(old):
            ex, inr, v, ms, va = self.parts(E, A)
        er = E.m.errors
        return [("an exception", E.isa_cls(c, Exception)), ("an index error", Implies(And(ex, Not(inr)), E.isa_cls(c, er.ConfigIndexError))),
                ("a missing value error", Implies(And(ex, ms), E.isa_cls(c, er.MissingMandatoryValue)))]


class GetChildL(GetNodeL):
    child = True


class GetChild(Contract):
    """BaseContainer._get_child: as _get_node, and the value node inside a union node that holds one"""

    def __init__(self, fn):
        super().__init__(fn)
        self.d = GetChildD(fn)
        self.l = GetChildL(fn)

    def apply(self, E, args, kwargs):
        s = E.term(args[0])
        return (self.d if isdict(E, ref_of(s)) else self.l).apply(E, args, kwargs)


CONF = z3.Function("CONF", I, I, B)   # values of this class are values of the declared type of the value node (or None, for an optional one)


def typed_value(E, v):
    """a value node with a declared type"""
    c = E.cls_term(ref_of(v))
    return And(is_tag(v, "vref"), Or(*[c == E.cid(k) for k in E.value_classes if k is not E.m.nodes.AnyNode]))


def get_value(E, v):
    """_get_value(v)"""
    n = ref_of(v)
    c = E.cls_term(n)
    x = raw(E, n)
    sp = special(E, x)
    con = Or(*[c == E.cid(k) for k in E.container_classes])
    val = Or(*[c == E.cid(k) for k in E.value_classes])
    return If(Not(E.isnode(v)), v, If(con, If(sp, x, v), If(val, x, If(sp, x, E.getf(ref_of(x), "_val")))))


def conforms(E, value, res):
    """the value of the resolved node is one of the declared type of the node"""
    return Implies(typed_value(E, value), CONF(ref_of(value), E.cls_of(get_value(E, res))))


class MaybeRes(Reads):
    """_maybe_resolve_interpolation: a node that is no interpolation as it is; None only for an interpolation that may fail silently"""

    def it(self, E, A):
        return interp(E, raw(E, ref_of(E.term(A["value"]))))

    def throws(self, E, A):
        return boolarg(E, A, "throw_on_resolution_failure")

    def requires(self, E, A):
        out = [("the value is a node", E.isnode(E.term(A["value"])))]
        m = E.norm(A["memo"])
        if self.applying and isinstance(m, z3.ExprRef) and tag_of(m) != "vnone":
            # the measure of the recursion: the nodes whose resolution is not under way
            v = E.term(E.bi_id([A["value"]], {}))
            out.append(("the node is marked as being resolved", Implies(is_tag(m, "vref"), E.dict_body(ref_of(m)).has(E.nkey(v)))))
        return out

    applying = True

    def may_raise(self, E, A, old):
        return self.it(E, A)

    def result(self, E, A):
        if E.choose([self.it(E, A), Not(self.it(E, A))]) == 0:
            return E.fresh_val("resolved")
        return E.term(A["value"])

    def ensures(self, E, A, old, res):
        res = E.term(res)
        with E.at(old):
            it, th = self.it(E, A), self.throws(E, A)
        return [("a node or None", Or(is_tag(res, "vnone"), E.isnode(res))), ("a node that is no interpolation stays", Implies(Not(it), res == E.term(A["value"]))),
                ("None only when failures are silent", Implies(th, E.isnode(res))),
                ("a value of the declared type", Implies(And(it, E.isnode(res)), conforms(E, E.term(A["value"]), res)))]

    def raises(self, E, A, old, exc):
        c = E.cls_term(exc)
        with E.at(old):
            th = self.throws(E, A)
        er = E.m.errors
        return [("a grammar or interpolation error", Or(*[E.isa_cls(c, k) for k in (er.InterpolationResolutionError, er.GrammarParseError)]))]


class ResTree(Reads):
    """_resolve_interpolation_from_parse_tree and _validate_and_convert_interpolation_result: None exactly for failures that may be silent"""

    def throws(self, E, A):
        return boolarg(E, A, "throw_on_resolution_failure")

    def may_raise(self, E, A, old):
        return self.throws(E, A)

    def ensures(self, E, A, old, res):
        res = E.term(res)
        with E.at(old):
            th = self.throws(E, A)
        return [("a node or None", Or(is_tag(res, "vnone"), E.isnode(res))), ("None only when failures are silent", Implies(th, E.isnode(res))),
                ("a value of the declared type", Implies(E.isnode(res), conforms(E, E.term(A["value"]), res)))]

    def raises(self, E, A, old, exc):
        return [("an interpolation error", E.isa_cls(E.cls_term(exc), E.m.errors.InterpolationResolutionError))]


class Deref(Reads):
    """_dereference_node, _maybe_dereference_node, _dereference_node_impl: a node that is no interpolation gives itself; the memo is as before"""

    def it(self, E, A):
        v = E.term(A["self"])
        return And(interp(E, raw(E, ref_of(v))), E.cls_term(ref_of(v)) != E.cid(E.m.nodes.InterpolationResultNode))

    def throws(self, E, A):
        return boolarg(E, A, "throw_on_resolution_failure") if "throw_on_resolution_failure" in A else TRUE

    def may_raise(self, E, A, old):
        return self.it(E, A)

    def result(self, E, A):
        if E.choose([self.it(E, A), Not(self.it(E, A))]) == 0:
            return E.fresh_val("resolved")
        return E.term(A["self"])

    def ensures(self, E, A, old, res):
        res = E.term(res)
        with E.at(old):
            it, th = self.it(E, A), self.throws(E, A)
        return [("a node or None", Or(is_tag(res, "vnone"), E.isnode(res))), ("None only when failures are silent", Implies(th, E.isnode(res))),
                ("a node that is no interpolation stays", Implies(Not(it), res == E.term(A["self"]))),
                ("a value of the declared type", Implies(And(it, E.isnode(res)), conforms(E, E.term(A["self"]), res)))]

    def raises(self, E, A, old, exc):
        c = E.cls_term(exc)
        er = E.m.errors
        return [("a grammar or interpolation error", Or(*[E.isa_cls(c, k) for k in (er.InterpolationResolutionError, er.GrammarParseError)]))]


UP = z3.Function("UP", Val, I, Val)        # the container this many containers up
DOTS = z3.Function("DOTS", S, I)           # leading dots
REST = z3.Function("REST", S, S)           # the text after them


def up(E, v, n):
    """unfold UP at v (one step of its definition)"""
    E.fact(UP(v, 0) == v)
    p = pcont(E, v)
    E.fact(Implies(n > 0, UP(v, n) == UP(p, n - 1)))
    E.fact(UP(p, 0) == p)
    E.fact(Implies(And(n > 0, is_tag(p, "vnone")), UP(p, n - 1) == NONE))
    return UP(v, n)


def pcont(E, v):
    """the parent container of a node: its parent, or the parent of the union around it; above None there is None"""
    r = ref_of(v)
    p = E.getf(r, "_parent")
    return If(is_tag(v, "vref"), If(And(is_tag(p, "vref"), isunion(E, ref_of(p))), E.getf(ref_of(p), "_parent"), p), NONE)


def dots(E, k):
    d = z3.PrefixOf(strlit("."), k)
    k1 = z3.SubString(k, 1, z3.Length(k) - 1)
    E.fact(DOTS(k) >= 0)
    E.fact(DOTS(k1) >= 0)
    E.fact(If(d, And(DOTS(k) == DOTS(k1) + 1, REST(k) == REST(k1), DOTS(k1) >= 0), And(DOTS(k) == 0, REST(k) == k)))
    return DOTS(k)


class KeyRoot(Reads):
    """_resolve_key_and_root(key): n leading dots go n-1 containers up from self, and are dropped; without a dot the key starts at the root"""

    def ensures(self, E, A, old, res):
        a, b = [E.term(x) for x in res.items]
        k = acc(E.term(A["key"]), "vstr")
        n = dots(E, k)
        return [("root is a container", E.isnode(a, E.container_classes)), ("the key without its dots", b == Val.vstr(REST(k))),
                ("n leading dots go n-1 containers up", Implies(n > 0, a == UP(E.term(A["self"]), n - 1)))]

    def raises(self, E, A, old, exc):
        k = acc(E.term(A["key"]), "vstr")
        n = dots(E, k)
        return [("a key error", E.isa_cls(E.cls_term(exc), E.m.errors.ConfigKeyError)),
                ("only above the root", And(n > 0, is_tag(UP(E.term(A["self"]), n - 1), "vnone")))]


class Root(Reads):
    """_get_root: a container without a parent; never fails on a container"""
    creates = False

    def may_raise(self, E, A, old):
        return Not(E.isnode(E.term(A["self"]), E.container_classes))

    def ensures(self, E, A, old, res):
        return super().ensures(E, A, old, res) + [("has no parent", is_tag(E.getf(ref_of(E.term(res)), "_parent"), "vnone"))]


class NodeInter(Reads):
    """_resolve_node_interpolation: a node; the memo is as before"""


class OwnFlag(GetFlag):
    """_get_flag; the node's own setting wins (proved for C06)"""

    def result(self, E, A):
        v = super().result(E, A)
        f = E.term(A["flag"])
        r = ref_of(E.term(A["self"]))
        d = E.dict_body(ref_of(E.getf(E.meta(r), "flags")))
        k = E.nkey(f)
        E.fact(Implies(And(d.has(k), Not(is_tag(d.get(k), "vnone"))), v == d.get(k)))
        E.assumptions.add("the internal flag convert is set on union nodes only")
        E.fact(Implies(And(E.cls_term(r) == E.cid(E.m.nodes.InterpolationResultNode), f == vstr("convert")), v != vbool(False)))
        return v


class Convert(Reads):
    """ValueNode.validate_and_convert: every failure is a validation error, and the result is a value of the declared type (proved for C03
    on every class)"""

    def ensures(self, E, A, old, res):
        return [("a value of the declared type", CONF(ref_of(E.term(A["self"])), E.cls_of(E.term(res))))]

    def raises(self, E, A, old, exc):
        E.assumptions.add("no class is both a ValidationError and an AssertionError")
        E.fact(Implies(E.isa_cls(E.cls_term(exc), E.m.errors.ValidationError), Not(E.isa_cls(E.cls_term(exc), AssertionError))))
        return [("a validation error", E.isa_cls(E.cls_term(exc), E.m.errors.ValidationError))]


class ResultNode(Init):
    """InterpolationResultNode(value, key, parent): always succeeds, and holds the value"""

    def requires(self, E, A):
        p = E.term(A["parent"])
        return [("the parent is a node or None", Or(is_tag(p, "vnone"), E.isnode(p, E.box_classes)))]

    def may_raise(self, E, A, old):
        return FALSE

    def ensures(self, E, A, old, res):
        s = ref_of(E.term(A["self"]))
        return super().ensures(E, A, old, res) + [("holds the value", E.getf(s, "_val") == E.term(A["value"]))]


class ParseTree(Reads):
    """resolve_parse_tree: every failure is an interpolation error"""

    def ensures(self, E, A, old, res):
        return []

    def raises(self, E, A, old, exc):
        return [("an interpolation error", E.isa_cls(E.cls_term(exc), E.m.errors.InterpolationResolutionError))]


class Resolve(Pure):
    """_resolve_with_default(key, value, default): the default exactly when the value is missing and there is one; the value of a node that is
    no interpolation is what it holds; such a node never fails to resolve"""

    def parts(self, E, A):
        v = E.term(A["value"])
        x = raw(E, ref_of(v))
        d = E.norm(A["default_value"])
        nodef = E.ident(d, K(E.m.basecontainer._DEFAULT_MARKER_))
        return v, missing(E, x), interp(E, x), d, nodef

    def requires(self, E, A):
        v = E.term(A["value"])
        return [("the value is a node", E.isnode(v))]

    def may_return(self, E, A, old):
        v, ms, it, d, nd = self.parts(E, A)
        return Not(And(ms, nd))

    def may_raise(self, E, A, old):
        v, ms, it, d, nd = self.parts(E, A)
        return Or(And(ms, nd), And(Not(ms), it))

    def result(self, E, A):
        v, ms, it, d, nd = self.parts(E, A)
        i = E.choose([And(ms, Not(nd)), And(Not(ms), Not(it)), And(Not(ms), it)])
        if i == 0:
            return d
        if i == 1:
            return plain(E, v)
        return E.fresh_val("resolved")

    def ensures(self, E, A, old, res):
        v, ms, it, d, nd = self.parts(E, A)
        res = E.term(res)
        if self.applying:
            return [("an interpolation of a typed node yields a value of its type", Implies(And(Not(ms), it, typed_value(E, v)), CONF(ref_of(v), E.cls_of(res))))]
        return [("the default for a missing value", Implies(ms, And(Not(nd), res == E.term(d)))),
                ("the value itself unless it is an interpolation", Implies(And(Not(ms), Not(it)), res == plain(E, v))),
                ("an interpolation of a typed node yields a value of its type", Implies(And(Not(ms), it, typed_value(E, v)), CONF(ref_of(v), E.cls_of(res))))]

    applying = True

    def raises(self, E, A, old, exc):
        with E.at(old):
            v, ms, it, d, nd = self.parts(E, A)
        c = E.cls_term(exc)
        er = E.m.errors
        return [("an Exception", E.isa_cls(c, Exception)), ("a missing value error", Implies(ms, E.isa_cls(c, er.MissingMandatoryValue))),
                ("a grammar or interpolation error", Implies(Not(ms), Or(E.isa_cls(c, er.InterpolationResolutionError), E.isa_cls(c, er.GrammarParseError))))]


def install_union(E):
    """representation facts of union nodes: the content is None, the missing marker, an interpolation, or a value node holding none of these"""
    if getattr(E, "_union_facts", False):
        return
    E._union_facts = True
    E.assumptions.add("a union node holds None, the missing marker, an interpolation, or a value node that holds none of these")

    def on_content(E, a, v):
        u = isunion(E, a[0])
        E.fact(Implies(And(u, is_tag(v, "vstr")), special(E, v)))
        # containers: None, the missing marker, an interpolation, or their dict or list
        E.fact(Implies(And(Not(u), is_tag(v, "vstr"), Or(*[E.cls_term(a[0]) == E.cid(k) for k in E.container_classes])), special(E, v)))
        E.fact(Implies(And(u, is_tag(v, "vref")), Not(special(E, E.base_map("_val").read(E, ref_of(v))))))
    E.base_read_hooks.setdefault("_content", []).append(on_content)
    E.assumptions.add("only value nodes have a union node as parent")

    def on_parent(E, a, v):
        c = E.cls_term(a[0])
        box = Or(*[c == E.cid(k) for k in E.box_classes])
        E.fact(Implies(And(box, is_tag(v, "vref")), E.isnode(v, E.container_classes)))
    E.base_read_hooks.setdefault("_parent", []).append(on_parent)


def install_get(E, skip=()):
    m = E.m
    install_union(E)
    IRN = m.nodes.InterpolationResultNode
    f = IRN.__init__
    if "InterpolationResultNode.__init__" not in skip:
        E.contracts[f] = ResultNode(f, IRN)
    f = m.nodes.ValueNode.validate_and_convert
    E.contracts[f] = Convert(f)
    DC, LC, BC = m.dictconfig.DictConfig, m.listconfig.ListConfig, m.basecontainer.BaseContainer
    N, C = m.base.Node, m.base.Container
    for f, c in ((N._get_root, Root(N._get_root, ret="container")), (N._dereference_node, Deref(N._dereference_node)), (N._maybe_dereference_node, Deref(N._maybe_dereference_node)),
                 (N._dereference_node_impl, Deref(N._dereference_node_impl)), (C._resolve_key_and_root, KeyRoot(C._resolve_key_and_root, ret="rootkey")),
                 (C._resolve_node_interpolation, NodeInter(C._resolve_node_interpolation, ret="node")), (C._select_impl, NodeInter(C._select_impl, ret="select"))):
        E.contracts[f] = c
    for n, f, c in (("_is_typed", DC._is_typed, IsTyped), ("_s_validate_and_normalize_key", DC._s_validate_and_normalize_key, NormKey), ("_validate_get", DC._validate_get, ValidateGet),
                    ("_get_node", DC._get_node, GetNodeD), ("ListConfig._validate_get", LC._validate_get, ValidateGetL), ("ListConfig._get_node", LC._get_node, GetNodeL), ("_get_child", BC._get_child, GetChild), ("_resolve_with_default", BC._resolve_with_default, Resolve),
                    ("_resolve_interpolation_from_parse_tree", m.base.Container._resolve_interpolation_from_parse_tree, ResTree),
                    ("_validate_and_convert_interpolation_result", m.base.Container._validate_and_convert_interpolation_result, ResTree),
                    ("resolve_parse_tree", m.base.Container.resolve_parse_tree, ParseTree),
                    ("_maybe_resolve_interpolation", m.base.Container._maybe_resolve_interpolation, MaybeRes)):
        if n not in skip:
            f = rawfn(f)
            E.contracts[f] = c(f)


def setup(E, skip, skipg=()):
    from . import access
    install_reads(E, skip=skip)
    install_makers(E)
    install_get(E, skipg)
    access.install_access(E)


def unit_norm(E):
    f = rawfn(E.m.dictconfig.DictConfig._s_validate_and_normalize_key)

    def body(rep):
        setup(E, ())
        E.contracts.pop(f, None)
        s, r, mr = heap.node_at(E, "self", E.m.dictconfig.DictConfig)
        kt, k = E.any("key_type"), E.any("key")
        heap.frame_begin(E)
        E.assume(good_key_type(E, kt))
        E.assume(Not(E.isnode(k)))
        old = E.st.copy()
        bool_t = kt == Val.vtyp(E.cid(bool))
        same = Or(kt == E.term(K(ANY)), *[kt == Val.vtyp(E.cid(t)) for t in (str, int, float, bytes)])
        try:
            res = E.term(E.norm(E.run_fn(f, [s, kt, k])))
        except PyRaise as p:
            rep.exits[1] += 1
            E.prove("raises a KeyValidationError", E.isa_cls(E.cls_term(p.ref), E.m.errors.KeyValidationError))
            E.prove_all(E.frame_goals(old, {}, "nothing changes"))
            return
        rep.exits[0] += 1
        E.prove_all([("the key itself, for Any, str, int, float and bytes", Implies(same, res == k)), ("a bool, for bool", Implies(bool_t, is_tag(res, "vbool"))),
                     ("a member, for an enum", Implies(Not(Or(same, bool_t)), E.subcls(E.cls_of(res), acc(kt, "vtyp"))))])
        E.prove_all([("a scalar or an enum member", good_key(E, res))] + E.frame_goals(old, {}, "nothing changes"))
        try:
            res2 = E.term(E.norm(E.run_fn(f, [s, kt, res])))
        except PyRaise as p:
            E.prove("a normalised key is accepted", FALSE)
            return
        E.prove("a normalised key stays", res2 == res)
    return body


def unit_typed(E):
    DC = E.m.dictconfig.DictConfig
    f = rawfn(DC._is_typed)

    def body(rep):
        setup(E, ())
        E.contracts.pop(f, None)
        s, r, mr = heap.node_at(E, "self", DC)
        s2, r2, mr2 = heap.node_at(E, "other", DC)
        heap.frame_begin(E)
        ot = E.getf(mr, "object_type")
        E.assume(ot == E.getf(mr2, "object_type"))
        E.assumptions.add("the object type of a mapping is None, Any, a class or a dict annotation")
        E.assume(Or(is_tag(ot, "vnone"), is_tag(ot, "vtyp"), ot == E.term(K(ANY)), E.term(E.norm(E.call(K(E.m.utils.is_dict_annotation), [ot], {}))) == vbool(True)))
        old = E.st.copy()
        try:
            a = E.term(E.norm(E.run_fn(f, [s])))
            b = E.term(E.norm(E.run_fn(f, [s2])))
        except PyRaise as p:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        E.prove_all([("a bool", is_tag(a, "vbool")), ("a function of the object type", a == b),
                     ("only classes other than dict", Implies(a == vbool(True), And(is_tag(ot, "vtyp"), ot != vtyp(E, dict))))] + E.frame_goals(old, {}, "nothing changes"))
    return body


def unit_result_node(E):
    """the constructor of InterpolationResultNode meets its contract"""
    cls = E.m.nodes.InterpolationResultNode

    def body(rep):
        setup(E, (), ("InterpolationResultNode.__init__",))
        for c in (cls, E.m.nodes.ValueNode, E.m.base.Node, E.m.base.Metadata):
            E.contracts.pop(c.__dict__.get("__init__"), None)
        f = E.m.base.Node._get_flag
        E.contracts[f] = OwnFlag(f)
        E.contracts.pop(E.m.nodes.ValueNode.validate_and_convert, None)
        v, k = E.any("value"), E.any("key")
        p = NONE if E.decide(E.fresh("parent_none", B)) else E.node("parent", E.container_classes)
        heap.frame_begin(E)
        old = E.st.copy()
        try:
            res = E.term(E.norm(E.call(K(cls), [v, k, p], {})))
        except PyRaise as x:
            rep.exits[1] += 1
            E.prove("does not raise", FALSE)
            return
        rep.exits[0] += 1
        r = ref_of(res)
        E.prove_all([("holds the value", E.getf(r, "_val") == v), ("has the parent", E.getf(r, "_parent") == E.term(p)), ("has the key", E.getf(E.meta(r), "key") == k)] +
                    E.frame_goals(old, {}, "nothing else changes"))
    return body


def root_inv(A):
    """the loop of _resolve_key_and_root: what is left to go up from root is what was to go up from self"""
    def inv(E, env, st, i):
        k0 = acc(E.term(A["key"]), "vstr")
        n0 = dots(E, k0)
        vs = locals_of(env, {"self": 0})
        if not hasattr(E, "_root_roles"):
            # at entry: the texts and the nodes among the locals
            E._root_roles = ([nm for nm, v in vs if E.holds(is_tag(v, "vstr"))], [nm for nm, v in vs if E.holds(E.isnode(v, E.container_classes))])
        vs = dict(vs)
        for kn in E._root_roles[0]:
            if kn not in vs:
                continue
            kv = vs[kn]
            k = acc(kv, "vstr")
            n = dots(E, k)
            dots(E, z3.SubString(k, 1, z3.Length(k) - 1))
            yield ("the same rest: " + kn, And(is_tag(kv, "vstr"), REST(k) == REST(k0)))
            for rn in E._root_roles[1]:
                if rn in vs:
                    up(E, vs[rn], n - 1)
                    yield ("as far to go: %s, %s" % (kn, rn), And(n > 0, UP(E.term(A["self"]), n0 - 1) == UP(vs[rn], n - 1), is_tag(kv, "vstr")))
                    # the first dot is dropped before the loop
                    up(E, vs[rn], n)
                    yield ("as far to go, one dot less: %s, %s" % (kn, rn), And(n0 > 0, UP(E.term(A["self"]), n0 - 1) == UP(vs[rn], n), is_tag(kv, "vstr")))
        for rn in E._root_roles[1]:
            if rn in vs:
                yield ("a container: " + rn, E.isnode(vs[rn], E.container_classes))
    return inv


def fn_unit(E, fn, selfcls, over=None, pre=None, inv=None, contract=None):
    """the body of fn meets its contract"""
    f = rawfn(fn)

    def body(rep):
        setup(E, ())
        c = contract or E.contracts[f]
        c = getattr(c, "d" if selfcls is E.m.dictconfig.DictConfig else "l", c)
        c.applying = False
        args, A = sym_args(E, fn, selfcls, over)
        heap.frame_begin(E)
        if "self" in A and selfcls is E.m.dictconfig.DictConfig:
            E.assume(good_key_type(E, E.getf(E.meta(ref_of(A["self"])), "key_type")))
        for nm, g in c.requires(E, A):
            E.assume(g)
        if inv:
            E.inv_cands = E.inv_cands + [inv(A)]
        old = E.st.copy()
        mr, mx = c.may_return(E, A, old), c.may_raise(E, A, old)
        try:
            res = E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            E.prove_all([("may raise", mx)] + c.raises(E, A, old, p.ref) + E.frame_goals(old, {}, "nothing changes when it raises"))
            return
        rep.exits[0] += 1
        gs = c.ensures(E, A, old, E.norm(res) if not isinstance(res, Tup) else res)
        E.prove_all([("may return", mr)] + gs + E.frame_goals(old, {}, "nothing changes"))
    return body


from .contracts import raw as rawfn


def units(E):
    m = E.m
    DC, LC, BC = m.dictconfig.DictConfig, m.listconfig.ListConfig, m.basecontainer.BaseContainer
    C = m.base.Container
    both = [("%s[%s]" % (f.__qualname__, c.__name__), fn_unit(E, f, c)) for c in (DC, LC) for f in
            (C._resolve_interpolation_from_parse_tree, C._validate_and_convert_interpolation_result, C.resolve_parse_tree)]
    N = m.base.Node
    both += [("%s[%s]" % (N._get_root.__qualname__, c.__name__), fn_unit(E, N._get_root, c)) for c in (m.nodes.AnyNode, m.base.UnionNode)]
    both += [("%s[%s]" % (f.__qualname__, c.__name__), fn_unit(E, f, c)) for c in (DC, LC, m.nodes.AnyNode, m.nodes.IntegerNode, m.base.UnionNode, m.nodes.InterpolationResultNode) for f in
             (N._dereference_node, N._maybe_dereference_node, N._dereference_node_impl)]
    both += [("%s[%s]" % (f.__qualname__, c.__name__), fn_unit(E, f, c)) for c in (DC, LC) for f in
             (C._resolve_node_interpolation,)]
    both += [("%s[%s]" % (N._get_root.__qualname__, c.__name__), fn_unit(E, N._get_root, c)) for c in (DC, LC)]
    both += [("%s[%s]" % (C._resolve_key_and_root.__qualname__, c.__name__), fn_unit(E, C._resolve_key_and_root, c, inv=root_inv)) for c in (DC, LC)]
    return both + [("InterpolationResultNode.__init__", unit_result_node(E)), ("DictConfig._s_validate_and_normalize_key", unit_norm(E)),
            ("DictConfig._is_typed", unit_typed(E)),
            ("DictConfig._validate_get", fn_unit(E, DC._validate_get, DC)),
            ("DictConfig._get_node", fn_unit(E, DC._get_node, DC)),
            ("BaseContainer._get_child[DictConfig]", fn_unit(E, BC._get_child, DC)),
            ("BaseContainer._get_child[ListConfig]", fn_unit(E, BC._get_child, LC)),
            ("ListConfig._get_node", fn_unit(E, LC._get_node, LC)),
            ("ListConfig._validate_get", fn_unit(E, LC._validate_get, LC)),
            ("Container._maybe_resolve_interpolation[DictConfig]", fn_unit(E, m.base.Container._maybe_resolve_interpolation, DC)),
            ("Container._maybe_resolve_interpolation[ListConfig]", fn_unit(E, m.base.Container._maybe_resolve_interpolation, LC)),
            ("BaseContainer._resolve_with_default[DictConfig]", fn_unit(E, BC._resolve_with_default, DC)),
            ("BaseContainer._resolve_with_default[ListConfig]", fn_unit(E, BC._resolve_with_default, LC))]
