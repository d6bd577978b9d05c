"""C03: typed value nodes only ever hold a value of their declared type."""
import pathlib
import z3

from pyvc.core import *
from pyvc.interp import *
from pyvc.oc import *
import os
from . import common
from .common import *


def typed(E, cls, v, self_r):
    """v is a value of the node class's declared kind"""
    n = E.m.nodes
    if cls is n.IntegerNode:
        return is_tag(v, "vint")
    if cls is n.FloatNode:
        return is_tag(v, "vflt")
    if cls is n.BooleanNode:
        return is_tag(v, "vbool")
    if cls is n.StringNode:
        return is_tag(v, "vstr")
    if cls is n.BytesNode:
        return E.isa(v, bytes)
    if cls is n.PathNode:
        return E.isa(v, pathlib.Path)
    if cls is n.EnumNode:
        et = E.getf(self_r, "enum_type")
        return E.isa_sym(v, acc(et, "vtyp"))
    return TRUE


def converted(E, cls, v, res):
    """the documented conversion relation, for a value that is not None"""
    n = E.m.nodes
    INT_OK, INT_OF = E.basefn("INT_OK", Val, B), E.basefn("INT_OF", Val, I)
    out = []
    if cls is n.IntegerNode:
        out.append(("int kept", Implies(is_tag(v, "vint"), res == v)))
        out.append(("bool/float/bytes/None rejected", Or(is_tag(v, "vint"), is_tag(v, "vstr"))))
        out.append(("string converted as by int()", Implies(is_tag(v, "vstr"), And(INT_OK(v), res == Val.vint(INT_OF(v))))))
    elif cls is n.FloatNode:
        out.append(("float kept", Implies(is_tag(v, "vflt"), res == v)))
        out.append(("int converted", Implies(is_tag(v, "vint"), res == Val.vflt(E.basefn("FLT_OF_INT", I, I)(acc(v, "vint"))))))
        out.append(("string converted as by float()", Implies(is_tag(v, "vstr"), And(E.basefn("FLT_OK", Val, B)(v),
                    res == Val.vflt(E.basefn("FLT_OF", Val, I)(v))))))
        out.append(("bool/bytes/None rejected", Or(is_tag(v, "vflt"), is_tag(v, "vint"), is_tag(v, "vstr"))))
    elif cls is n.BooleanNode:
        low = E.basefn("STR_lower", S, S)(acc(v, "vstr"))
        yes = Or(*[low == strlit(x) for x in ("yes", "y", "on", "true")])
        no = Or(*[low == strlit(x) for x in ("no", "n", "off", "false")])
        out.append(("bool kept", Implies(is_tag(v, "vbool"), res == v)))
        out.append(("int is truth", Implies(is_tag(v, "vint"), res == Val.vbool(acc(v, "vint") != 0))))
        out.append(("numeric string", Implies(And(is_tag(v, "vstr"), INT_OK(v)), res == Val.vbool(INT_OF(v) != 0))))
        out.append(("word", Implies(And(is_tag(v, "vstr"), Not(INT_OK(v))),
                                    Or(And(yes, res == vbool(True)), And(no, Not(yes), res == vbool(False))))))
        out.append(("others rejected", Or(is_tag(v, "vbool"), is_tag(v, "vint"), is_tag(v, "vstr"), E.isa(v, int))))
    elif cls is n.StringNode:
        out.append(("string kept", Implies(is_tag(v, "vstr"), res == v)))
        out.append(("containers and bytes rejected", Not(Or(is_tag(v, "vbyt"), E.isa(v, E.m.base.Container),
                    And(is_tag(v, "vref"), Or(E.cls_of(v) == E.cid(dict), E.cls_of(v) == E.cid(list)))))))
        out.append(("str() of scalars", Implies(Or(is_tag(v, "vint"), is_tag(v, "vbool"), is_tag(v, "vflt")),
                                                res == Val.vstr(E.strof(v)))))
    elif cls is n.BytesNode:
        out.append(("bytes kept", res == v))
    elif cls is n.PathNode:
        out.append(("from str or Path", Or(is_tag(v, "vstr"), E.isa(v, pathlib.Path))))
    elif cls is n.EnumNode:
        et = E.getf(E._self_r, "enum_type")
        isenum = E.isa_sym(v, acc(et, "vtyp"))
        out.append(("member kept", Implies(isenum, res == v)))
        out.append(("bool/float rejected", Or(isenum, Not(Or(is_tag(v, "vbool"), is_tag(v, "vflt"), is_tag(v, "vnone"))))))
        out.append(("int by value", Implies(And(Not(isenum), is_tag(v, "vint")),
                    And(E.basefn("ENUM_HAS_value", Val, Val, B)(et, v), res == E.basefn("ENUM_GET_value", Val, Val, Val)(et, v)))))
    elif cls is n.AnyNode:
        out.append(("kept", res == v))
    return out


def must_accept(E, cls, v):
    """values that validation must accept (the complement of the allowed rejections)"""
    n = E.m.nodes
    INT_OK = E.basefn("INT_OK", Val, B)
    if cls is n.IntegerNode:
        return Or(is_tag(v, "vint"), And(is_tag(v, "vstr"), INT_OK(v)))
    if cls is n.FloatNode:
        return Or(is_tag(v, "vflt"), And(is_tag(v, "vint"), Not(E.basefn("FLT_OVF", I, B)(acc(v, "vint")))),
                  And(is_tag(v, "vstr"), E.basefn("FLT_OK", Val, B)(v)))
    if cls is n.BooleanNode:
        low = E.basefn("STR_lower", S, S)(acc(v, "vstr"))
        return Or(is_tag(v, "vbool"), is_tag(v, "vint"), And(is_tag(v, "vstr"),
                  Or(INT_OK(v), *[low == strlit(x) for x in ("yes", "y", "on", "true", "no", "n", "off", "false")])))
    if cls is n.StringNode:
        return Or(is_tag(v, "vstr"), is_tag(v, "vint"), is_tag(v, "vbool"), is_tag(v, "vflt"))
    if cls is n.BytesNode:
        return is_tag(v, "vbyt")
    if cls is n.PathNode:
        return Or(is_tag(v, "vstr"), E.isa(v, pathlib.Path))
    if cls is n.EnumNode:
        return E.isa_sym(v, acc(E.getf(E._self_r, "enum_type"), "vtyp"))
    if cls is n.AnyNode:
        return Or(*[is_tag(v, t) for t in ("vint", "vbool", "vflt", "vstr", "vbyt")])
    return FALSE


def setup(E, cls):
    common.install(E, ["_get_flag"])
    self = E.obj("self", cls)
    r = ref_of(self)
    E._self_r = r
    m = E.obj("meta", E.m.base.Metadata)
    mr = ref_of(m)
    E.st.f["_metadata"] = StoreM(E.field("_metadata"), r, m)
    E.assume(is_tag(E.getf(mr, "optional"), "vbool"))
    n = E.m.nodes
    rt = {n.StringNode: str, n.PathNode: pathlib.Path, n.IntegerNode: int, n.BytesNode: bytes, n.FloatNode: float,
          n.BooleanNode: bool}.get(cls)
    if rt is not None:
        E.assume(E.getf(mr, "ref_type") == Val.vtyp(E.cid(rt)))
    elif cls is n.EnumNode:
        et = E.getf(r, "enum_type")
        E.assume(is_tag(et, "vtyp"))
        t = acc(et, "vtyp")
        import enum
        E.assume(E.isa_cls(t, enum.Enum))
        E.assume(And(*[t != E.cid(k) for k in (bool, int, str, float, bytes, type(None), list, dict)]))
        E.assume(E.getf(mr, "ref_type") == et)
    else:
        E.assume(E.getf(mr, "ref_type") == E.term(K(__import__("typing").Any)))
    return self, r, mr


def value_inv(E, cls, r, v):
    """what a node of this class may hold"""
    opt = acc(E.getf(E.meta(r), "optional"), "vbool")
    interp = And(is_tag(v, "vstr"), z3.Contains(acc(v, "vstr"), strlit("${")))
    missing = v == vstr("???")
    t = typed(E, cls, v, r)
    return Or(And(is_tag(v, "vnone"), opt), interp, missing, t)


def spec_set_value(E, cls):
    def body(rep):
        self, r, mr = setup(E, cls)
        E._self_r = r
        v = E.any("value")
        err = E.m.errors
        old = E.st.copy()
        conv = eff(E, r, "convert")
        strict = And(is_tag(conv, "vbool"), Not(acc(conv, "vbool")))
        special = And(is_tag(v, "vstr"), Or(v == vstr("???"), z3.Contains(acc(v, "vstr"), strlit("${"))))
        try:
            res = E.run_fn(cls._set_value, [self, v])
        except PyRaise as p:
            rep.exits[1] += 1
            ok = (err.ValidationError, err.ReadonlyConfigError, err.GrammarParseError)
            E.prove("raises only validation, read-only or grammar errors", exc_in(E, p.ref, ok))
            for nm, g in E.frame_goals(old, {}, "nothing changes on error"):
                E.prove(nm, g)
            ro = true_flag(E, r, "readonly")
            opt = acc(E.getf(mr, "optional"), "vbool")
            acceptable = Or(And(is_tag(v, "vnone"), opt), v == vstr("???"), And(Not(special), Not(strict), must_accept(E, cls, v)))
            if cls is not E.m.nodes.InterpolationResultNode:
                E.prove("valid values are accepted", Implies(Not(ro), Not(acceptable)))
            return
        rep.exits[0] += 1
        new = E.getf(r, "_val")
        E.prove("read-only nodes never accept", Not(true_flag(E, r, "readonly")))
        E.prove("holds None (optional), missing, interpolation or a value of the declared type", value_inv(E, cls, r, new))
        E.prove("None needs optional", Implies(is_tag(v, "vnone"), And(acc(E.getf(mr, "optional"), "vbool"), new == NONE)))
        if cls is not E.m.nodes.InterpolationResultNode:
            E.prove("special strings are stored as they are", Implies(special, new == v))
            for nm, g in converted(E, cls, v, new):
                E.prove(nm, Implies(And(Not(special), Not(strict), Not(is_tag(v, "vnone"))), g))
            E.prove("strict mode stores the value itself", Implies(And(strict, Not(special)), new == v))
        for nm, g in E.frame_goals(old, {"_val": lambda q: q == r}, "only the value changes"):
            E.prove(nm, g)
    return body


def units(E):
    n = E.m.nodes
    out = []
    for cls in E.value_classes:
        out.append(("%s._set_value" % cls.__name__, spec_set_value(E, cls)))
    return out
