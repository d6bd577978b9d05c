"""contracts shared by several properties"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.oc import Contract

EFF = z3.Function("EFF", I, I, z3.StringSort(), Val)


def eff(E, r, flag, st=None):
    """effective flag value (None/True/False) of the node at r in the current flag state"""
    fv = (st or E.st).g["fv"]
    pre = getattr(E, "fvpre", {})
    while fv.get_id() in pre and E.is_old(r):
        fv = pre[fv.get_id()]
    f = strlit(flag) if isinstance(flag, str) else flag
    v = EFF(fv, r, f)
    E.fact(Or(is_tag(v, "vnone"), is_tag(v, "vbool")))
    return v


class GetFlag(Contract):
    """Node._get_flag: returns the effective flag; modifies only flag caches (not part of the observed state)"""
    can_raise = False

    def ensures(self, E, A, old, res):
        return [("value", res == eff(E, ref_of(A["self"]), acc(E.term(A["flag"]), "vstr")))]

    def result(self, E, A):
        return eff(E, ref_of(A["self"]), acc(E.term(A["flag"]), "vstr"))


def install(E, names):
    m = E.m
    table = {
        "_get_flag": (m.base.Node._get_flag, GetFlag),
    }
    for n in names:
        fn, c = table[n]
        E.contracts[fn] = c(fn)


def true_flag(E, r, flag):
    v = eff(E, r, flag)
    return And(is_tag(v, "vbool"), acc(v, "vbool"))


def exc_in(E, ref, classes):
    c = E.cls_term(ref)
    return Or(*[E.isa_cls(c, k) for k in classes])


def locals_of(env, A):
    """the local variables of the function at hand other than its parameters (the names A)"""
    return [(nm, v) for nm, v in sorted(env.vars.items(), key=lambda x: x[0]) if nm not in A and isinstance(v, z3.ExprRef) and v.sort() == Val]
