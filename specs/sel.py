"""functional contracts of selection by path with a default, and of asking for missing values"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import access, get, heap
from .access import PLAINP, WALK, walk
from .common import *
from .contracts import *
from .get import DOTS, REST, Pure, boolarg, content_is_dict, dots, fn_unit, inner, interp, isdict, missing, norm, plain, raw, rawfn, up, UP
from .mut import content_ref


class SelNode(Pure):
    """select_node(cfg, key): the node that the path leads to from cfg (or, with leading dots, from the container above); None where a component is absent"""
    clause = "node"

    def parts(self, E, A):
        c, k = E.term(A["cfg"]), acc(E.term(A["key"]), "vstr")
        rel = Not(z3.PrefixOf(strlit("."), k))
        fk = If(rel, z3.Concat(strlit("."), k), k)
        dots(E, k)
        dots(E, fk)
        d = If(rel, z3.IntVal(1), DOTS(k))
        rest = If(rel, k, REST(k))
        up(E, c, 0)
        base = UP(c, d - 1)
        n = SPLITN(rest)
        walk(E, base, rest, n)
        walk(E, base, rest, n - 1)
        j = E.fsk[1]
        walk(E, base, rest, j)
        on = True if "absolute_key" not in A else Not(boolarg(E, A, "absolute_key"))
        ne = rest != strlit("")
        node = If(ne, WALK(base, rest, n), base)
        known = And(on, E.isnode(base, E.container_classes), Implies(ne, PLAINP(base, rest, n)))
        absent = And(on, ne, j >= 0, j < n, PLAINP(base, rest, j), is_tag(WALK(base, rest, j + 1), "vnone"))
        return node, known, absent

    def may_raise(self, E, A, old):
        with E.at(old):
            node, known, absent = self.parts(E, A)
        return Implies(known, boolarg(E, A, "throw_on_missing"))

    def ensures(self, E, A, old, res):
        node, known, absent = self.parts(E, A)
        res = E.term(res)
        return [("a node or None", Or(is_tag(res, "vnone"), E.isnode(res))), ("the node at the end of the path", Implies(known, res == node)), ("None where a component is absent", Implies(absent, res == NONE))]


class SelValue(SelNode):
    """select_value(cfg, key, default): the default where a component is absent or the value is missing, else the value; the default is None if not given"""

    def ensures(self, E, A, old, res):
        node, known, absent = self.parts(E, A)
        res = E.term(res)
        d = E.norm(A["default"])
        dv = If(E.ident(d, K(E.m.basecontainer._DEFAULT_MARKER_)), NONE, E.term(d))
        x = raw(E, ref_of(node))
        it = interp(E, x)
        isn = E.isnode(node)
        return [("the default where a component is absent", Implies(absent, res == dv)), ("the default for a missing value", Implies(And(known, isn, missing(E, x)), res == dv)),
                ("the value of the node otherwise", Implies(And(known, isn, Not(missing(E, x)), Not(it)), res == plain(E, node)))]


class IsMissing(Pure):
    """OmegaConf.is_missing(cfg, key) for mappings: whether the child holds the missing marker; raises for keys of another type only"""

    def parts(self, E, A):
        s = ref_of(E.term(A["cfg"]))
        n, ok = norm(E, s, A["key"])
        b = E.dict_body(content_ref(E, s))
        nk = E.nkey(n)
        has = b.has(nk)
        v = E.term(b.get(nk))
        E.fact(Implies(And(content_is_dict(E, s), has), E.isnode(v)))
        return content_is_dict(E, s), ok, And(has, missing(E, raw(E, ref_of(inner(E, v)))))

    def may_return(self, E, A, old):
        cd, ok, ms = self.parts(E, A)
        return Implies(cd, ok)

    def may_raise(self, E, A, old):
        cd, ok, ms = self.parts(E, A)
        return Implies(cd, Not(ok))

    def ensures(self, E, A, old, res):
        cd, ok, ms = self.parts(E, A)
        res = E.term(res)
        return [("a bool", is_tag(res, "vbool")), ("whether the child holds the missing marker", Implies(cd, res == Val.vbool(ms)))]


class MissingValue(Pure):
    """_is_missing_value(v), _is_missing_literal(v): whether v, or what the node v holds, is the missing marker"""
    creates = False

    def may_raise(self, E, A, old):
        return FALSE

    def ensures(self, E, A, old, res):
        v = E.term(A["value"])
        x = If(E.isnode(v), raw(E, ref_of(v)), v)
        return [("whether it is the missing marker", E.term(res) == Val.vbool(missing(E, x)))]


class NodeMissing(Pure):
    """_is_missing of a node: whether what it holds is the missing marker"""
    creates = False

    def may_raise(self, E, A, old):
        return FALSE

    def ensures(self, E, A, old, res):
        return [("whether it holds the missing marker", E.term(res) == Val.vbool(missing(E, raw(E, ref_of(E.term(A["self"]))))))]


def contract_unit(E, fn, c, selfcls=None, over=None, precise=False):
    """the body of fn meets c"""
    u = fn_unit(E, fn, selfcls, over, contract=c)

    def body(rep):
        E.precise_str = precise
        try:
            u(rep)
        finally:
            E.precise_str = False
    return body


def units(E):
    m = E.m
    impl = m.impl
    out = []
    for c in (m.dictconfig.DictConfig, m.listconfig.ListConfig):
        cf = {"cfg": lambda E, c=c: heap.node_at(E, "cfg", c)[0], "key": lambda E: E.str("key")}
        out += [("select_node[%s]" % c.__name__, contract_unit(E, impl.select_node, SelNode(impl.select_node), None, cf, precise=True)),
                ("select_value[%s]" % c.__name__, contract_unit(E, impl.select_value, SelValue(impl.select_value), None, cf)),
                ("OmegaConf.select[%s]" % c.__name__, contract_unit(E, m.oc.OmegaConf.select, SelValue(m.oc.OmegaConf.select), None, cf))]
    return out


def missing_units(E):
    m = E.m
    ut = m.utils
    out = [("OmegaConf.is_missing[DictConfig]", contract_unit(E, m.oc.OmegaConf.is_missing, IsMissing(m.oc.OmegaConf.is_missing), None,
                                                                {"cfg": lambda E: heap.node_at(E, "cfg", E.m.dictconfig.DictConfig)[0], "key": lambda E: not_a_node_(E, "key")}))]
    for f in (ut._is_missing_literal, ut._is_missing_value):
        if f is ut._is_missing_value:
            out.append((f.__name__ + "[node]", contract_unit(E, f, MissingValue(f), None, {"value": lambda E: E.node("value")})))
        out.append((f.__name__ + "[no node]", contract_unit(E, f, MissingValue(f), None, {"value": lambda E: not_a_node_(E, "value")})))
    for c in (m.dictconfig.DictConfig, m.listconfig.ListConfig, m.nodes.AnyNode, m.nodes.StringNode, m.base.UnionNode):
        out.append(("%s._is_missing" % c.__name__, contract_unit(E, c._is_missing, NodeMissing(c._is_missing), c)))
    return out


def not_a_node_(E, n):
    v = E.any(n)
    E.assume(Not(E.isnode(v)))
    return v
