"""contracts of the package's functions, used at call sites and verified by units of the properties"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup, IterV
from pyvc.oc import Contract
from . import heap
from .common import *


SPLIT = z3.Function("SPLIT", S, I, S)   # the components of a path
SPLITN = z3.Function("SPLITN", S, I)


class Reads(Contract):
    """a reading operation: modifies no pre-existing object (flag caches excepted), apart from the memo set it is given"""
    creates = True

    def __init__(self, fn, ret="any", memo=None, can_raise=True, pure_value=False, trusted_ret=False):
        super().__init__(fn)
        self.trusted_ret = trusted_ret
        self.ret, self.memo, self.can_raise = ret, memo, can_raise

    def modifies(self, E, A):
        if self.memo and self.memo in A:
            v = E.norm(A[self.memo])
            if isinstance(v, z3.ExprRef) and tag_of(v) != "vnone":
                m = ref_of(v)
                return {"DICT": lambda r: r == m}
        return {}

    def result(self, E, A):
        ret = self.ret
        if ret == "bool":
            return Val.vbool(E.fresh("rb", B))
        if ret == "int":
            return Val.vint(E.fresh("ri", I))
        if ret == "str":
            return Val.vstr(E.fresh("rs", S))
        if ret == "none":
            return NONE
        if ret == "select":
            return Tup([E.fresh_val("root"), E.fresh_val("lastkey"), E.fresh_val("value")])
        if ret == "strlist":
            k = acc(E.term(A["key"]), "vstr")
            n = SPLITN(k)
            E.fact(n >= 1)
            return E.new_list(LBody(n, lambda i: Val.vstr(SPLIT(k, i))))
        if ret == "rootkey":
            return Tup([E.fresh_val("root"), Val.vstr(E.fresh("key", S))])
        if ret == "select1":
            return Tup([E.fresh_val("value"), E.fresh_val("key")])
        return E.fresh_val("res")

    def ensures(self, E, A, old, res):
        ret = self.ret
        if ret == "node":
            return [("a node", E.isnode(res))]
        if ret == "node?":
            return [("a node or None", Or(is_tag(res, "vnone"), E.isnode(res)))]
        if ret == "container":
            return [("a container", E.isnode(res, E.container_classes))]
        if ret == "container?":
            return [("a container or None", Or(is_tag(res, "vnone"), E.isnode(res, E.container_classes)))]
        if ret == "type?":
            return [("a type or None", Or(is_tag(res, "vnone"), is_tag(res, "vtyp")))]
        if ret == "bool":
            return [("a bool", is_tag(E.term(res), "vbool"))]
        if ret == "str":
            return [("a str", is_tag(E.term(res), "vstr"))]
        if ret == "int":
            return [("an int", is_tag(E.term(res), "vint"))]
        if ret == "none":
            return [("None", is_tag(E.term(res), "vnone"))]
        if ret == "select":
            a, b, c = [E.term(x) for x in res.items]
            return [("root is a container or None", Or(is_tag(a, "vnone"), E.isnode(a, E.container_classes))),
                    ("value is a node or None", Or(is_tag(c, "vnone"), E.isnode(c))),
                    ("last key is a string or None", Or(is_tag(b, "vnone"), is_tag(b, "vstr")))]
        if ret == "strlist":
            t = E.term(res)
            b = E.list_body(ref_of(t))
            return [("a list", And(is_tag(t, "vref"), E.cls_term(ref_of(t)) == E.cid(list))), ("not empty", b.n >= 1)]
        if ret == "rootkey":
            a, b = [E.term(x) for x in res.items]
            return [("root is a container", E.isnode(a, E.container_classes)), ("the key is a string", is_tag(b, "vstr"))]
        if ret == "select1":
            a, b = [E.term(x) for x in res.items]
            return [("value is a node or None", Or(is_tag(a, "vnone"), E.isnode(a)))]
        return []

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


# name -> (path to the function, keyword arguments of Reads)
def table(E):
    m = E.m
    DC, LC = m.dictconfig.DictConfig, m.listconfig.ListConfig
    BC, C, N = m.basecontainer.BaseContainer, m.base.Container, m.base.Node
    UN, VN = m.base.UnionNode, m.nodes.ValueNode
    OCc = m.oc.OmegaConf
    t = {
        "Node._get_root": (N._get_root, dict(ret="container", can_raise=True)),
        "Node._dereference_node": (N._dereference_node, dict(ret="node")),
        "Node._maybe_dereference_node": (N._maybe_dereference_node, dict(ret="node?", memo="memo")),
        "Node._dereference_node_impl": (N._dereference_node_impl, dict(ret="node?", memo="memo")),
        "Container._maybe_resolve_interpolation": (C._maybe_resolve_interpolation, dict(ret="node?", memo="memo")),
        "Container._resolve_interpolation_from_parse_tree": (C._resolve_interpolation_from_parse_tree, dict(ret="node?", memo="memo")),
        "Container._resolve_node_interpolation": (C._resolve_node_interpolation, dict(ret="node", memo="memo")),
        "Container._resolve_key_and_root": (C._resolve_key_and_root, dict(ret="rootkey")),
        "Container._select_impl": (C._select_impl, dict(ret="select", memo="memo")),
        "Container._validate_and_convert_interpolation_result": (C._validate_and_convert_interpolation_result, dict(ret="node?")),
        "Container._validate_not_dereferencing_to_parent": (C._validate_not_dereferencing_to_parent, dict(ret="none")),
        "Container._evaluate_custom_resolver": (C._evaluate_custom_resolver, dict(ret="any")),
        "Container.resolve_parse_tree": (C.resolve_parse_tree, dict(ret="any", memo="memo")),
        "BaseContainer._get_child": (BC._get_child, dict(ret="any")),
        "BaseContainer._resolve_with_default": (BC._resolve_with_default, dict(ret="any")),
        "BaseContainer._get_full_key": (BC._get_full_key, dict(ret="str")),
        "BaseContainer._item_eq": (BC._item_eq, dict(ret="bool")),
        "BaseContainer._to_content": (BC._to_content, dict(ret="any")),
        "DictConfig._get_node": (DC._get_node, dict(ret="node?")),
        "DictConfig._validate_get": (DC._validate_get, dict(ret="none")),
        "DictConfig._validate_set": (DC._validate_set, dict(ret="none")),
        "DictConfig._validate_merge": (DC._validate_merge, dict(ret="none")),
        "DictConfig._validate_non_optional": (DC._validate_non_optional, dict(ret="none")),
        "DictConfig._s_validate_and_normalize_key": (DC._s_validate_and_normalize_key, dict(ret="any")),
        "DictConfig.__getitem__": (DC.__getitem__, dict(ret="any")),
        "DictConfig.__getattr__": (DC.__getattr__, dict(ret="any")),
        "DictConfig.__contains__": (DC.__contains__, dict(ret="bool")),
        "DictConfig._get_impl": (DC._get_impl, dict(ret="any")),
        "DictConfig.get": (DC.get, dict(ret="any")),
        "DictConfig.items_ex": (DC.items_ex, dict(ret="any")),
        "DictConfig._dict_conf_eq": (DC._dict_conf_eq, dict(ret="bool")),
        "DictConfig.__eq__": (DC.__eq__, dict(ret="any")),
        "ListConfig._get_node": (LC._get_node, dict(ret="any")),
        "ListConfig._validate_get": (LC._validate_get, dict(ret="none")),
        "ListConfig._validate_set": (LC._validate_set, dict(ret="none")),
        "ListConfig.__getitem__": (LC.__getitem__, dict(ret="any")),
        "ListConfig.get": (LC.get, dict(ret="any")),
        "ListConfig.index": (LC.index, dict(ret="int")),
        "ListConfig.__contains__": (LC.__contains__, dict(ret="bool")),
        "ListConfig._list_eq": (LC._list_eq, dict(ret="bool")),
        "OmegaConf.get_type": (OCc.get_type, dict(ret="any")),
        "split_key": (m.utils.split_key, dict(ret="strlist", can_raise=False, trusted_ret=True)),
        "ValueNode.validate_and_convert": (VN.validate_and_convert, dict(ret="any")),
        "_select_one": (m.oc._select_one, dict(ret="select1")),
    }
    return {k: v for k, v in t.items()}


def raw(fn):
    return getattr(fn, "__func__", fn)


def install_reads(E, names=None, skip=()):
    heap.install(E)
    heap.install_flags(E)
    install(E, ["_get_flag"])
    for n, (fn, kw) in table(E).items():
        if (names is None or n in names) and n not in skip:
            f = raw(fn)
            E.contracts[f] = Reads(f, **kw)


class Init(Contract):
    """construction of a node: the object under construction gets its fields, no existing object changes"""
    creates = True

    def __init__(self, fn, cls):
        super().__init__(fn)
        self.cls = cls

    def modifies(self, E, A):
        s = ref_of(E.term(A["self"]))
        return {f: (lambda r: r == s) for f in E.fields_of(self.cls)}

    def result(self, E, A):
        return NONE

    def ensures(self, E, A, old, res):
        s = ref_of(E.term(A["self"]))
        out = []
        if "parent" in A:
            out.append(("parent as given", E.getf(s, "_parent") == E.term(A["parent"])))
        if "key" in A:
            out.append(("key as given", E.getf(E.meta(s), "key") == E.term(A["key"])))
        return out

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


def not_old_node(E, v):
    """v is not a node that existed before the call"""
    v = E.term(v)
    r = ref_of(v)
    return Or(Not(E.isnode(v)), r < 0, r >= E.A0)


class Wrap(Reads):
    """_node_wrap / _maybe_wrap: a new node with the given key and parent"""

    def requires(self, E, A):
        return [("the value is not an existing node", not_old_node(E, A["value"]))]

    def ensures(self, E, A, old, res):
        t = E.term(res)
        r = ref_of(t)
        return [("a node", E.isnode(t)), ("a new node", Or(r < 0, r >= old.hi, t == E.term(A["value"]))),
                ("parent as given", E.getf(r, "_parent") == E.term(A["parent"])),
                ("key as given", E.getf(E.meta(r), "key") == E.term(A["key"]))]


def install_makers(E, skip=()):
    """constructors and wrapping functions: new nodes, nothing existing is modified"""
    m = E.m
    for c in E.node_classes:
        f = c.__dict__.get("__init__")
        if f is not None and "%s.__init__" % c.__name__ not in skip:
            E.contracts[f] = Init(f, c)
    OCc = m.oc.OmegaConf
    for n, (fn, kw) in {
        "OmegaConf.create": (OCc.create, dict(ret="any")),
        "OmegaConf._create_impl": (OCc._create_impl, dict(ret="any")),
        "_ensure_container": (m.utils._ensure_container, dict(ret="container")),
    }.items():
        if n not in skip:
            f = raw(fn)
            E.contracts[f] = Reads(f, **kw)
    for n, fn in (("_maybe_wrap", m.oc._maybe_wrap), ("_node_wrap", m.oc._node_wrap)):
        if n not in skip:
            E.contracts[fn] = Wrap(fn)
