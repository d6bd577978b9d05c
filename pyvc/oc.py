"""pyvc for omegaconf: class model, contracts, verification of functions."""
import enum
import importlib
import os
import pathlib
import re
import sys
import time
import traceback
import types
import typing

import z3

from .core import *
from .interp import *
from .pybuiltins import Builtins
from .execu import _MISSING
from .source import Source

REFUTED, UNKNOWN, PROVED, UNSUPPORTED = "refuted", "unknown", "proved", "unsupported"


class Mods:
    pass


class Combine:
    """modified entries given as a function of the address, an arbitrary new value and the old value"""

    def __init__(self, fn):
        self.fn = fn


def load_omegaconf(root):
    sys.dont_write_bytecode = True
    if root not in sys.path:
        sys.path.insert(0, root)
    m = Mods()
    import omegaconf
    assert os.path.realpath(omegaconf.__file__).startswith(os.path.realpath(root)), omegaconf.__file__
    for n in ("base", "basecontainer", "dictconfig", "listconfig", "nodes", "_utils", "omegaconf", "errors", "_impl",
              "grammar_parser", "grammar_visitor"):
        setattr(m, n.strip("_"), importlib.import_module("omegaconf." + n))
    m.pkg = omegaconf
    m.oc = m.omegaconf
    return m


class Contract:
    """contract of one function of the repository.

    Subclasses / instances define:
      args(E)                    -> dict of parameter name -> value   (assumes the precondition)
      requires(E, A)             -> [(name, formula)]    proved at call sites
      modifies(E, A)             -> {field: pred(ref)}   frame; default: nothing
      ensures(E, A, old, res)    -> [(name, formula)]
      raises(E, A, old, exc)     -> [(name, formula)]
      may_return / may_raise(E, A, old) -> formula
    The same formulas are proved of the body and assumed by callers.
    """
    target = None
    prop = None
    note = ""
    can_raise = True
    creates = False  # result may be a new object

    def __init__(self, fn=None):
        self.fn = fn

    def params(self):
        import inspect as _i
        f = self.fn
        while hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        return f

    def requires(self, E, A):
        return []

    def modifies(self, E, A):
        return {}

    def modifies_exc(self, E, A):
        """frame of the exits by an exception; default: as modifies"""
        return self.modifies(E, A)

    def ensures(self, E, A, old, res):
        return []

    def raises(self, E, A, old, exc):
        return []

    def may_return(self, E, A, old):
        return TRUE

    def may_raise(self, E, A, old):
        return TRUE if self.can_raise else FALSE

    def result(self, E, A):
        return E.fresh_val("res")

    def ghost(self, E, A):
        """ghost names (E.st.g) that a call may change"""
        return ()

    def ghost_exc(self, E, A):
        return self.ghost(E, A)

    # ---- call site
    def apply(self, E, args, kwargs):
        import inspect as _i
        f = E.host_fn(self.fn)
        env = E.bind(f, args, kwargs)
        A = {k: v for k, v in env.vars.items() if not k.startswith("  ")}
        for nm, g in self.requires(E, A):
            if not E.must(g):
                E.prove("call %s: requires %s" % (self.short(), nm), g)
                E.assume(g)
        old = E.st.copy()
        mr, mx = self.may_return(E, A, old), self.may_raise(E, A, old)
        i = E.choose([mr, mx])
        mods = self.modifies(E, A) if i == 0 else self.modifies_exc(E, A)
        if mods:
            tick = E.fresh("tick", "tick")
            hi = E.fresh("hi", I)
            E.fact(hi >= old.hi)
            E.st.hi = hi
            for name, pred in mods.items():
                E.wrote(name)
                rd = E.base_reader(name, "%s_c%d" % (name, tick), hi)
                if isinstance(pred, Combine):
                    E.st.f[name] = HavocM(E.field(name), None, rd, pred.fn)
                else:
                    E.st.f[name] = HavocM(E.field(name), pred, rd)
        if self.creates:
            hi = E.fresh("hi", I)
            E.fact(hi >= E.st.hi)
            E.st.hi = hi
        for gname in (self.ghost(E, A) if i == 0 else self.ghost_exc(E, A)):
            E.wrote("g:" + gname)
            E.st.g[gname] = E.fresh(gname, I)
        if i == 0:
            res = self.result(E, A)
            for nm, g in self.ensures(E, A, old, res):
                E.assume(g)
            return E.norm(res) if isinstance(res, z3.ExprRef) else res
        r = E.alloc(Exception)
        c = E.fresh("exccls", I)
        E.st.f["cls"] = StoreM(E.st.f["cls"], r, c)
        for nm, g in self.raises(E, A, old, r):
            E.assume(g)
        raise PyRaise(r)

    def short(self):
        return getattr(self.fn, "__qualname__", str(self.fn))


class FnReport:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.status = None
        self.why = ""
        self.paths = 0
        self.secs = 0.0
        self.solver_ms = 0.0
        self.checks = 0
        self.used = []
        self.inlined = []
        self.loops = []
        self.exits = [0, 0]


class OC(Builtins):
    def __init__(self, root, mods, src):
        super().__init__(src)
        self.root, self.m = root, mods
        m = mods
        n = m.nodes
        self.Node = m.base.Node
        self.value_classes = [n.AnyNode, n.StringNode, n.PathNode, n.IntegerNode, n.BytesNode, n.FloatNode,
                              n.BooleanNode, n.EnumNode, n.InterpolationResultNode]
        self.node_classes = self.value_classes + [m.dictconfig.DictConfig, m.listconfig.ListConfig, m.base.UnionNode]
        self.meta_classes = [m.base.Metadata, m.base.ContainerMetadata]
        self.closed = self.node_classes + self.meta_classes
        self.closed_roots = set(self.closed) | {m.base.Node, m.base.Box, m.base.Container, n.ValueNode,
                                               m.basecontainer.BaseContainer}
        self.local_classes = (m.base.Container, m.base.Box, m.base.Node)
        for c in self.closed:
            self.ct.id(c)
        self.PURE_HOST = {re.compile, str.startswith}
        g = z3.Int("G_resolvers")
        self.solver.add(And(g >= 0, g < self.A0))
        self.mark_nonneg(g)
        self.G_resolvers = g
        self.global_objs = {id(m.basecontainer.BaseContainer._resolvers): Val.vref(g)}
        self.st = State({}, self.A0, {"fv": z3.IntVal(0)})
        self.st.f["cls"] = StoreM(self.base_map("cls"), g, self.cid(dict))
        self.solver.add(self.basefn("KIND", I, I)(g) == 3)
        self.install_intrinsics()
        self.inst_classes = (m.listconfig.ListConfig.ListIterator,)
        gv = m.grammar_visitor.GrammarVisitor
        self.construct_hooks = dict(self.construct_hooks)
        self.construct_hooks[gv] = lambda E, a, k: vref(E.alloc(gv))
        self.method_models = {(gv, "visit"): intr_visit}
        self.inv_base = [lambda E, env, st, i: E.frame_inv(env, st, i)]
        self.inv_cands = list(self.inv_base)

    # ---------------------------------------------------------------- model
    def fields_of(self, c):
        b = self.m.base
        if c in self.meta_classes:
            fs = {"ref_type", "object_type", "optional", "key", "flags", "flags_root", "resolver_cache"}
            return fs | ({"key_type", "element_type"} if c is b.ContainerMetadata else set())
        fs = {"_metadata", "_parent", "_flags_cache"}
        if issubclass(c, b.Box):
            return fs | {"_content"}
        fs = fs | {"_val"}
        if c is self.m.nodes.EnumNode:
            fs |= {"enum_type", "fields"}
        return fs

    def cst_class(self, c):
        t = super().cst_class(c)
        self.fact(And(*[t != self.cid(k) for k in (slice, range, types.FunctionType)]))
        return t

    def fresh_val(self, name):
        v = self.fresh(name, Val)
        self.fact(Implies(is_tag(v, "vref"), And(ref_of(v) >= -self.last_addr, ref_of(v) < self.st.hi)))
        return v

    # --- symbolic arguments of a function under verification
    def obj(self, name, cls):
        """a pre-existing object of exactly this class"""
        r = self.fresh(name, I)
        self.fact(And(r >= 0, r < self.A0))
        self.mark_nonneg(r)
        self.kind(r, self.kind_of_cls(cls))
        self.fact(r != self.G_resolvers)
        self.st.f["cls"] = StoreM(self.st.f["cls"], r, self.cid(cls))
        return Val.vref(r)

    def is_new(self, r):
        """syntactically an object created in this call"""
        return (z3.is_int_value(r) and r.as_long() < 0) or r.get_id() in self.newrefs

    def is_old(self, r):
        """known to have existed before the call"""
        return r.get_id() in self.nonneg and r.get_id() not in self.newrefs

    def kind(self, r, kind):
        """declare the kind of the object at r: node / meta / dict / list / other"""
        self.keep.append(r)
        self.kinds[r.get_id()] = kind
        f = self.basefn("KIND", I, I)
        self.fact(f(r) == {"node": 1, "meta": 2, "dict": 3, "list": 4, "other": 5}[kind])

    def kind_of_cls(self, c):
        return ("node" if c in self.node_classes else "meta" if c in self.meta_classes else
                "dict" if c is dict else "list" if c is list else "other")

    def any(self, name):
        v = self.fresh(name, Val)
        r = ref_of(v)
        self.mark_nonneg(r)
        self.fact(Implies(is_tag(v, "vref"), And(r >= 0, r < self.A0)))
        return v

    def node(self, name, classes=None):
        v = self.fresh(name, I)
        self.fact(And(v >= 0, v < self.A0))
        self.mark_nonneg(v)
        self.kind(v, "node")
        c = self.cls_term(v)
        self.assume(Or(*[c == self.cid(k) for k in (classes or self.node_classes)]))
        return Val.vref(v)

    def int(self, name):
        return Val.vint(self.fresh(name, I))

    def str(self, name):
        return Val.vstr(self.fresh(name, S))

    def bool(self, name):
        return Val.vbool(self.fresh(name, B))

    def skref(self, name="sk"):
        r = self.fresh(name, I)
        self.fact(And(r >= 0, r < self.A0))
        self.mark_nonneg(r)
        return r

    def at(self, st):
        """context manager: evaluate in another state"""
        E = self

        class C:
            def __enter__(s):
                s.saved = E.st
                E.st = st.copy()

            def __exit__(s, *a):
                E.st = s.saved
        return C()

    def meta(self, r):
        """address of the metadata object of the node at r"""
        return ref_of(self.getf(r, "_metadata"))

    # frame: goals that pre-existing objects are unchanged
    FRAME_EXEMPT = {"_flags_cache"}

    def frame_goals(self, old, mods, label="frame"):
        """for every field whose map changed: unchanged at a skolem address outside mods"""
        out = []
        sk = self.fsk[0] if self.fsk is not None else self.skref("frame_r")
        for name in sorted(self.st.f):
            if name == "cls" or name in self.FRAME_EXEMPT or name.startswith("x:"):
                continue
            new = self.st.f[name]
            with self.at(old):
                om = self.field(name)
            if new is om:
                continue
            pred = mods.get(name)
            guard = TRUE if pred is None else Not(pred(sk))
            if z3.is_false(guard):
                continue
            out.append(("%s:%s" % (label, name), Implies(guard, self.same_at(name, om, new, sk))))
        return out

    def same_at(self, name, om, new, sk):
        a, b = om.read(self, sk), new.read(self, sk)
        if name == "LIST":
            i = self.fsk[1] if self.fsk is not None else self.fresh("frame_i", I)
            return And(a.n == b.n, Implies(And(i >= 0, i < a.n), self.term(a.get(self, i)) == self.term(b.get(self, i))))
        if name == "DICT":
            k = self.fsk[2] if self.fsk is not None else self.fresh("frame_k", Val)
            self.fact(self.is_nkey(k))
            g = And(a.n == b.n, a.has(k) == b.has(k), Implies(a.has(k), a.get(k) == b.get(k)))
            if a.keyat_ is not None and b.keyat_ is not None:
                i = self.fsk[1] if self.fsk is not None else self.fresh("frame_i", I)
                g = And(g, Implies(And(i >= 0, i < a.n), a.keyat(i) == b.keyat(i)))
            return g
        if name == "key":
            return self.nkey(a) == self.nkey(b)  # True and 1 are the same key
        return a == b

    wf_pre = False
    newrefs = frozenset()
    deepnew = frozenset()  # of these, the ones that share nothing with existing objects

    def part_of_new(self, owner, part):
        """a part of an object that shares nothing with existing objects is new as well"""
        if owner.get_id() in self.deepnew:
            self.fact(part >= self.A0)
            self.mark_nonneg(part)
            self.keep.append(part)
            self.newrefs = self.newrefs | {part.get_id()}
            self.deepnew = self.deepnew | {part.get_id()}

    fsk = None
    fmods = None
    FRAME_FIELDS = ("_metadata", "_parent", "_content", "_val", "optional", "key", "ref_type", "object_type", "flags", "flags_root", "key_type",
                    "element_type", "LIST", "DICT")

    def frame_inv(self, env, entry_st, i):
        """loop invariant candidates: the frame holds since loop entry"""
        if self.fsk is None:
            return
        for name in self.FRAME_FIELDS:
            if name not in self.st.f:
                yield ("frame:" + name, TRUE)
                continue
            new = self.st.f[name]
            old = entry_st.f.get(name) or self.base_map(name)
            if new is old:
                yield ("frame:" + name, TRUE)
                continue
            g = self.same_at(name, old, new, self.fsk[0])
            pred = (self.fmods or {}).get(name)
            yield ("frame:" + name, g if pred is None else Implies(Not(pred(self.fsk[0])), g))

    # ------------------------------------------------------------ intrinsics
    def install_intrinsics(self):
        m = self.m
        u = m.utils if hasattr(m, "utils") else m._utils

        def opaque_str(E, args, kwargs):
            return Val.vstr(E.fresh("s", S))

        def opaque_pure(E, args, kwargs):
            return E.fresh_val("o")

        self.intrinsics[u.type_str] = opaque_str
        self.intrinsics[u._raise] = lambda E, a, k: (_ for _ in ()).throw(PyRaise(ref_of(E.term(a[0]))))
        self.intrinsics[u.format_and_raise] = intr_format_and_raise
        self.intrinsics[m.base.Node._format_and_raise] = intr_node_format_and_raise
        self.intrinsics[m.grammar_parser.parse] = intr_parse
        self.intrinsics[sys.exc_info] = lambda E, a, k: Tup([NONE, NONE, NONE])
        self.intrinsics[u.is_structured_config] = intr_is_structured_config
        for n in ("is_dict_annotation", "is_list_annotation", "is_tuple_annotation", "is_dict_subclass",
                  "is_structured_config_frozen", "is_union_annotation", "is_supported_union_annotation",
                  "is_generic_dict", "is_generic_list", "is_attr_class", "is_dataclass", "is_container_annotation"):
            f = getattr(u, n)
            self.intrinsics[f] = (lambda n: lambda E, a, k: intr_type_pred(E, n, a))(n)
        self.intrinsics[u._resolve_optional] = intr_resolve_optional
        self.intrinsics[re.Pattern.match] = opaque_pure
        import collections
        import inspect as _inspect
        self.intrinsics[_inspect.signature] = lambda E, a, k: E.intr_signature(a, k)
        self.intrinsics[collections.defaultdict] = lambda E, a, k: E.intr_defaultdict(a, k)
        self.intrinsics[typing.get_type_hints] = lambda E, a, k: E.havoc_call()
        self.intrinsics[typing.cast] = lambda E, a, k: a[1]

    def getattr_host(self, k, name, default):
        o = k.o
        if isinstance(o, re.Pattern) and name in ("match", "fullmatch", "search", "findall", "sub"):
            return BM(k, ("pattern", name))
        if name == "_resolvers" and k.o is self.m.basecontainer.BaseContainer and "resolvers" in self.st.g:
            return self.st.g["resolvers"]
        return super().getattr_host(k, name, default)

    def m_match_span(self, o, a, k):
        x, y = self.fresh("sp", I), self.fresh("sp", I)
        self.fact(And(x >= 0, y >= x))
        return Tup([Val.vint(x), Val.vint(y)])

    def m_match_group(self, o, a, k):
        v = self.fresh("grp", Val)
        self.fact(Or(is_tag(v, "vnone"), is_tag(v, "vstr")))
        return v

    def m_pattern_search(self, o, a, k):
        p = self.norm(o).o
        f = self.basefn("SEARCH_%d" % self.consts.id(p), S, B)
        v = self.fresh_val("m")
        self.fact(is_tag(v, "vnone") == Not(f(self._s(self.term(a[0])))))
        self.fact(Or(is_tag(v, "vnone"), is_tag(v, "vcst")))
        return v

    def m_pattern_findall(self, o, a, k):
        n = self.fresh("nf", I)
        self.fact(n >= 0)
        g = self.norm(o).o.groups
        f = z3.Function("FINDALL_%d" % self.fresh("tick", "tick"), I, I, S)
        if g > 1:
            return self.new_list(LBody(n, lambda i: Tup([Val.vstr(f(i, z3.IntVal(j))) for j in range(g)])))
        return self.new_list(LBody(n, lambda i: Val.vstr(f(i, z3.IntVal(0)))))

    def m_pattern_match(self, o, a, k):
        p = self.norm(o).o
        s = a[0]
        if self.is_const(s):
            r = p.match(self.const(s))
            if r is None:
                return NONE
        f = self.basefn("MATCH_%d" % self.consts.id(p), S, B)
        t = self.term(s)
        v = self.fresh_val("m")
        ap = f(self._s(t))
        self.fact(is_tag(v, "vnone") == Not(ap))
        return v

    def getattr_opaque(self, o, name, default=_MISSING):
        t = self.term(o)
        if name in ("with_traceback",):
            return BM(o, ("exc", name))
        if name in ("__name__", "__qualname__", "__module__"):
            if tag_of(t) == "vtyp":
                return Val.vstr(self.basefn("TYPE" + name, Val, S)(t))
            return Val.vstr(self.fresh("nm", S))
        if name == "__members__":
            return vref(self.opaque_dict())
        if name in ("name", "value"):
            return self.basefn("ENUM_" + name, Val, Val)(t)
        return self.opaque_attr(o, name)

    def opaque_attr(self, o, name):
        t = self.term(o)
        if name in ("__origin__", "__args__", "__orig_bases__", "__bases__"):
            # typing constructs: some values, the same ones on each access
            v = self.basefn("TYPING" + name, Val, Val)(t)
            self.ref_bound(v, self.A0)
            if name != "__origin__":
                self.fact(And(is_tag(v, "vref"), self.cls_term(ref_of(v)) == self.cid(tuple)))
            return v
        if name in ("span", "group", "groups", "start", "end"):
            return BM(o, ("match", name))
        if name == "_initialized":
            # set by format_and_raise on the errors it has completed
            return Val.vbool(self.basefn("EXC_INIT", I, B)(ref_of(t)))
        if name in ("tb_next", "__traceback__", "__cause__"):
            return self.fresh_val("tb")
        c = self.cls_term(ref_of(t))
        if z3.is_int_value(c):
            k = self.ct.objs[c.as_long()]
            if (k, name) in self.method_models:  # noqa
                return BM(o, ("model", (k, name)))
        raise Unsupported("attribute %s of an opaque object" % name)

    def opaque_dict(self):
        r = self.fresh("od", I)
        self.fact(And(r >= 0, r < self.A0))
        self.mark_nonneg(r)
        self.kind(r, "dict")
        self.st.f["cls"] = StoreM(self.st.f["cls"], r, self.cid(dict))
        return r

    def exc_attr(self, o, r, cls, name, default):
        if name == "with_traceback":
            return BM(o, ("exc", name))
        if name == "args":
            return self.getf(r, "x:args")
        return super().exc_attr(o, r, cls, name, default)

    def m_exc_with_traceback(self, o, a, k):
        return o

    def getitem(self, o, i):
        n = self.norm(o)
        if isinstance(n, z3.ExprRef) and not isinstance(self.norm(i), SliceV):
            if tag_of(n) == "vtyp" or (tag_of(n) is None and self.must(is_tag(n, "vtyp"))):
                return self.enum_lookup(n, i, "name")
        return super().getitem(o, i)

    def enum_lookup(self, cls, v, how):
        """EnumType[name] / EnumType(value) for a symbolic enum class"""
        ok = self.basefn("ENUM_HAS_" + how, Val, Val, B)(self.term(cls), self.term(v))
        if not self.decide(ok):
            self.raise_py(KeyError if how == "name" else ValueError)
        r = self.basefn("ENUM_GET_" + how, Val, Val, Val)(self.term(cls), self.term(v))
        self.fact(Implies(ok, self.isa_sym(r, acc(self.term(cls), "vtyp"))))
        self.fact(Or(is_tag(r, "vref"), is_tag(r, "vcst")))
        self.ref_bound(r, self.A0)
        return r

    def opaque_call(self, f, args, kwargs):
        if (tag_of(f) == "vtyp" or self.must(is_tag(f, "vtyp"))) and len(args) == 1:
            return self.enum_lookup(f, args[0], "value")
        if self.must(Or(is_tag(f, "vref"), is_tag(f, "vcst"))):
            # a function supplied by the user (resolver, sort key)
            self.assumptions.add("functions supplied by the user (resolvers) modify no config; they may return anything or raise any Exception")
            if self.on_opaque is not None:
                return self.on_opaque(f, args, kwargs)
            return self.havoc_call()
        raise Unsupported("call of an opaque value")

    on_opaque = None
    on_copy = None

    def dict_missing(self, r):
        if self.must(self.basefn("ROLE", I, I)(r) == 5):  # a resolver cache: a defaultdict of dicts
            return self.new_dict()

    def intr_defaultdict(self, args, kwargs):
        if not (args and isinstance(self.norm(args[0]), K) and self.norm(args[0]).o is dict) or kwargs:
            raise Unsupported("defaultdict")
        r = self.alloc(dict)
        self.fact(self.basefn("ROLE", I, I)(r) == 5)
        b = self.dict_body(self.need_dict(args[1])) if len(args) > 1 else self.dict_body(ref_of(self.new_dict()))
        self.setf_init(r, "DICT", b)
        return vref(r)

    def intr_signature(self, args, kwargs):
        """inspect.signature(f): a function of f: fails with a ValueError, or has some parameters"""
        import inspect as _i
        self.assumptions.add("inspect.signature: raises ValueError or returns the parameters, a function of the callable")
        v = self.norm(args[0])
        if isinstance(v, K):
            try:
                ps = list(_i.signature(v.o).parameters)
            except ValueError:
                self.raise_py(ValueError)
            has = lambda k: Or(*[k == vstr(p) for p in ps])
        else:
            f = self.term(v)
            if not self.decide(self.basefn("SIG_OK", Val, B)(f)):
                self.raise_py(ValueError)
            pf = self.basefn("SIG_HAS", Val, Val, B)
            has = lambda k: pf(f, k)
        s = InstV(_i.Signature)
        n = self.fresh("nparams", I)
        self.fact(n >= 0)
        r = self.alloc(dict)
        self.setf_init(r, "DICT", DBody(has, lambda k: NONE, n, lambda i: NONE))
        s.attrs["parameters"] = vref(r)
        return s

    def setattr(self, o, name, v):
        n = self.norm(o)
        if isinstance(n, K) and n.o is self.m.basecontainer.BaseContainer and name == "_resolvers" and "resolvers" in self.st.g:
            self.st.g["resolvers"] = self.term(v)
            return
        return super().setattr(o, name, v)

    def havoc_call(self):
        hi = self.fresh("hi", I)
        self.fact(hi >= self.st.hi)
        self.st.hi = hi
        if self.decide(self.fresh("raises", B)):
            r = self.alloc(Exception)
            c = self.fresh("exccls", I)
            self.st.f["cls"] = StoreM(self.st.f["cls"], r, c)
            self.fact(self.isa_cls(c, Exception))
            raise PyRaise(r)
        return self.fresh_val("res")

    def copy_model(self, deep, v):
        """copy.copy / copy.deepcopy: immutable values themselves; of an object a new object of the same class, whose
        parts (deepcopy) are new as well.  Assumed of the copy module and of classes with their own __deepcopy__ other than
        the package's (whose __deepcopy__ is verified by units of C08)."""
        v = self.norm(v)
        if isinstance(v, InstDict) and not deep:
            d = self.new_dict()
            self.setf_init(ref_of(d), "DICT", self.dict_from_items([(vstr(n), self.term(self.getf(v.ref, n))) for n in self.inst_fields(v.ref)]))
            return d
        if isinstance(v, (K, Tup)):
            return v
        t = self.term(v)
        if tag_of(t) not in (None, "vref"):
            return v
        if self.on_copy is not None:
            return self.on_copy(deep, t)
        if not self.decide(is_tag(t, "vref")):
            return v
        r = ref_of(t)
        c = self.cls_term(r)
        if not deep and z3.is_int_value(c) and self.ct.objs[c.as_long()] in (dict, set, list):
            k = self.ct.objs[c.as_long()]
            n = self.alloc(k)
            f = "LIST" if k is list else "DICT"
            self.setf_init(n, f, self.getf(r, f))
            return vref(n)
        if not deep and not self.must(Not(self.isa_cls(c, self.Node))):
            self.assumptions.add("copy.copy of a node: a new node of the same class, no effect on existing objects")
        self.assumptions.add("copy.deepcopy: a new object of the same class, sharing nothing mutable, no effect on existing objects")
        lo = self.st.hi
        hi = self.fresh("hi", I)
        whole = deep or self.must(self.isa_cls(c, self.m.base.Box))
        n = self.fresh("copyd" if whole else "copys", I)
        self.fact(And(hi >= lo, n >= lo, n < hi))
        self.mark_nonneg(n)
        self.newrefs = self.newrefs | {n.get_id()}
        if whole:
            self.deepnew = self.deepnew | {n.get_id()}
        self.st.hi = hi
        kd = self.kinds.get(r.get_id())
        if kd:
            self.kind(n, kd)
        self.st.f["cls"] = StoreM(self.st.f["cls"], n, c)
        if z3.is_int_value(c) and self.ct.objs[c.as_long()] in (dict, set, list):
            k = self.ct.objs[c.as_long()]
            f = "LIST" if k is list else "DICT"
            b = self.getf(r, f)
            if k is list:
                fn = z3.Function("COPY_%d" % self.fresh("tick", "tick"), I, Val)
                self.setf_init(n, f, LBody(b.n, lambda i: fn(i)))
            elif b.items is not None and all(tag_of(self.term(x)) not in (None, "vref") for _, x in b.items):
                self.setf_init(n, f, b)
            else:
                fn = z3.Function("COPY_%d" % self.fresh("tick", "tick"), Val, Val)
                prim = lambda x: Not(Or(is_tag(x, "vref"), is_tag(x, "vcst")))
                self.setf_init(n, f, DBody(b.has, lambda q: If(prim(b.get(q)), b.get(q), fn(q)), b.n, b.keyat_))
        return Val.vref(n)

    # --------------------------------------------------------------- driver
    def verify(self, contract, name, body):
        """explore body() (which sets up arguments, runs the function and proves the posts)"""
        rep = FnReport(name)
        self.curfn = name
        self.obls = []
        self.npaths = 0
        self.loops_seen = []
        t = time.time()
        ms0, ck0 = self.solver_ms, self.nchecks
        self.used_contracts, self.inlined = set(), set()
        unsup = []

        def guarded():
            try:
                self.fsk = self.fmods = None
                self.inv_cands = list(self.inv_base)
                return body(rep)
            except Unsupported as e:
                if not self.quiet:
                    unsup.append(str(e))
                    if os.environ.get("PYVC_DEBUG"):
                        traceback.print_exc()
                raise PathEnd()
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                if not self.quiet:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    unsup.append("engine: %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                    if os.environ.get("PYVC_DEBUG"):
                        traceback.print_exc()
                raise PathEnd()

        try:
            self.explore(guarded)
        except Budget as e:
            unsup.append("budget: %s" % e)
        except z3.Z3Exception as e:
            unsup.append("z3: %s" % e)
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        rep.obls = self.obls
        rep.paths = self.npaths
        rep.secs = time.time() - t
        rep.solver_ms = self.solver_ms - ms0
        rep.checks = self.nchecks - ck0
        rep.used = sorted(c.short() for c in self.used_contracts)
        rep.inlined = sorted(self.inlined)
        rep.loops = list(self.loops_seen)
        st = {o.status for o in rep.obls}
        if "refuted" in st:
            rep.status = REFUTED
        elif unsup:
            rep.status, rep.why = UNSUPPORTED, "; ".join(sorted(set(unsup)))[:500]
        elif "unknown" in st:
            rep.status = UNKNOWN
        elif not rep.obls:
            rep.status, rep.why = UNSUPPORTED, "no obligations generated"
        else:
            rep.status = PROVED
        if unsup and not rep.why:
            rep.why = "; ".join(sorted(set(unsup)))[:500]
        return rep

    def run_fn(self, fn, args, kwargs=None):
        f = self.host_fn(fn)
        if f is None:
            raise Unsupported("no source for %r" % (fn,))
        return self.run_body(f, args, kwargs or getattr(args, "kw", {}))


# ---- contracts of helper functions that are outside the proofs (assumed)

def intr_format_and_raise(E, args, kwargs):
    names = ["node", "key", "value", "msg", "cause", "type_override"]
    a = dict(zip(names, args))
    a.update(kwargs)
    return far(E, a.get("cause"), a.get("type_override", NONE))


def intr_node_format_and_raise(E, args, kwargs):
    names = ["self", "key", "value", "cause", "msg", "type_override"]
    a = dict(zip(names, args))
    a.update(kwargs)
    return far(E, a.get("cause"), a.get("type_override", NONE))


def ite_leaves(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if is_ite(x):
            todo += [x.arg(1), x.arg(2)]
        else:
            out.append(x)
    return out


def far(E, cause, override):
    """assumed contract of format_and_raise: always raises; the class is that of the cause, mapped
    TypeError->ConfigTypeError, IndexError->ConfigIndexError, or the override; no config is modified"""
    E.assumptions.add("format_and_raise: always raises (class of the cause, or the override, with TypeError/IndexError "
                      "mapped to ConfigTypeError/ConfigIndexError) and modifies no config")
    err = E.m.errors
    ref = ref_of(E.term(cause))
    c = E.cls_term(ref)
    for x in ite_leaves(c):
        for D in E.isa_seen.get(x.get_id(), []):
            for t in (TypeError, IndexError):
                E.fact(Implies(x == E.cid(t), E.isa_fn[D](x) == z3.BoolVal(issubclass(t, D))))
    ov = E.norm(override)
    if isinstance(ov, K):
        ov = E.term(ov)
    nc = If(Eq(c, E.cid(TypeError)), E.cid(err.ConfigTypeError),
            If(Eq(c, E.cid(IndexError)), E.cid(err.ConfigIndexError), c))
    if not z3.is_expr(ov) or tag_of(ov) == "vnone":
        pass
    elif tag_of(ov) == "vtyp":
        t = ov.arg(0)
        t = If(Eq(t, E.cid(TypeError)), E.cid(err.ConfigTypeError), If(Eq(t, E.cid(IndexError)), E.cid(err.ConfigIndexError), t))
        nc = If(E.isa_cls(c, AssertionError), c, t)
    else:
        t = acc(ov, "vtyp")
        t = If(Eq(t, E.cid(TypeError)), E.cid(err.ConfigTypeError), If(Eq(t, E.cid(IndexError)), E.cid(err.ConfigIndexError), t))
        nc = If(is_tag(ov, "vnone"), nc, If(E.isa_cls(c, AssertionError), c, t))
    r = E.alloc(Exception)
    E.st.f["cls"] = StoreM(E.st.f["cls"], r, nc)
    raise PyRaise(r)


def intr_parse(E, args, kwargs):
    """assumed contract of grammar_parser.parse: a pure function; raises only GrammarParseError"""
    E.assumptions.add("grammar_parser.parse: pure; returns a parse tree or raises GrammarParseError")
    s = E.term(args[0])
    ok = E.basefn("PARSES", Val, B)(s)
    if not E.decide(ok):
        E.raise_py(E.m.errors.GrammarParseError)
    v = E.basefn("PARSE_TREE", Val, Val)(s)
    E.fact(is_tag(v, "vref"))
    E.fact(E.isa_cls(E.cls_term(ref_of(v)), E.m.base.Node) == FALSE)
    return v


def intr_visit(E, o, args, kwargs):
    """assumed contract of GrammarVisitor.visit: runs only the callbacks it was given, which modify no config"""
    E.assumptions.add("GrammarVisitor.visit: has no effect but the calls of its two callbacks, whose contracts say that they modify no config")
    return E.havoc_call()


def intr_is_structured_config(E, args, kwargs):
    return intr_type_pred(E, "is_structured_config", args)


def intr_type_pred(E, n, args):
    """predicates over types and objects that inspect Python's type machinery: uninterpreted, false on None,
    scalars, and the package's own nodes"""
    v = E.norm(args[0])
    if E.is_const(v) and not isinstance(v, Tup):
        o = E.const(v)
        f = getattr(sys.modules["omegaconf._utils"], n)
        return vbool(bool(f(o)))
    if not isinstance(v, z3.ExprRef):
        return vbool(False)
    p = E.basefn("P_" + n, Val, B)(v)
    for t in ("vnone", "vbool", "vint", "vflt", "vstr", "vbyt"):
        E.fact(Implies(is_tag(v, t), Not(p)))
    c = E.cls_term(ref_of(v))
    E.fact(Implies(And(is_tag(v, "vref"), Or(*[c == E.cid(k) for k in E.closed + [dict, list, tuple, set]])), Not(p)))
    E.assumptions.add("predicates over Python types (is_structured_config, is_dict_annotation, ...) are pure functions")
    return Val.vbool(p)


def intr_resolve_optional(E, args, kwargs):
    v = E.term(E.norm(args[0]))
    o = E.basefn("OPT_FLAG", Val, B)(v)
    t = E.basefn("OPT_TYPE", Val, Val)(v)
    return Tup([Val.vbool(o), t])
