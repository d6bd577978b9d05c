"""pyvc interpreter: symbolic execution of the real functions' ASTs."""
import ast
import builtins
import enum
import inspect
import os
import pathlib
import types
import typing

import z3

from .core import *
from .core import _gensym

# ------------------------------------------------------- python-level values


class K:
    """a concrete host object (function, class, module, builtin, constant object)"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "K(%r)" % (self.o,)


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Fn:
    """a function defined in interpreted code (closure)"""

    def __init__(self, node, env, glob, cls, name, defaults, kwdefaults, host=None):
        self.node, self.env, self.glob, self.cls, self.name = node, env, glob, cls, name
        self.defaults, self.kwdefaults, self.host = defaults, kwdefaults, host
        self.is_gen = False


class BM:
    """bound method: fn is K/Fn or the name of a modelled builtin method"""

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class InstDict:
    def __init__(self, ref):
        self.ref = ref


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """an iterable view: kind in seq/dictkeys/dictvalues/dictitems/enumerate/zip/reversed/gen/map"""

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


class InstV:
    """an instance of a helper class of the package (an iterator), with its attributes"""

    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class StarV:
    """*v in a call of an unknown function"""

    def __init__(self, v):
        self.v = v


class IterState:
    """iter(list): the list body and the position (kept in the state, so that it is that of the path)"""
    made = {}

    def __init__(self, body, pos):
        self.body, self.pos0 = body, pos
        self.name = "it:%d" % len(self.made)
        self.made[self.name] = self

    def pos(self, E):
        return E.st.g.get(self.name, self.pos0)

    def move(self, E, pos):
        E.st.g[self.name] = pos


class Poison:
    """value of a local that a loop may have changed in a way that is not modelled"""

    def __init__(self, why):
        self.why = why


class Env:
    __slots__ = ("vars", "parent", "nonlocals", "fn", "selfv")

    def __init__(self, parent=None):
        self.vars, self.parent, self.nonlocals = {}, parent, set()
        self.fn = None
        self.selfv = None

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _GenStop(Exception):
    """the consumer of an inlined generator stopped early"""


# names of the attributes that live in instances of the node classes
NODE_FIELDS = {"_metadata", "_parent", "_flags_cache", "_val", "_content", "enum_type"}
META_FIELDS = {"ref_type", "object_type", "optional", "key", "flags", "flags_root", "resolver_cache",
               "key_type", "element_type"}
OPAQUE_METHODS_PURE = set()


FINAL = (slice, types.FunctionType, range, type(None), bool)  # classes that cannot be subclassed


def next_sym():
    return next(_gensym)


def mentions(f, c):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.eq(c):
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        todo.extend(t.children())
    return False


class ClassTable:
    def __init__(self):
        self.ids, self.objs = {}, []

    def id(self, c):
        k = id(c)
        if k not in self.ids:
            self.ids[k] = len(self.objs)
            self.objs.append(c)
        return self.ids[k]


class Interp(Engine):
    def __init__(self, src):
        super().__init__()
        self.src = src  # Source: ASTs of the repo
        self.ct = ClassTable()
        self.consts = ClassTable()  # vcst
        self.floats, self.bytes_ = {}, {}
        self.float_list, self.bytes_list = [], []
        self.payload = {}  # fresh address -> python-level value
        self.isa_fn = {}
        self.isa_seen = {}
        self.contracts = {}
        self.intrinsics = {}
        self.global_objs = {}  # id(host obj) -> Val term (mutable globals as symbolic refs)
        self.global_keep = []
        self.depth = 0
        self.inline_stack = []
        self.inv_obs = []  # observables for loop invariants
        self.closed = []  # closed world of instance classes
        self.base_read_hooks = {}
        self.used_contracts = set()
        self.inlined = set()
        self.assumptions = set()
        self.strof = z3.Function("STR_OF", Val, S)
        self.reprof = z3.Function("REPR_OF", Val, S)
        self.pyeq_fn = z3.Function("PYEQ", Val, Val, B)
        self.truth_fn = z3.Function("TRUTH", Val, B)
        self.cstcls = z3.Function("CSTCLS", I, I)
        self.hasattr_fn = {}
        self.loop_cache = {}
        for c in (type(None), bool, int, float, str, bytes, type, dict, list, tuple, set, object):
            self.ct.id(c)
        self.basefns = {}

    # ------------------------------------------------------------ lifting
    def lift(self, o):
        if o is None:
            return NONE
        if isinstance(o, bool):
            return vbool(o)
        t = type(o)
        if t is int:
            return vint(o)
        if t is str:
            return vstr(o)
        if t is float:
            k = repr(o)
            if k not in self.floats:
                self.floats[k] = len(self.float_list)
                self.float_list.append(o)
            return Val.vflt(z3.IntVal(self.floats[k]))
        if t is bytes:
            if o not in self.bytes_:
                self.bytes_[o] = len(self.bytes_list)
                self.bytes_list.append(o)
            return Val.vbyt(z3.IntVal(self.bytes_[o]))
        if id(o) in self.global_objs:
            return self.global_objs[id(o)]
        if t is tuple:
            return Tup([self.lift(x) for x in o])
        return K(o)

    def term(self, v):
        """python-level value -> Val term"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, K):
            if isinstance(v.o, type) or v.o is typing.Any:
                return Val.vtyp(z3.IntVal(self.ct.id(v.o)))
            t = Val.vcst(z3.IntVal(self.consts.id(v.o)))
            return t
        if v is None:
            raise Unsupported("no value")
        if isinstance(v, Poison):
            raise Unsupported("use of loop-modified local: " + v.why)
        if isinstance(v, (Tup, Fn, BM, SliceV, RangeV, IterV, LBody, DBody)):
            a = getattr(v, "_addr", None) if not isinstance(v, Tup) else None
            r = self.alloc({Tup: tuple, SliceV: slice, RangeV: range}.get(type(v), types.FunctionType))
            self.payload[r.as_long()] = v
            return Val.vref(r)
        raise Unsupported("cannot make a term of %s" % type(v).__name__)

    def norm(self, v):
        """Val term -> python-level value when it is a known constant"""
        if isinstance(v, z3.ExprRef) and v.sort() == Val:
            g = tag_of(v)
            if g == "vtyp" and z3.is_int_value(v.arg(0)):
                return K(self.ct.objs[v.arg(0).as_long()])
            if g == "vcst" and z3.is_int_value(v.arg(0)):
                return K(self.consts.objs[v.arg(0).as_long()])
            if g == "vref" and z3.is_int_value(v.arg(0)):
                p = self.payload.get(v.arg(0).as_long())
                if p is not None:
                    return p
        return v

    def const(self, v):
        """host constant of v, or raises KeyError"""
        v = self.norm(v)
        if isinstance(v, K):
            return v.o
        if isinstance(v, Tup):
            return tuple(self.const(x) for x in v.items)
        if isinstance(v, z3.ExprRef) and v.sort() == Val:
            g = tag_of(v)
            if g == "vnone":
                return None
            if g == "vstr" and z3.is_string_value(v.arg(0)):
                return strval(v.arg(0))
            if g == "vint" and z3.is_int_value(v.arg(0)):
                return v.arg(0).as_long()
            if g == "vbool" and (z3.is_true(v.arg(0)) or z3.is_false(v.arg(0))):
                return z3.is_true(v.arg(0))
            if g == "vflt" and z3.is_int_value(v.arg(0)):
                return self.float_list[v.arg(0).as_long()]
            if g == "vbyt" and z3.is_int_value(v.arg(0)):
                return self.bytes_list[v.arg(0).as_long()]
        raise KeyError

    def is_const(self, v):
        try:
            self.const(v)
            return True
        except KeyError:
            return False

    # ------------------------------------------------------------- classes
    def cid(self, c):
        return z3.IntVal(self.ct.id(c))

    def cls_term(self, r):
        """class id term of the object at address r"""
        return self.st.f["cls"].read(self, r)

    def cls_of(self, v):
        """class id term of a Val term"""
        g = tag_of(v)
        simple = {"vnone": type(None), "vbool": bool, "vint": int, "vflt": float, "vstr": str, "vbyt": bytes,
                  "vtyp": type}
        if g in simple:
            return self.cid(simple[g])
        if g == "vref":
            return self.cls_term(v.arg(0))
        if g == "vcst":
            if z3.is_int_value(v.arg(0)):
                return self.cid(type(self.consts.objs[v.arg(0).as_long()]))
            return self.cst_class(v.arg(0))
        if is_ite(v):
            return If(v.arg(0), self.cls_of(v.arg(1)), self.cls_of(v.arg(2)))
        r = self.cls_term(ref_of(v))
        out = If(is_tag(v, "vref"), r, self.cst_class(acc(v, "vcst")))
        for t, c in simple.items():
            out = If(is_tag(v, t), self.cid(c), out)
        return out

    def cst_class(self, c):
        t = self.cstcls(c)
        self.fact(And(*[t != self.cid(k) for k in [type(None), bool, int, float, str, bytes, type, dict, list, tuple, set] +
                        list(self.closed)]))
        return t

    def apart(self, C, D):
        """an error class of the package and another exception class that no loaded class inherits both from"""
        if not (issubclass(C, BaseException) and issubclass(D, BaseException)):
            return False
        if not any(k.__module__.split(".")[0] == "omegaconf" for k in (C, D)):
            return False
        self.assumptions.add("no exception class outside the package inherits from two unrelated exception classes one of which is the package's")
        todo = [C]
        while todo:
            k = todo.pop()
            if issubclass(k, D):
                return False
            todo.extend(k.__subclasses__())
        return True

    def isa_cls(self, t, C):
        """issubclass(class with id t, C) as a formula"""
        if z3.is_int_value(t):
            try:
                return z3.BoolVal(issubclass(self.ct.objs[t.as_long()], C))
            except TypeError:
                return FALSE
        if is_ite(t):
            return If(t.arg(0), self.isa_cls(t.arg(1), C), self.isa_cls(t.arg(2), C))
        if C is object:
            return TRUE
        if C in FINAL:
            return t == self.cid(C)
        if C in self.closed_roots:
            return Or(*[t == self.cid(k) for k in self.closed if issubclass(k, C)])
        if C not in self.isa_fn:
            self.isa_fn[C] = z3.Function("ISA_%s_%d" % (C.__name__, self.ct.id(C)), I, B)
        f = self.isa_fn[C]
        key = t.get_id()
        self.keep.append(t)
        ap = f(t)
        # facts for known closed classes and interplay with the other predicates used
        for k in self.closed + [object, type(None), bool, int, float, str, bytes, type, dict, list, tuple, set, slice,
                                types.FunctionType, pathlib.Path]:
            self.fact(Implies(t == self.cid(k), ap if issubclass(k, C) else Not(ap)))
        lst = self.isa_seen.setdefault(key, [])
        for D in lst:
            if D is C:
                continue
            d = self.isa_fn[D](t)
            if issubclass(C, D):
                self.fact(Implies(ap, d))
            elif issubclass(D, C):
                self.fact(Implies(d, ap))
            elif layout_conflict(C, D) or self.apart(C, D):
                self.fact(Not(And(ap, d)))
        if C not in lst:
            lst.append(C)
        return ap

    def isa(self, v, C):
        """isinstance(v, C) as formula; v python-level or term"""
        v = self.norm(v)
        if isinstance(C, tuple):
            return Or(*[self.isa(v, c) for c in C])
        if isinstance(v, K):
            return z3.BoolVal(isinstance(v.o, C))
        if isinstance(v, Tup):
            return z3.BoolVal(issubclass(tuple, C))
        if isinstance(v, SliceV):
            return z3.BoolVal(C is slice)
        if isinstance(v, (Fn, BM)):
            return z3.BoolVal(issubclass(types.FunctionType, C))
        if isinstance(v, RangeV):
            return z3.BoolVal(issubclass(range, C))
        if isinstance(v, IterV):
            import collections.abc as ca
            views = {"dictkeys": ca.KeysView, "dictvalues": ca.ValuesView, "dictitems": ca.ItemsView}
            if C in (ca.KeysView, ca.ValuesView, ca.ItemsView):
                return z3.BoolVal(views.get(v.kind) is C)
            if C in (ca.Iterable,):
                return TRUE
            if C in (ca.Sequence, ca.Mapping, ca.MutableMapping, ca.MutableSequence):
                return FALSE
            if C in (list, tuple, dict, set, str, int, float, bytes, bool, slice, type, enum.Enum) or C in self.closed_roots:
                return FALSE
            raise Unsupported("isinstance of a view")
        if isinstance(v, Poison):
            raise Unsupported("poison " + v.why)
        simple = {"vnone": type(None), "vbool": bool, "vint": int, "vflt": float, "vstr": str, "vbyt": bytes}
        g = tag_of(v)
        if g in simple:
            return z3.BoolVal(issubclass(simple[g], C))
        if is_ite(v):
            return If(v.arg(0), self.isa(v.arg(1), C), self.isa(v.arg(2), C))
        out = []
        for t, c in simple.items():
            if issubclass(c, C):
                out.append(is_tag(v, t))
        if issubclass(type, C):
            out.append(is_tag(v, "vtyp"))
        if C in (type(None), bool, type, int, str, float, bytes):  # no other instances (assumed: exact scalars)
            return Or(*out)
        if g in (None, "vref"):
            out.append(And(is_tag(v, "vref"), self.isa_cls(self.cls_term(ref_of(v)), C)))
        if g in (None, "vcst") and C not in self.closed_roots:
            out.append(And(is_tag(v, "vcst"), self.isa_cls(self.cst_class(acc(v, "vcst")), C)))
        return Or(*out)

    # ------------------------------------------------------------- heap ops
    def alloc(self, cls):
        r = self.fresh("obj", "addr")
        self.st.f["cls"] = StoreM(self.st.f["cls"], r, self.cid(cls))
        return r

    def basefn(self, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in self.basefns:
            self.basefns[k] = z3.Function(name, *sorts)
        return self.basefns[k]

    def field(self, name):
        """the map of field name, creating the base map on first use"""
        if name not in self.st.f:
            self.st.f[name] = self.base_map(name)
        return self.st.f[name]

    _base_cache = None

    def base_map(self, name):
        if self._base_cache is None:
            self._base_cache = {}
        if name not in self._base_cache:
            self._base_cache[name] = BaseM(name, self.base_reader(name, name + "0", self.A0))
        return self._base_cache[name]

    def base_reader(self, name, fname, bound):
        if name == "LIST":
            ln = self.basefn("LEN_" + fname, I, I)
            el = self.basefn("ELT_" + fname, I, I, Val)

            def rd(E, r):
                n = ln(r)
                E.fact(n >= 0)

                def get(i):
                    v = el(r, i)
                    E.heap_bound(r, v, bound)
                    E.base_hook("LISTELT", (r, i), v)
                    if bound is E.A0 and not E.is_new(r):
                        E.base_hook("LISTELT0", (r, i, n), v)
                    return v

                return LBody(n, get)

            return rd
        if name == "DICT":
            ln = self.basefn("DLEN_" + fname, I, I)
            hs = self.basefn("DHAS_" + fname, I, Val, B)
            gt = self.basefn("DGET_" + fname, I, Val, Val)
            ka = self.basefn("DKEY_" + fname, I, I, Val)
            ix = self.basefn("DIDX_" + fname, I, Val, I)

            def rd(E, r):
                n = ln(r)
                E.fact(n >= 0)

                def has(k):
                    h = hs(r, k)
                    i = ix(r, k)
                    E.fact(Implies(h, And(i >= 0, i < n, ka(r, i) == k)))
                    E.base_hook("DICTHAS", (r, k), h)
                    return h

                def get(k):
                    v = gt(r, k)
                    E.heap_bound(r, v, bound)
                    has(k)
                    E.base_hook("DICTVAL", (r, k, hs(r, k)), v)
                    if bound is E.A0 and not E.is_new(r):
                        E.base_hook("DICTVAL0", (r, k, hs(r, k)), v)
                    return v

                def keyat(i):
                    k = ka(r, i)
                    E.heap_bound(r, k, bound)
                    E.fact(Implies(And(i >= 0, i < n), And(hs(r, k), ix(r, k) == i)))
                    E.fact(E.is_nkey(k))
                    E.base_hook("DICTKEY", (r, i), k)
                    if bound is E.A0 and not E.is_new(r):
                        E.base_hook("DICTKEY0", (r, i, n), k)
                    return k

                d = DBody(has, get, n, keyat)
                d.idx = lambda k: (has(k), ix(r, k))[1]
                return d

            return rd
        if name == "cls":
            f = self.basefn("CLS_" + fname, I, I)

            def rd(E, r):
                t = f(r)
                E.fact(And(*[t != E.cid(c) for c in (type(None), bool, int, float, str, bytes, type)]))
                E.base_hook("cls", (r,), t)
                return t

            return rd
        f = self.basefn("F_" + fname, I, Val)

        def rd(E, r):
            v = f(r)
            E.heap_bound(r, v, bound)
            E.base_hook(name, (r,), v)
            return v

        return rd

    def is_nkey(self, k):
        """k is a normalised dict key (no bools)"""
        return Not(is_tag(k, "vbool"))

    def heap_bound(self, r, v, bound):
        """what the heap holds at an address that is older than the heap's bound is older than it as well"""
        if self.is_old(r):
            return self.ref_bound(v, bound)
        q = ref_of(v)
        isref = is_tag(v, "vref")
        lo = 0 if bound is self.A0 else -self.last_addr
        hi = self.st.hi
        if not self.is_new(r):
            self.fact(Implies(And(isref, r >= 0, r < bound), And(q >= lo, q < bound)))
        self.fact(Implies(isref, And(q >= -self.last_addr, q < hi)))

    def ref_bound(self, v, bound):
        r = ref_of(v)
        lo = 0 if bound is self.A0 else -self.last_addr
        if bound is self.A0:
            self.mark_nonneg(r)
            self.fact(Implies(is_tag(v, "vref"), And(r >= 0, r < bound)))
        else:
            self.fact(Implies(is_tag(v, "vref"), And(r >= lo, r < bound)))

    def base_hook(self, field, args, v):
        for h in self.base_read_hooks.get(field, ()):
            h(self, args, v)

    def getf(self, r, name):
        return self.field(name).read(self, r)

    def setf(self, r, name, v):
        if self.written is not None:
            self.wrote(name, r)
        self.st.f[name] = StoreM(self.field(name), r, v if isinstance(v, (LBody, DBody)) or name == "cls" else self.term(v))
        self.on_write(r, name, v)

    written_at = None

    def wrote(self, name, r=None):
        """record a write to field name, at a known new object or anywhere"""
        if self.written is None:
            return
        self.written.add(name)
        if self.written_at is not None:
            known = r is not None and z3.is_int_value(r) and -self.loop_addr <= r.as_long() < 0
            self.written_at.setdefault(name, set()).add(r.as_long() if known else None)

    def on_write(self, r, name, v):
        """hook: ghost updates"""

    def list_body(self, r):
        return self.getf(r, "LIST")

    def dict_body(self, r):
        return self.getf(r, "DICT")

    def new_list(self, body):
        r = self.alloc(list)
        if isinstance(body, list):
            body = LBody(None, items=body)
        self.setf_init(r, "LIST", body)
        return vref(r)

    def setf_init(self, r, name, v):
        self.st.f[name] = StoreM(self.field(name), r, v)

    def new_dict(self, pairs=()):
        r = self.alloc(dict)
        self.setf_init(r, "DICT", self.dict_from_items([]))
        v = vref(r)
        for k, x in pairs:
            self.dict_set(r, k, x)
        return v

    def dict_from_items(self, items):
        def has(k):
            return Or(*[Eq(k, ik) for ik, _ in items])

        def get(k):
            out = NONE
            for ik, iv in reversed(items):
                out = If(Eq(k, ik), self.term(iv), out)
            return out

        def keyat(i):
            out = NONE
            for n in range(len(items) - 1, -1, -1):
                out = If(Eq(i, z3.IntVal(n)), items[n][0], out)
            return out

        return DBody(has, get, z3.IntVal(len(items)), keyat, items=items)

    def nkey(self, k):
        """normalise a key term; python-level keys too"""
        v = self.norm(k)
        if isinstance(v, Tup):
            return self.tupkey(v)
        k = self.term(v)
        g = tag_of(k)
        if g == "vbool":
            return Val.vint(If(k.arg(0), z3.IntVal(1), z3.IntVal(0)))
        if g is not None:
            return k
        return If(is_tag(k, "vbool"), Val.vint(If(acc(k, "vbool"), z3.IntVal(1), z3.IntVal(0))), k)

    def tupkey(self, t):
        raise Unsupported("tuple as dict key")

    def dict_get_has(self, r, k):
        b = self.dict_body(r)
        nk = self.nkey(k)
        return b.has(nk), b, nk

    def dict_set(self, r, k, v):
        b = self.dict_body(r)
        nk = self.nkey(k)
        if b.items is not None:
            for n, (ik, iv) in enumerate(b.items):
                e = Eq(ik, nk)
                if z3.is_true(e):
                    items = list(b.items)
                    items[n] = (ik, v)
                    self.setf(r, "DICT", self.dict_from_items(items))
                    return
                if not z3.is_false(e):
                    break
            else:
                self.setf(r, "DICT", self.dict_from_items(b.items + [(nk, v)]))
                return
        tv = self.term(v)
        had = b.has(nk)
        n = If(had, b.n, b.n + 1)
        ka = None
        if b.keyat_ is not None:
            ka = lambda i: If(And(Not(had), i == b.n), nk, b.keyat(i))
        nb = DBody(lambda x: Or(Eq(x, nk), b.has(x)), lambda x: If(Eq(x, nk), tv, b.get(x)), n, ka)
        self.setf(r, "DICT", nb)

    def dict_del(self, r, k):
        """delete a key known to be present"""
        b = self.dict_body(r)
        nk = self.nkey(k)
        if b.items is not None:
            es = [Eq(ik, nk) for ik, _ in b.items]
            if all(z3.is_true(e) or z3.is_false(e) for e in es):
                self.setf(r, "DICT", self.dict_from_items([p for p, e in zip(b.items, es) if z3.is_false(e)]))
                return
        idx = self.fresh("didx", I)
        ka = None
        if b.keyat_ is not None:
            self.fact(And(idx >= 0))
            self.assume(And(idx < b.n, b.keyat(idx) == nk))
            ka = lambda i: If(i < idx, b.keyat(i), b.keyat(i + 1))
        nb = DBody(lambda x: And(Not(Eq(x, nk)), b.has(x)), lambda x: b.get(x), b.n - 1, ka)
        self.setf(r, "DICT", nb)

    # ------------------------------------------------------------ exceptions
    def raise_py(self, cls, msg=None, **attrs):
        r = self.alloc(cls)
        for k, v in attrs.items():
            self.setf_init(r, k, v)
        raise PyRaise(r)

    # --------------------------------------------------------- merged calls
    def merged(self, thunk):
        """run thunk on all paths from here, merge the outcomes, continue with the merge.

        returns the (merged) value or raises PyRaise with a merged exception"""

        def compute():
            rs = self.explore(thunk)
            return self.merge_results(rs)

        m, replay = self.memo(compute)
        groups, facts = m
        for f in facts:
            self.fact(f)
        if not groups:
            raise PathEnd()
        i = self.choose([g[0] for g in groups]) if len(groups) > 1 else 0
        if len(groups) == 1:
            self.assume(groups[0][0])
        cond, st, kind, val = groups[i]
        self.st = st.copy()
        if kind == "exc":
            raise PyRaise(val)
        return val

    def merge_results(self, rs):
        facts = []
        for r in rs:
            facts.extend(r.facts)
        groups = []  # list of lists of PathRes
        for r in rs:
            for g in groups:
                if g[0].kind == r.kind and (r.kind == "exc" or self.mergeable(g[0].val, r.val)):
                    g.append(r)
                    break
            else:
                groups.append([r])
        out = []
        for g in groups:
            conds = [And(*r.pc) for r in g]
            if len(g) == 1:
                out.append((conds[0], g[0].st, g[0].kind, g[0].val))
                continue
            # merge right to left
            st = g[-1].st.copy()
            val = g[-1].val
            for r, c in list(zip(g, conds))[-2::-1]:
                st = self.merge_states(c, r.st, st)
                val = self.merge_vals(c, r.val, val)
            out.append((Or(*conds), st, g[0].kind, val))
        return out, facts

    def mergeable(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        ka = isinstance(a, (z3.ExprRef, K))
        kb = isinstance(b, (z3.ExprRef, K))
        if ka and kb:
            # keep concrete functions/modules apart, merge plain data
            for x in (a, b):
                if isinstance(x, K) and not isinstance(x.o, (type, enum.Enum)) and x.o is not typing.Any:
                    return isinstance(a, K) and isinstance(b, K) and a.o is b.o
            return True
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return all(self.mergeable(x, y) for x, y in zip(a.items, b.items))
        return False

    def merge_vals(self, c, a, b):
        if a is b:
            return a
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup([self.merge_vals(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, K) and isinstance(b, K) and a.o is b.o:
            return a
        ta = a if isinstance(a, z3.ExprRef) else self.term(a)
        tb = b if isinstance(b, z3.ExprRef) else self.term(b)
        return If(c, ta, tb)

    def merge_states(self, c, a, b):
        f = {}
        for n in set(a.f) | set(b.f):
            x = a.f.get(n) or self.base_map(n)
            y = b.f.get(n) or self.base_map(n)
            f[n] = x if x is y else IteM(c, x, y)
        g = {}
        for n in set(a.g) | set(b.g):
            d = IterState.made[n].pos0 if n in IterState.made else None
            x, y = a.g.get(n, d), b.g.get(n, d)
            if x is y:
                g[n] = x
            elif isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                g[n] = If(c, x, y)
            elif x == y:
                g[n] = x
            else:
                raise Unsupported("merge of ghost " + n)
        return State(f, If(c, a.hi, b.hi), g)

    # ------------------------------------------------------ truth / equality
    def truth(self, v):
        """formula: bool(v); may call modelled __bool__/__len__"""
        v = self.norm(v)
        if isinstance(v, K):
            return z3.BoolVal(bool(v.o))
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, (Fn, BM, SliceV)):
            return TRUE
        if isinstance(v, z3.ExprRef) and v.sort() == B:
            return v
        if isinstance(v, IterV):
            n = self.iter_len(v)
            return n > 0
        t = self.term(v)
        g = tag_of(t)
        if is_ite(t):
            return If(t.arg(0), self.truth(t.arg(1)), self.truth(t.arg(2)))
        if g == "vnone":
            return FALSE
        if g == "vbool":
            return t.arg(0)
        if g == "vint":
            return Not(Eq(t.arg(0), z3.IntVal(0)))
        if g == "vstr":
            if z3.is_string_value(t.arg(0)):
                return z3.BoolVal(strval(t.arg(0)) != "")
            return z3.Length(t.arg(0)) > 0
        if g == "vtyp":
            return TRUE
        if g in ("vflt", "vbyt", "vcst"):
            if self.is_const(t):
                return z3.BoolVal(bool(self.const(t)))
            return self.truth_fn(t)
        if g == "vref":
            return self.truth_ref(t)
        return If(is_tag(t, "vbool"), acc(t, "vbool"),
               If(is_tag(t, "vint"), acc(t, "vint") != 0,
               If(is_tag(t, "vstr"), z3.Length(acc(t, "vstr")) > 0,
               If(is_tag(t, "vnone"), FALSE,
               If(is_tag(t, "vtyp"), TRUE,
               If(is_tag(t, "vref"), self.truth_ref(t), self.truth_fn(t)))))))

    def truth_ref(self, t):
        r = ref_of(t)
        c = self.cls_term(r)
        out = self.truth_fn(t)
        if z3.is_int_value(c):
            cls = self.ct.objs[c.as_long()]
            if issubclass(cls, dict):
                return self.dict_body(r).n > 0
            if issubclass(cls, (list, tuple)):
                return self.list_body(r).n > 0
            if cls in self.closed and hasattr(cls, "__len__"):
                return self.node_len_truth(r, cls)
            if not hasattr(cls, "__len__") and not hasattr(cls, "__bool__"):
                return TRUE
            return out
        out = If(c == self.cid(dict), self.dict_body(r).n > 0, out)
        out = If(c == self.cid(list), self.list_body(r).n > 0, out)
        for k in self.closed:
            if hasattr(k, "__len__"):
                out = If(c == self.cid(k), self.node_len_truth(r, k), out)
            else:
                out = If(c == self.cid(k), TRUE, out)
        return out

    def node_len_truth(self, r, cls):
        return self.truth_fn(vref(r))

    def ident(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, K) and isinstance(b, K):
            return z3.BoolVal(a.o is b.o)
        if isinstance(a, (Tup, Fn, BM, SliceV, InstV)) or isinstance(b, (Tup, Fn, BM, SliceV, InstV)):
            return z3.BoolVal(a is b)
        return Eq(self.term(a), self.term(b))

    def pyeq(self, a, b):
        """a == b for values whose __eq__ is builtin; nodes are dispatched by the caller"""
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, K) and isinstance(b, K):
            return z3.BoolVal(a.o == b.o)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return And(*[self.pyeq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Tup) or isinstance(b, Tup):
            o = b if isinstance(a, Tup) else a
            if isinstance(o, z3.ExprRef) and tag_of(o) not in (None, "vref"):
                return FALSE
        ta, tb = self.term(a), self.term(b)
        if ta.eq(tb) and tag_of(ta) in ("vnone", "vbool", "vint", "vstr", "vbyt", "vtyp"):
            return TRUE
        ga, gb = tag_of(ta), tag_of(tb)
        if ga is not None and gb is not None:
            if ga == gb and ga in ("vnone", "vbool", "vint", "vstr", "vbyt", "vtyp"):
                return Eq(ta, tb)
            if ga in ("vbool", "vint") and gb in ("vbool", "vint"):
                return self.num(ta) == self.num(tb)
            prim = ("vnone", "vstr", "vbyt", "vtyp")
            if (ga in prim and gb not in ("vref", "vcst")) or (gb in prim and ga not in ("vref", "vcst")):
                return FALSE
            if ga == "vnone" or gb == "vnone":
                # comparing None with an opaque object: custom __eq__ is not modelled
                return FALSE if (gb if ga == "vnone" else ga) in ("vref", "vcst", "vflt") else FALSE
            return self.eq_opaque(ta, tb)
        if is_ite(ta):
            return If(ta.arg(0), self.pyeq(ta.arg(1), tb), self.pyeq(ta.arg(2), tb))
        if is_ite(tb):
            return If(tb.arg(0), self.pyeq(ta, tb.arg(1)), self.pyeq(ta, tb.arg(2)))
        if gb is not None and ga is None:
            ta, tb, ga, gb = tb, ta, gb, ga
        if ga is not None:
            if ga == "vnone":
                return is_tag(tb, "vnone")
            if ga == "vstr":
                return Or(Eq(ta, tb), And(self.opq(tb), self.eq_opaque(ta, tb)))
            if ga in ("vbool", "vint"):
                n = self.num(ta)
                return Or(And(is_tag(tb, "vint"), acc(tb, "vint") == n),
                          And(is_tag(tb, "vbool"), n == If(acc(tb, "vbool"), z3.IntVal(1), z3.IntVal(0))),
                          And(Or(self.opq(tb), is_tag(tb, "vflt")), self.eq_opaque(ta, tb)))
        # general
        e = Eq(ta, tb)
        numeric = And(Or(is_tag(ta, "vbool"), is_tag(ta, "vint")), Or(is_tag(tb, "vbool"), is_tag(tb, "vint")),
                      self.num(ta) == self.num(tb))
        op = Or(self.opq(ta), self.opq(tb), is_tag(ta, "vflt"), is_tag(tb, "vflt"))
        return If(op, And(Not(is_tag(ta, "vnone")), Not(is_tag(tb, "vnone")), self.eq_opaque(ta, tb)), Or(e, numeric))

    def opq(self, t):
        return Or(is_tag(t, "vref"), is_tag(t, "vcst"))

    def eq_opaque(self, a, b):
        ap = self.pyeq_fn(a, b)
        self.fact(Implies(And(a == b, Not(is_tag(a, "vflt"))), ap))
        return ap

    def num(self, t):
        g = tag_of(t)
        if g == "vint":
            return t.arg(0)
        if g == "vbool":
            return If(t.arg(0), z3.IntVal(1), z3.IntVal(0))
        return If(is_tag(t, "vbool"), If(acc(t, "vbool"), z3.IntVal(1), z3.IntVal(0)), acc(t, "vint"))

    def classify(self, v):
        """fork on the constructor of a Val term; returns the tag"""
        g = tag_of(v)
        if g is not None:
            return g
        i = self.choose([is_tag(v, n) for n in TAGS])
        return TAGS[i]

    def py_class(self, r):
        """fork on the class of the object at address r; returns a host class or None (opaque)"""
        c = self.cls_term(r)
        if z3.is_int_value(c):
            return self.ct.objs[c.as_long()]
        cands = self.closed + [dict, list, tuple, set, slice, types.FunctionType]
        conds = [c == self.cid(k) for k in cands]
        i = self.choose(conds + [And(*[Not(x) for x in conds])])
        return cands[i] if i < len(cands) else None

    # ============================================================ expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, env)

    def ev_Constant(self, e, env):
        if e.value is Ellipsis:
            return K(Ellipsis)
        return self.lift(e.value)

    def ev_Name(self, e, env):
        return self.load_name(e.id, env)

    def load_name(self, n, env):
        f = env.lookup(n)
        if f is not None:
            v = f.vars[n]
            if isinstance(v, Poison):
                raise Unsupported("use of loop-modified local %s: %s" % (n, v.why))
            if v is None:
                raise Unsupported("deleted local " + n)
            return v
        g = self.env_fn(env).glob
        if n in g:
            return self.lift_global(g[n])
        if hasattr(builtins, n):
            return K(getattr(builtins, n))
        if n in getattr(self.env_fn(env), "localnames", ()):
            self.raise_py(UnboundLocalError)
        raise Unsupported("name " + n)

    def lift_global(self, o):
        return self.lift(o)

    def env_fn(self, env):
        e = env
        while e.fn is None:
            e = e.parent
        return e.fn

    def ev_Tuple(self, e, env):
        return Tup(self.ev_list(e.elts, env))

    def ev_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unroll(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ev_List(self, e, env):
        return self.new_list(self.ev_list(e.elts, env))

    def ev_Set(self, e, env):
        items = self.ev_list(e.elts, env)
        if all(self.is_const(x) for x in items):
            return K({self.const(x) for x in items})
        v = self.new_dict([(x, NONE) for x in items])
        self.st.f["cls"] = StoreM(self.st.f["cls"], ref_of(v), self.cid(set))
        return v

    def ev_Dict(self, e, env):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                b = self.dict_body(self.need_dict(src))
                if b.items is None:
                    raise Unsupported("** of a symbolic dict in display")
                pairs.extend(b.items)
            else:
                kk = self.ev(k, env)
                pairs.append((kk, self.ev(v, env)))
        return self.new_dict(pairs)

    def need_dict(self, v):
        t = self.term(v)
        return ref_of(t)

    def ev_IfExp(self, e, env):
        # merge when both arms are simple
        c = self.truth(self.ev(e.test, env))
        if self.decide(c):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def ev_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            b = self.decide(self.truth(v))
            if is_and and not b:
                return v
            if not is_and and b:
                return v
        return v

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Val.vbool(Not(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if self.is_const(v):
                return self.lift(-self.const(v))
            return Val.vint(-self.as_int(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary op")

    def as_int(self, v, err=TypeError):
        """Int term of a value that must be an int (forks, raising TypeError otherwise)"""
        t = self.term(v)
        g = tag_of(t)
        if g in ("vint", "vbool"):
            return self.num(t)
        if self.decide(Or(is_tag(t, "vint"), is_tag(t, "vbool"))):
            return self.num(t)
        self.raise_py(err)

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if self.is_const(a) and self.is_const(b) and not isinstance(a, Tup):
            x, y = self.const(a), self.const(b)
            fn = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y,
                  ast.BitOr: lambda: x | y, ast.Mod: lambda: x % y, ast.FloorDiv: lambda: x // y}.get(type(op))
            if fn:
                return self.lift(fn())
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(op, ast.Mod) and isinstance(a, z3.ExprRef) and tag_of(a) == "vstr":
            return Val.vstr(self.fresh("fmt", S))
        ta = self.term(a)
        tb = self.term(b)
        ga = self.classify(ta)
        if ga == "vstr" and isinstance(op, ast.Add):
            if not self.decide(is_tag(tb, "vstr")):
                self.raise_py(TypeError)
            if not self.precise_str:
                return Val.vstr(self.fresh("cat", S))
            return Val.vstr(z3.Concat(acc(ta, "vstr"), acc(tb, "vstr")))
        if ga == "vref":
            r = ref_of(ta)
            cls = self.py_class(r)
            if cls is list and isinstance(op, ast.Add):
                rb = ref_of(tb)
                return self.new_list(self.concat(self.list_body(r), self.list_body(rb)))
            nm = {ast.Add: "__add__", ast.BitOr: "__or__", ast.Mult: "__mul__"}.get(type(op))
            if nm and cls in self.closed and hasattr(cls, nm):
                return self.call(self.getattr(ta, nm), [b], {})
        if ga in ("vint", "vbool"):
            if isinstance(op, ast.Mult) and tag_of(tb) == "vref" and self.py_class(ref_of(tb)) is list:
                n = self.num(ta)
                body = self.list_body(ref_of(tb))
                if body.items is not None and z3.is_int_value(n):
                    return self.new_list(body.items * n.as_long())
                if body.items is not None and len(body.items) == 1:
                    x = self.term(body.items[0])
                    return self.new_list(LBody(If(n > 0, n, z3.IntVal(0)), lambda i: x))
                if body.items is None and self.must(body.n == 1):
                    x = self.term(body.get(self, z3.IntVal(0)))
                    return self.new_list(LBody(If(n > 0, n, z3.IntVal(0)), lambda i: x))
                raise Unsupported("list repetition")
            gb = self.classify(tb)
            if gb in ("vint", "vbool"):
                x, y = self.num(ta), self.num(tb)
                if isinstance(op, ast.Add):
                    return Val.vint(x + y)
                if isinstance(op, ast.Sub):
                    return Val.vint(x - y)
                if isinstance(op, ast.Mult):
                    return Val.vint(x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod)):
                    if self.decide(y == 0):
                        self.raise_py(ZeroDivisionError)
                    q = If(y > 0, x / y, (-x) / (-y))
                    # z3 div is euclidean: floor for a positive divisor
                    if isinstance(op, ast.FloorDiv):
                        return Val.vint(q)
                    return Val.vint(x - y * q)
        raise Unsupported("binary op %s on %s" % (type(op).__name__, ga))

    def concat(self, a, b):
        if a.items is not None and b.items is not None:
            return LBody(None, items=a.items + b.items)
        return LBody(a.n + b.n, lambda i: If(i < a.n, self.term(a.get(self, i)), self.term(b.get(self, i - a.n))))

    def ev_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = []
        for op, rn in zip(e.ops, e.comparators):
            right = self.ev(rn, env)
            c = self.compare(op, left, right)
            res.append(c)
            left = right
            if len(e.ops) > 1 and op is not e.ops[-1]:
                if not self.decide(c):
                    return Val.vbool(FALSE)
        return Val.vbool(And(*res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.ident(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.ident(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        x, y = self.norm(a), self.norm(b)
        x, y = self.as_int(x), self.as_int(y)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported("compare " + type(op).__name__)

    def node_ref(self, v):
        """formula: v is a node object"""
        v = self.norm(v)
        if not isinstance(v, z3.ExprRef):
            return FALSE
        return self.isa(v, self.Node)

    def not_impl(self, r):
        """did a comparison method give NotImplemented?"""
        r = self.norm(r)
        if isinstance(r, K):
            return r.o is NotImplemented
        if not isinstance(r, z3.ExprRef) or r.sort() == B or tag_of(r) not in (None, "vcst"):
            return False
        return self.decide(r == self.term(K(NotImplemented)))

    def eq(self, a, b):
        nodes = False
        for x, y in ((a, b), (b, a)):
            f = self.node_ref(x)
            if not z3.is_false(f) and self.decide(f):
                nodes = True
                r = self.call(self.getattr(self.term(self.norm(x)), "__eq__"), [y], {})
                if not self.not_impl(r):
                    return self.truth(r)
        return Eq(self.term(self.norm(a)), self.term(self.norm(b))) if nodes else self.pyeq(a, b)

    def ne(self, a, b):
        nodes = False
        for x, y in ((a, b), (b, a)):
            f = self.node_ref(x)
            if not z3.is_false(f) and self.decide(f):
                nodes = True
                r = self.call(self.getattr(self.term(self.norm(x)), "__ne__"), [y], {})
                if not self.not_impl(r):
                    return self.truth(r)
            elif not nodes:
                break  # a plain left side: its __ne__ is the negation of its comparison
        return Not(Eq(self.term(self.norm(a)), self.term(self.norm(b))) if nodes else self.eq(a, b))

    def contains(self, c, x):
        c = self.norm(c)
        if isinstance(c, Tup):
            return Or(*[self.pyeq_or_node(x, y) for y in c.items])
        if isinstance(c, K):
            if isinstance(c.o, (set, frozenset, list, tuple, dict)):
                return Or(*[self.pyeq_or_node(x, self.lift(y)) for y in c.o])
            raise Unsupported("in K(%r)" % (c.o,))
        if isinstance(c, IterV) and c.kind == "dictkeys":
            h, _, _ = self.dict_get_has(c.a[0], x)
            return h
        if isinstance(c, InstDict):
            n = self.const(x)
            return z3.BoolVal(self.inst_has(c.ref, n))
        t = self.term(c)
        g = self.classify(t)
        if g == "vstr":
            tx = self.term(x)
            if not self.decide(is_tag(tx, "vstr")):
                self.raise_py(TypeError)
            return z3.Contains(acc(t, "vstr"), acc(tx, "vstr"))
        if g == "vref":
            r = ref_of(t)
            cls = self.py_class(r)
            if cls in (dict, set):
                self.check_hashable(x)
                h, _, _ = self.dict_get_has(r, x)
                return h
            if cls in (list, tuple):
                b = self.list_body(r)
                if b.items is not None:
                    return Or(*[self.pyeq_or_node(x, y) for y in b.items])
                raise Unsupported("in symbolic list")
            if cls in self.closed:
                return self.truth(self.call(self.getattr(t, "__contains__"), [x], {}))
        if g in ("vnone", "vbool", "vint", "vflt", "vtyp"):
            self.raise_py(TypeError)
        raise Unsupported("in " + g)

    def check_hashable(self, x):
        x = self.norm(x)
        if isinstance(x, z3.ExprRef) and tag_of(x) in (None, "vref"):
            c = self.cls_term(ref_of(x))
            un = And(is_tag(x, "vref"), Or(c == self.cid(dict), c == self.cid(list), c == self.cid(set)))
            if self.decide(un):
                self.raise_py(TypeError)

    def pyeq_or_node(self, x, y):
        return self.eq(x, y)

    precise_str = False  # model the text of concatenations (slow); otherwise some string

    def ev_JoinedStr(self, e, env):
        parts = []
        pure = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(strlit(v.value))
            else:
                x = self.norm(self.ev(v.value, env))
                if v.conversion == -1 and v.format_spec is None and isinstance(x, z3.ExprRef):
                    g = tag_of(x)
                    if g == "vstr":
                        parts.append(x.arg(0))
                        continue
                    parts.append(self.str_of(x))
                else:
                    pure = False
        if not parts:
            return vstr("")
        if not pure or not self.precise_str and len(parts) > 1:
            return Val.vstr(self.fresh("fstr", S))
        return Val.vstr(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def str_of(self, t):
        """String term of str(t)"""
        g = tag_of(t)
        if g == "vstr":
            return t.arg(0)
        if self.is_const(t) and g in ("vint", "vbool", "vnone", "vflt"):
            return strlit(str(self.const(t)))
        if g in ("vref",):
            return self.fresh("str", S)
        fr = self.fresh("str", S)
        return If(is_tag(t, "vstr"), acc(t, "vstr"), If(Or(is_tag(t, "vref"), is_tag(t, "vcst")), fr, self.strof(t)))

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign_target(e.target, v, env)
        return v

    def ev_Lambda(self, e, env):
        f = Fn(e, env, self.env_fn(env).glob, self.env_fn(env).cls, "<lambda>", [self.ev(d, env) for d in e.args.defaults],
               {})
        return f

    def ev_Starred(self, e, env):
        raise Unsupported("starred")

    def ev_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, self.mangle(e.attr, env))

    def mangle(self, name, env):
        """private names inside a class body"""
        if name.startswith("__") and not name.endswith("__"):
            x = env
            while x is not None:
                if x.fn is not None and x.fn.cls is not None:
                    return "_%s%s" % (x.fn.cls.__name__.lstrip("_"), name)
                x = x.parent
        return name

    def ev_Slice(self, e, env):
        return SliceV(*[NONE if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        return self.getitem(o, i)

    # ---- comprehension
    def ev_ListComp(self, e, env):
        return self.comp(e, env, lambda acc: self.new_list(acc))

    def ev_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda acc: self.new_list(acc))

    def ev_SetComp(self, e, env):
        def mk(acc):
            if all(self.is_const(x) for x in acc):
                return K({self.const(x) for x in acc})
            raise Unsupported("symbolic set comprehension")

        return self.comp(e, env, mk)

    def ev_DictComp(self, e, env):
        out = []
        self.comp_loop(e.generators, 0, Env(env), lambda en: out.append((self.ev(e.key, en), self.ev(e.value, en))))
        return self.new_dict(out)

    def comp(self, e, env, mk):
        if len(e.generators) == 1:
            it = self.ev(e.generators[0].iter, env)
            try:
                self.unroll(it)
            except Unsupported:
                return self.sym_comp(e, it, env)
        acc_ = []
        self.comp_loop(e.generators, 0, Env(env), lambda en: acc_.append(self.ev(e.elt, en)))
        return mk(acc_)

    def sym_comp(self, e, it, env):
        """[elt for x in <symbolic collection> (if c)]: element-wise, when evaluating elements has no effect"""
        if not isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            raise Unsupported("symbolic comprehension kind")
        g = e.generators[0]
        n, item = self.iter_view(it)
        n0 = n()
        i = self.fresh("ci", I)
        k0 = len(self.run.freshlog)
        saved_w, self.written = self.written, set()

        def one():
            self.assume(And(i >= 0, i < n0))
            en = Env(env)
            self.assign_target(g.target, item(i), en)
            for c in g.ifs:
                if not self.decide(self.truth(self.ev(c, en))):
                    return NONE
            return self.term(self.ev(e.elt, en))

        def compute():
            before = next_sym()
            rs = self.explore(one)
            return self.merge_results(rs), next_sym() - before > 1

        try:
            (m, created), _ = self.memo(compute)
        finally:
            w, self.written = self.written, saved_w
        if w - {"cls"}:
            raise Unsupported("comprehension with effects")
        groups, facts = m
        if any(kind == "exc" for _, _, kind, _ in groups):
            exc = [x for x in groups if x[2] == "exc"][0]
            if self.choose([TRUE, And(i >= 0, i < n0)]) == 1:
                for f in facts:
                    self.fact(f)
                self.assume(exc[0])
                self.st = exc[1].copy()
                raise PyRaise(exc[3])
        vals = [x for x in groups if x[2] == "ret"]
        if created or g.ifs or len(vals) != 1:
            t = self.fresh("tick", "tick")
            fn = z3.Function("COMP_%d" % t, I, Val)
            ln = n0
            if g.ifs:
                ln = self.fresh("clen", I)
                self.fact(And(ln >= 0, ln <= n0))
            return self.new_list(LBody(ln, lambda j: fn(j)))
        v = vals[0][3]
        fs = [f for f in facts if mentions(f, i)]

        def at(j):
            # the facts are instances of axioms at i: they hold at j as well
            for f in fs:
                self.fact(z3.substitute(f, (i, j)))
            return z3.substitute(v, (i, j))
        return self.new_list(LBody(n0, at))

    def comp_loop(self, gens, i, env, leaf):
        if i == len(gens):
            leaf(env)
            return
        g = gens[i]
        for x in self.unroll(self.ev(g.iter, env)):
            self.assign_target(g.target, x, env)
            if all(self.decide(self.truth(self.ev(c, env))) for c in g.ifs):
                self.comp_loop(gens, i + 1, env, leaf)

    def unroll(self, it):
        """concrete python list of the items of an iterable, or Unsupported"""
        it = self.norm(it)
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, K):
            if isinstance(it.o, (list, tuple, set, frozenset, dict, str)) or isinstance(it.o, type) and issubclass(it.o, enum.Enum):
                xs = sorted(it.o, key=repr) if isinstance(it.o, (set, frozenset)) else list(it.o)
                return [self.lift(x) for x in xs]
        if isinstance(it, RangeV):
            try:
                return [vint(i) for i in range(*[x.as_long() if not isinstance(x, int) else x for x in (it.lo, it.hi, it.step)])]
            except AttributeError:
                raise Unsupported("symbolic range in unrolled position")
        if isinstance(it, InstDict):
            return [self.lift(n) for n in self.inst_fields(it.ref)]
        if isinstance(it, IterV):
            if it.kind == "institems":
                return [Tup([self.lift(n), self.getf(it.a[0], n)]) for n in self.inst_fields(it.a[0])]
            if it.kind in ("dictkeys", "dictvalues", "dictitems"):
                b = self.dict_body(it.a[0])
                if b.items is None:
                    raise Unsupported("symbolic dict in unrolled position")
                return [{"dictkeys": k, "dictvalues": v, "dictitems": Tup([k, v])}[it.kind] for k, v in b.items]
            if it.kind == "enumerate":
                return [Tup([vint(n), x]) for n, x in enumerate(self.unroll(it.a[0]))]
            if it.kind == "zip":
                return [Tup(x) for x in zip(*[self.unroll(y) for y in it.a])]
            if it.kind == "reversed":
                return list(reversed(self.unroll(it.a[0])))
            if it.kind == "gen":
                out = []
                self.run_gen(it.a[0], it.a[1], it.a[2], out.append)
                return out
        if isinstance(it, z3.ExprRef) and tag_of(it) == "vref":
            r = ref_of(it)
            c = self.cls_term(r)
            if z3.is_int_value(c):
                cls = self.ct.objs[c.as_long()]
                if cls in (list, tuple):
                    b = self.list_body(r)
                    if b.items is not None:
                        return list(b.items)
                    if z3.is_int_value(b.n):
                        return [b.get(self, z3.IntVal(i)) for i in range(b.n.as_long())]
                if cls in (dict, set):
                    b = self.dict_body(r)
                    if b.items is not None:
                        return [k for k, _ in b.items]
                    if z3.is_int_value(b.n) and b.n.as_long() == 0:
                        return []
        raise Unsupported("iteration over a symbolic collection in unrolled position")
