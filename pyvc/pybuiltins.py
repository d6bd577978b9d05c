"""pyvc: models of builtin functions, constructors and methods."""
import builtins
import copy
import dataclasses
import math
import operator
import enum
import pathlib
import itertools
import types
import typing
import warnings

import z3

from .core import *
from .interp import *
from .execu import Exec, CMV, _MISSING


class Builtins(Exec):
    def call_builtin(self, o, args, kwargs):
        n = getattr(o, "__name__", None)
        mod = getattr(o, "__module__", None)
        if mod == "builtins" and getattr(builtins, n, None) is o:
            m = getattr(self, "bi_" + n, None)
            if m is not None:
                return m(args, kwargs)
        if o in (warnings.warn,):
            return NONE
        if o is operator.index:
            return Val.vint(self.as_int(args[0]))
        if o is math.isnan:
            return self.bi_isnan(args, kwargs)
        if o is dataclasses.fields:
            return self.dc_fields(args[0])
        if o is copy.copy or o is copy.deepcopy:
            return self.copy_model(o is copy.deepcopy, args[0])
        if self.all_const(args, kwargs) and o in self.PURE_HOST:
            try:
                return self.lift(o(*[self.const(a) for a in args], **{k: self.const(v) for k, v in kwargs.items()}))
            except Exception as e:  # the same exception in the program
                self.raise_py(type(e))
        if o is typing.cast:
            return args[1]
        if o is object.__new__:
            c = self.norm(args[0])
            if isinstance(c, z3.ExprRef) and tag_of(c) == "vtyp" and z3.is_int_value(acc(c, "vtyp")):
                c = K(self.ct.objs[acc(c, "vtyp").as_long()])
            if isinstance(c, K) and c.o in self.closed:
                return Val.vref(self.alloc(c.o))
        raise Unsupported("call of host function %s.%s" % (mod, n))

    method_models = {}
    PURE_HOST = set()

    def dc_fields(self, v):
        """dataclasses.fields of an opaque dataclass: some list of field objects; TypeError for others"""
        v = self.norm(v)
        if isinstance(v, K):
            try:
                return self.new_list([self.lift(f) for f in dataclasses.fields(v.o)])
            except TypeError:
                self.raise_py(TypeError)
        t = self.term(v)
        ok = self.basefn("P_is_dataclass", Val, B)(t)
        if not self.decide(ok):
            self.raise_py(TypeError)
        n = self.basefn("DCF_LEN", Val, I)(t)
        self.fact(n >= 0)
        fn = self.basefn("DCF_AT", Val, I, I)

        def get(i):
            r = fn(t, i)
            self.fact(And(r >= 0, r < self.A0))
            self.mark_nonneg(r)
            self.fact(self.cls_term(r) == self.cid(dataclasses.Field))
            return Val.vref(r)
        return self.new_list(LBody(n, get))

    def all_const(self, args, kwargs):
        return all(self.is_const(a) for a in args) and all(self.is_const(v) for v in kwargs.values())

    def copy_model(self, deep, v):
        raise Unsupported("copy")

    # ---- builtin functions
    def bi_isinstance(self, a, k):
        return Val.vbool(self.isa_arg(a[0], a[1]))

    def isa_arg(self, v, C):
        C = self.norm(C)
        if isinstance(C, Tup):
            return Or(*[self.isa_arg(v, x) for x in C.items])
        if isinstance(C, K):
            if C.o is typing.Any:
                self.raise_py(TypeError)
            o = typing.get_origin(C.o) or C.o
            return self.isa(v, o)
        # symbolic class: isinstance against a type term
        t = self.term(C)
        return self.isa_sym(v, acc(t, "vtyp"))

    isa_sym_fn = None

    def isa_sym(self, v, ct):
        return self.subcls(self.cls_of(self.term(v)), ct)

    def subcls(self, c, ct):
        """issubclass of two symbolic classes"""
        if self.isa_sym_fn is None:
            self.isa_sym_fn = z3.Function("SUBCLS", I, I, B)
        ap = self.isa_sym_fn(c, ct)
        self.fact(Implies(c == ct, ap))
        self.fact(Implies(And(ap, self.isa_cls(ct, enum.Enum)), self.isa_cls(c, enum.Enum)))
        for k in (type(None), bool, int, float, str, bytes):
            self.fact(Implies(ct == self.cid(k), ap == Or(c == self.cid(k), *([c == self.cid(bool)] if k is int else []))))
            for k2 in (type(None), bool, int, float, str, bytes):
                self.fact(Implies(And(c == self.cid(k), ct == self.cid(k2)), ap == z3.BoolVal(issubclass(k, k2))))
            self.fact(Implies(And(c == self.cid(k), ap), Or(*[ct == self.cid(x) for x in k.__mro__])))
        return ap

    def bi_issubclass(self, a, k):
        v = self.norm(a[0])
        C = self.norm(a[1])
        Cs = C.items if isinstance(C, Tup) else [C]
        if isinstance(v, K):
            if not isinstance(v.o, type):
                self.raise_py(TypeError)
            if all(isinstance(self.norm(c), K) for c in Cs):
                try:
                    return vbool(issubclass(v.o, tuple(self.norm(c).o for c in Cs)))
                except TypeError:
                    self.raise_py(TypeError)
        t = self.term(v)
        if not self.decide(is_tag(t, "vtyp")):
            self.raise_py(TypeError)
        out = []
        for c in Cs:
            c = self.norm(c)
            if isinstance(c, K):
                out.append(self.isa_cls(acc(t, "vtyp"), c.o))
                continue
            if not self.decide(is_tag(self.term(c), "vtyp")):
                self.raise_py(TypeError)
            out.append(self.subcls(acc(t, "vtyp"), acc(c, "vtyp")))
        return Val.vbool(Or(*out))

    def bi_len(self, a, k):
        v = self.norm(a[0])
        if isinstance(v, Tup):
            return vint(len(v.items))
        if isinstance(v, K):
            return vint(len(v.o))
        if isinstance(v, IterV):
            return Val.vint(self.iter_len(v))
        if isinstance(v, RangeV):
            return Val.vint(self.iter_len(v))
        t = self.term(v)
        g = self.classify(t)
        if g == "vstr":
            return Val.vint(z3.Length(acc(t, "vstr"))) if not self.is_const(t) else vint(len(self.const(t)))
        if g == "vref":
            r = ref_of(t)
            cls = self.py_class(r)
            if cls in (list, tuple):
                return Val.vint(self.list_body(r).n)
            if cls in (dict, set):
                return Val.vint(self.dict_body(r).n)
            if cls in self.closed and hasattr(cls, "__len__"):
                return self.call(self.getattr(t, "__len__"), [], {})
        if g in ("vnone", "vbool", "vint", "vflt", "vtyp"):
            self.raise_py(TypeError)
        raise Unsupported("len")

    def bi_getattr(self, a, k):
        n = self.const(a[1])
        if len(a) > 2:
            o = self.norm(a[0])
            if isinstance(o, (K,)):
                return self.getattr(o, n, a[2])
            h = self.hasattr_f(o, n)
            if not self.decide(h):
                return a[2]
        return self.getattr(a[0], n)

    def bi_hasattr(self, a, k):
        return Val.vbool(self.hasattr_f(a[0], self.const(a[1])))

    def bi_setattr(self, a, k):
        self.setattr(a[0], self.const(a[1]), a[2])
        return NONE

    def bi_type(self, a, k):
        return self.type_of(a[0])

    def bi_id(self, a, k):
        t = self.term(a[0])
        f = self.basefn("IDOF", Val, I)
        inv = self.basefn("IDINV", I, Val)
        self.fact(inv(f(t)) == t)
        return Val.vint(f(t))

    def bi_callable(self, a, k):
        v = self.norm(a[0])
        if isinstance(v, K):
            return vbool(callable(v.o))
        if isinstance(v, (Fn, BM)):
            return vbool(True)
        t = self.term(v)
        if tag_of(t) in ("vnone", "vbool", "vint", "vstr", "vflt", "vbyt"):
            return vbool(False)
        f = self.basefn("CALLABLE", Val, B)
        for n in ("vnone", "vbool", "vint", "vstr", "vflt", "vbyt"):
            self.fact(Implies(is_tag(t, n), Not(f(t))))
        return Val.vbool(f(t))

    def bi_range(self, a, k):
        xs = [self.as_int(x) for x in a]
        if len(xs) == 1:
            xs = [z3.IntVal(0), xs[0], z3.IntVal(1)]
        elif len(xs) == 2:
            xs.append(z3.IntVal(1))
        return RangeV(*[z3.simplify(x) for x in xs])

    def bi_enumerate(self, a, k):
        return IterV("enumerate", a[0])

    def bi_zip(self, a, k):
        return IterV("zip", *a)

    def bi_reversed(self, a, k):
        return IterV("reversed", a[0])

    def bi_iter(self, a, k):
        v = self.norm(a[0])
        if isinstance(v, z3.ExprRef) and self.decide(self.node_ref(v)):
            return self.call(self.getattr(v, "__iter__"), [], {})
        if isinstance(v, z3.ExprRef):
            g = self.classify(v)
            if g == "vref":
                k = self.py_class(ref_of(v))
                if k in (list, tuple):
                    return IterState(self.list_body(ref_of(v)), z3.IntVal(0))
                if k in (dict, set):
                    b = self.dict_body(ref_of(v))
                    return IterState(LBody(b.n, b.keyat), z3.IntVal(0))
            elif g == "vstr":
                s = self._s(v)
                return IterState(LBody(z3.Length(s), lambda i: Val.vstr(z3.SubString(s, i, 1))), z3.IntVal(0))
            elif g in ("vnone", "vbool", "vint", "vflt", "vtyp"):
                self.raise_py(TypeError)
            raise Unsupported("iter of an opaque value")
        if isinstance(v, Tup):
            return IterState(LBody(None, items=list(v.items)), z3.IntVal(0))
        if isinstance(v, IterV) and v.kind != "gen":
            n, f = self.iter_view(v)
            return IterState(LBody(n(), f), z3.IntVal(0))
        return v

    def bi_next(self, a, k):
        v = self.norm(a[0])
        if isinstance(v, IterState):
            pos = v.pos(self)
            if not self.must(pos < v.body.n):
                if not self.decide(pos < v.body.n):
                    if len(a) > 1:
                        return a[1]
                    self.raise_py(StopIteration)
            x = v.body.get(self, pos)
            v.move(self, pos + 1)
            return x
        if isinstance(v, InstV):
            return self.run_body(self.host_fn(v.cls.__next__), [v], {})
        raise Unsupported("next")

    def bi_any(self, a, k):
        return Val.vbool(Or(*[self.truth(x) for x in self.unroll(a[0])]))

    def bi_all(self, a, k):
        return Val.vbool(And(*[self.truth(x) for x in self.unroll(a[0])]))

    def bi_abs(self, a, k):
        n = self.as_int(a[0])
        return Val.vint(If(n < 0, -n, n))

    def bi_min(self, a, k):
        x, y = self.as_int(a[0]), self.as_int(a[1])
        return Val.vint(If(x <= y, x, y))

    def bi_max(self, a, k):
        x, y = self.as_int(a[0]), self.as_int(a[1])
        return Val.vint(If(x >= y, x, y))

    def bi_repr(self, a, k):
        return Val.vstr(self.fresh("repr", S))

    def bi_print(self, a, k):
        return NONE

    def bi_hash(self, a, k):
        self.check_hashable(a[0])
        return Val.vint(self.fresh("hash", I))

    def bi_sorted(self, a, k):
        """a new list with the elements in some order; the key function is executed for an arbitrary element, and the
        comparisons may raise"""
        key, rev = k.get("key", NONE), k.get("reverse", NONE)
        n, f = self.iter_view(a[0])
        n0 = n()
        if not self.is_none(key) and self.decide(n0 > 0):
            i = self.fresh("si", I)
            self.fact(And(i >= 0, i < n0))
            saved_w, self.written = self.written, set()
            try:
                self.call(key, [f(i)], {})
            finally:
                w, self.written = self.written, saved_w
            if w - {"cls", "_flags_cache"}:
                raise Unsupported("sort key with effects")
        if self.decide(self.fresh("cmp_raises", B)):
            self.raise_py(TypeError)
        self.assumptions.add("sorted(): returns a permutation; comparisons have no side effect (TypeError or the elements' order)")
        t = self.fresh("tick", "tick")
        pm, pi = z3.Function("PERM_%d" % t, I, I), z3.Function("PINV_%d" % t, I, I)

        def get(q):
            self.fact(Implies(And(q >= 0, q < n0), And(pm(q) >= 0, pm(q) < n0, pi(pm(q)) == q)))
            return self.term(f(pm(q)))
        return self.new_list(LBody(n0, get))

    # ---- constructors
    def construct_builtin(self, cls, args, kwargs):
        if cls is type and len(args) == 1:
            return self.type_of(args[0])
        if cls is object and not args:
            return vref(self.alloc(object))
        if cls is bool:
            return Val.vbool(self.truth(args[0])) if args else vbool(False)
        if cls is str:
            if not args:
                return vstr("")
            v = self.norm(args[0])
            if isinstance(v, z3.ExprRef):
                return Val.vstr(self.str_of(v))
            return Val.vstr(self.fresh("str", S))
        if cls in (int, float):
            return self.num_construct(cls, args)
        if cls in (enumerate, zip, reversed, range):
            return getattr(self, "bi_" + cls.__name__)(args, kwargs)
        if cls is list:
            if not args:
                return self.new_list([])
            v = self.norm(args[0])
            try:
                return self.new_list(self.unroll(v))
            except Unsupported:
                n, f = self.iter_view(v)
                n0 = n()
                self.fact(n0 >= 0)
                return self.new_list(LBody(n0, lambda i: self.term(f(i))))
        if cls is tuple:
            return Tup(self.unroll(args[0])) if args else Tup([])
        if cls in (set, frozenset):
            items = self.unroll(args[0]) if args else []
            if cls is frozenset and all(self.is_const(x) for x in items):
                return K(frozenset(self.const(x) for x in items))
            v = self.new_dict([(x, NONE) for x in items])
            self.st.f["cls"] = StoreM(self.st.f["cls"], ref_of(v), self.cid(set))
            return v
        if cls is dict:
            if not args:
                return self.new_dict([(vstr(k), v) for k, v in kwargs.items()])
            v = self.norm(args[0])
            if isinstance(v, z3.ExprRef) and not kwargs and self.classify(v) == "vref" and self.py_class(ref_of(v)) is dict:
                r = self.alloc(dict)
                self.setf_init(r, "DICT", self.dict_body(ref_of(v)))
                return vref(r)
            if isinstance(v, K) and isinstance(v.o, dict) and not kwargs:
                return self.new_dict([(self.lift(a), self.lift(b)) for a, b in v.o.items()])
            raise Unsupported("dict()")
        if issubclass(cls, enum.Enum) and self.all_const(args, kwargs):
            try:
                return self.lift(cls(*[self.const(a) for a in args]))
            except ValueError:
                self.raise_py(ValueError)
        h = self.construct_hooks.get(cls)
        if h is not None:
            return h(self, args, kwargs)
        raise Unsupported("construct " + cls.__name__)

    construct_hooks = {pathlib.Path: lambda E, args, kwargs: vref(E.alloc(pathlib.PosixPath))}

    def num_construct(self, cls, args):
        """int(x) / float(x): partial functions with a definedness predicate.

        int: identity on ints, 0/1 on bools; strings and floats through
        uninterpreted INT_OK/INT_OF (Python's parser and rounding are not modelled),
        raising ValueError/OverflowError where undefined, TypeError for other kinds."""
        if not args:
            return vint(0) if cls is int else self.lift(0.0)
        t = self.norm(args[0])
        if not isinstance(t, z3.ExprRef):
            self.raise_py(TypeError)
        if self.is_const(t):
            try:
                return self.lift(cls(self.const(t)))
            except Exception as e:
                self.raise_py(type(e))
        g = self.classify(t)
        if cls is int:
            if g in ("vint", "vbool"):
                return Val.vint(self.num(t))
            if g in ("vstr", "vbyt"):
                ok = self.basefn("INT_OK", Val, B)(t)
                if not self.decide(ok):
                    self.raise_py(ValueError)
                return Val.vint(self.basefn("INT_OF", Val, I)(t))
            if g == "vflt":
                k = self.basefn("FLT_KIND", Val, I)(t)  # 0 finite, 1 inf, 2 nan
                self.fact(And(k >= 0, k <= 2))
                if self.decide(k == 1):
                    self.raise_py(OverflowError)
                if self.decide(k == 2):
                    self.raise_py(ValueError)
                return Val.vint(self.basefn("INT_OF", Val, I)(t))
        else:
            if g == "vflt":
                return t
            if g in ("vint", "vbool"):
                n = self.num(t)
                if self.decide(self.basefn("FLT_OVF", I, B)(n)):
                    self.raise_py(OverflowError)
                return Val.vflt(self.basefn("FLT_OF_INT", I, I)(n))
            if g in ("vstr", "vbyt"):
                ok = self.basefn("FLT_OK", Val, B)(t)
                if not self.decide(ok):
                    self.raise_py(ValueError)
                return Val.vflt(self.basefn("FLT_OF", Val, I)(t))
        if g in ("vnone", "vtyp"):
            self.raise_py(TypeError)
        # objects may define __int__/__index__/__float__
        if self.decide(self.basefn("%s_CONV" % cls.__name__, Val, B)(t)):
            if cls is int:
                return Val.vint(self.basefn("INT_OF", Val, I)(t))
            return Val.vflt(self.basefn("FLT_OF", Val, I)(t))
        self.raise_py(TypeError)

    # ---- methods of builtin types
    def builtin_method(self, o, fn, args, kwargs):
        ty, name = fn
        if ty == "model":
            return self.method_models[name](self, o, args, kwargs)
        m = getattr(self, "m_%s_%s" % (ty, name), None)
        if m is not None:
            return m(o, args, kwargs)
        if self.is_const(o) and self.all_const(args, kwargs) and ty in ("str", "int", "bytes", "float", "tuple", "bool"):
            try:
                r = getattr(self.const(o), name)(*[self.const(a) for a in args])
            except Exception as e:
                self.raise_py(type(e))
            if isinstance(r, list):
                return self.new_list([self.lift(x) for x in r])
            return self.lift(r)
        if name in ("__eq__", "__ne__") and ty in ("str", "int", "bool", "float", "bytes", "NoneType", "list", "dict", "tuple", "object"):
            # NotImplemented (a true value) is returned for operands of other kinds
            e = self.eq(o, args[0])
            return Val.vbool(e if name == "__eq__" else Not(e))
        raise Unsupported("method %s.%s" % (ty, name))

    def m_float_is_integer(self, o, a, k):
        if self.is_const(o):
            return vbool(self.const(o).is_integer())
        return Val.vbool(self.basefn("FLT_ISINT", Val, B)(self.term(o)))

    def bi_isnan(self, a, k):
        t = self.term(a[0])
        if self.is_const(t):
            import math
            try:
                return vbool(math.isnan(self.const(t)))
            except TypeError:
                self.raise_py(TypeError)
        g = self.classify(t)
        if g == "vflt":
            kd = self.basefn("FLT_KIND", Val, I)(t)
            self.fact(And(kd >= 0, kd <= 2))
            return Val.vbool(kd == 2)
        if g in ("vint", "vbool"):
            if self.decide(self.basefn("FLT_OVF", I, B)(self.num(t))):
                self.raise_py(OverflowError)
            return vbool(False)
        if g in ("vref", "vcst") and self.decide(self.basefn("float_CONV", Val, B)(t)):
            return Val.vbool(self.fresh("isnan", B))
        self.raise_py(TypeError)

    # str
    def _s(self, v, err=TypeError):
        t = self.term(v)
        if tag_of(t) != "vstr" and not self.decide(is_tag(t, "vstr")):
            self.raise_py(err)
        return acc(t, "vstr")

    def m_str_startswith(self, o, a, k):
        x = self.norm(a[0])
        if isinstance(x, Tup):
            return Val.vbool(Or(*[z3.PrefixOf(self._s(y), self._s(o)) for y in x.items]))
        if self.is_const(o) and self.is_const(x):
            return vbool(self.const(o).startswith(self.const(x)))
        return Val.vbool(z3.PrefixOf(self._s(x), self._s(o)))

    def m_str_endswith(self, o, a, k):
        if self.is_const(o) and self.is_const(a[0]):
            return vbool(self.const(o).endswith(self.const(a[0])))
        return Val.vbool(z3.SuffixOf(self._s(a[0]), self._s(o)))

    def _str_un(self, name, o):
        if self.is_const(o):
            return vstr(getattr(self.const(o), name)())
        return Val.vstr(self.basefn("STR_" + name, S, S)(self._s(o)))

    def m_str_lower(self, o, a, k):
        return self._str_un("lower", o)

    def m_str_upper(self, o, a, k):
        return self._str_un("upper", o)

    def m_str_strip(self, o, a, k):
        if a:
            raise Unsupported("strip(x)")
        return self._str_un("strip", o)

    def m_str_format(self, o, a, k):
        return Val.vstr(self.fresh("fmt", S))

    def m_str_join(self, o, a, k):
        return Val.vstr(self.fresh("join", S))

    def m_str_replace(self, o, a, k):
        if self.is_const(o) and self.all_const(a, k):
            return vstr(self.const(o).replace(*[self.const(x) for x in a]))
        return Val.vstr(self.fresh("repl", S))

    def m_str_split(self, o, a, k):
        if self.is_const(o) and self.all_const(a, k):
            return self.new_list([vstr(x) for x in self.const(o).split(*[self.const(x) for x in a], **{n: self.const(x) for n, x in k.items()})])
        s = self._s(o)
        sep = self._s(a[0]) if a else strlit(" ")
        mx = self.const(a[1]) if len(a) > 1 else self.const(k.get("maxsplit", vint(-1)))
        n = self.basefn("SPLIT_N_%d" % mx, S, S, I)(s, sep)
        self.fact(n >= (1 if a else 0))
        if mx >= 0:
            self.fact(n <= mx + 1)
        if a:
            self.fact(If(z3.Contains(s, sep), n >= 2 if mx != 0 else n == 1, n == 1))
        f = self.basefn("SPLIT_AT_%d" % mx, S, S, I, S)

        def get(i):
            x = f(s, sep, i)
            if a:
                self.fact(Implies(n == 1, f(s, sep, z3.IntVal(0)) == s))
                if mx < 0:
                    self.fact(Implies(And(i >= 0, i < n), Not(z3.Contains(x, sep))))
            return Val.vstr(x)
        return self.new_list(LBody(n, get))

    def m_str_rsplit(self, o, a, k):
        return self.m_str_split(o, a, k)

    def m_str_isidentifier(self, o, a, k):
        return Val.vbool(self.basefn("STR_ISID", S, B)(self._s(o)))

    def m_str_find(self, o, a, k):
        return Val.vint(z3.IndexOf(self._s(o), self._s(a[0]), z3.IntVal(0)))

    def m_str_encode(self, o, a, k):
        return Val.vbyt(self.basefn("STR_ENCODE", S, I)(self._s(o)))

    # list
    def _r(self, o):
        return ref_of(self.term(o))

    def m_list_append(self, o, a, k):
        self.list_append(self._r(o), a[0])
        return NONE

    def m_list_extend(self, o, a, k):
        self.list_extend(self._r(o), a[0])
        return NONE

    def m_list_insert(self, o, a, k):
        self.list_insert(self._r(o), a[0], a[1])
        return NONE

    def m_list_pop(self, o, a, k):
        return self.list_pop(self._r(o), a[0] if a else vint(-1))

    def m_list_reverse(self, o, a, k):
        r = ref_of(self.term(o))
        b = self.list_body(r)
        if b.items is not None:
            self.setf(r, "LIST", LBody(None, items=b.items[::-1]))
        else:
            self.setf(r, "LIST", LBody(b.n, lambda q: self.term(b.get(self, b.n - 1 - q))))
        return NONE

    def m_list_clear(self, o, a, k):
        self.setf(self._r(o), "LIST", LBody(None, items=[]))
        return NONE

    def m_list_copy(self, o, a, k):
        return self.new_list(self.list_body(self._r(o)))

    def m_list_sort(self, o, a, k):
        """sort: some permutation (which one is not modelled)"""
        r = self._r(o)
        b = self.list_body(r)
        t = self.fresh("perm", "tick")
        p = self.basefn("PERM_%d" % t, I, I)
        q = self.basefn("PERMINV_%d" % t, I, I)

        def get(i):
            self.fact(Implies(And(i >= 0, i < b.n), And(p(i) >= 0, p(i) < b.n, q(p(i)) == i)))
            return self.term(b.get(self, p(i)))

        self.setf(r, "LIST", LBody(b.n, get))
        return NONE

    # dict
    def m_dict_get(self, o, a, k):
        self.check_hashable(a[0])
        h, b, nk = self.dict_get_has(self._r(o), a[0])
        d = a[1] if len(a) > 1 else k.get("default", NONE)
        dn = self.norm(d)
        if isinstance(dn, (z3.ExprRef, K)) and not (isinstance(dn, K) and not self.plain_const(dn)):
            return self.norm(If(h, b.get(nk), self.term(d)))
        if self.decide(h):
            return self.norm(b.get(nk))
        return d

    def plain_const(self, k):
        return True

    def m_dict_items(self, o, a, k):
        return IterV("dictitems", self._r(o))

    def m_dict_keys(self, o, a, k):
        return IterV("dictkeys", self._r(o))

    def m_dict_values(self, o, a, k):
        return IterV("dictvalues", self._r(o))

    def m_dict_pop(self, o, a, k):
        r = self._r(o)
        self.check_hashable(a[0])
        h, b, nk = self.dict_get_has(r, a[0])
        if self.decide(h):
            v = b.get(nk)
            self.dict_del(r, a[0])
            return v
        if len(a) > 1:
            return a[1]
        self.raise_py(KeyError)

    def m_dict_clear(self, o, a, k):
        self.setf(self._r(o), "DICT", self.dict_from_items([]))
        return NONE

    def m_dict_copy(self, o, a, k):
        r = self.alloc(dict)
        self.setf_init(r, "DICT", self.dict_body(self._r(o)))
        return vref(r)

    def m_dict_update(self, o, a, k):
        r = self._r(o)
        if a:
            v = self.norm(a[0])
            for x in self.unroll(IterV("dictitems", ref_of(self.term(v))) if isinstance(v, z3.ExprRef) else v):
                self.dict_set(r, x.items[0], x.items[1])
        for n, v in k.items():
            self.dict_set(r, vstr(n), v)
        return NONE

    def m_dict_setdefault(self, o, a, k):
        r = self._r(o)
        h, b, nk = self.dict_get_has(r, a[0])
        if self.decide(h):
            return b.get(nk)
        self.dict_set(r, a[0], a[1] if len(a) > 1 else NONE)
        return a[1] if len(a) > 1 else NONE

    # set (a dict with None values)
    def m_set_add(self, o, a, k):
        self.check_hashable(a[0])
        self.dict_set(self._r(o), a[0], NONE)
        return NONE

    def m_set_discard(self, o, a, k):
        r = self._r(o)
        h, b, nk = self.dict_get_has(r, a[0])
        if self.decide(h):
            self.dict_del(r, a[0])
        return NONE

    def m_set_remove(self, o, a, k):
        r = self._r(o)
        h, b, nk = self.dict_get_has(r, a[0])
        if not self.decide(h):
            self.raise_py(KeyError)
        self.dict_del(r, a[0])
        return NONE

    def m_set_copy(self, o, a, k):
        r = self.alloc(set)
        self.setf_init(r, "DICT", self.dict_body(self._r(o)))
        return vref(r)

    # instance dict
    def m_instdict_items(self, o, a, k):
        return IterV("institems", o.ref)

    def m_instdict_get(self, o, a, k):
        n = self.const(a[0])
        if self.inst_has(o.ref, n):
            return self.getf(o.ref, n)
        return a[1] if len(a) > 1 else NONE

    def m_instdict_update(self, o, a, k):
        d = self.need_dict(a[0])
        b = self.dict_body(d)
        if b.items is None or k:
            raise Unsupported("update of an instance dict")
        for n, v in b.items:
            self.setf(o.ref, self.const(n), self.term(v))
        return NONE

    # slice
    def m_slice_indices(self, o, a, k):
        n = self.as_int(a[0])
        get = (lambda x: getattr(o, x)) if isinstance(o, SliceV) else (lambda x: self.getf(ref_of(o), {"lo": "start", "hi": "stop", "step": "step"}[x]))
        st = self.term(self.norm(get("step")))
        step = z3.IntVal(1) if self.decide(is_tag(st, "vnone")) else self.as_int(st)
        if self.decide(step == 0):
            self.raise_py(ValueError)
        neg = step < 0
        lower, upper = If(neg, z3.IntVal(-1), z3.IntVal(0)), If(neg, n - 1, n)

        def one(x, dflt):
            t = self.term(self.norm(get(x)))
            if self.decide(is_tag(t, "vnone")):
                return dflt
            v = self.as_int(t)
            w = If(v < 0, v + n, v)
            return If(w < lower, lower, If(w > upper, upper, w))

        lo = one("lo", If(neg, upper, lower))
        hi = one("hi", If(neg, lower, upper))
        return Tup([Val.vint(lo), Val.vint(hi), Val.vint(step)])

    def m_object___init__(self, o, a, k):
        return NONE

    # class-level functions used through the class
    def m_object___setattr__(self, o, a, k):
        raise Unsupported("object.__setattr__")
