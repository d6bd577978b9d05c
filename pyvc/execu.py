"""pyvc: statements, calls, attribute access, loops."""
import ast
import contextlib
import dataclasses
import enum
import inspect
import types
import typing

import z3

from .core import *
from .interp import *
from .interp import _Return, _Break, _Continue, _GenStop


class CMV:
    """an instantiated generator context manager"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


_MISSING = object()


def assigned_names(nodes):
    out = set()

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ListComp(self, n):
            pass

        visit_Lambda = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    for n in nodes:
        Vis().visit(n)
    return out


class Exec(Interp):
    MAXDEPTH = 60

    # ============================================================ statements
    def block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, env)

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def ev_Yield(self, e, env):
        v = NONE if e.value is None else self.ev(e.value, env)
        r = env
        while r.fn is None:
            r = r.parent
        if r.vars.get("  yield") is None:
            raise Unsupported("yield outside an inlined generator")
        r.vars["  yield"](v)
        return NONE

    def ev_YieldFrom(self, e, env):
        r = env
        while r.fn is None:
            r = r.parent
        for x in self.unroll(self.ev(e.value, env)):
            r.vars["  yield"](x)
        return NONE

    def ex_Pass(self, s, env):
        pass

    def ex_Break(self, s, env):
        raise _Break()

    def ex_Continue(self, s, env):
        raise _Continue()

    def ex_Return(self, s, env):
        raise _Return(NONE if s.value is None else self.ev(s.value, env))

    def ex_Global(self, s, env):
        raise Unsupported("global")

    def ex_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def ex_If(self, s, env):
        if self.decide(self.truth(self.ev(s.test, env))):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def ex_Assert(self, s, env):
        if not self.decide(self.truth(self.ev(s.test, env))):
            self.raise_py(AssertionError)

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign_target(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign_target(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            self.assign_target(t, self.aug(s.op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.aug(s.op, cur, self.ev(s.value, env)))

    def aug(self, op, a, b):
        n = self.norm(a)
        if isinstance(op, ast.Add) and isinstance(n, z3.ExprRef) and tag_of(n) == "vref":
            cls = self.py_class(ref_of(n))
            if cls is list:
                self.list_extend(ref_of(n), b)
                return n
            if cls in self.closed and hasattr(cls, "__iadd__"):
                return self.call(self.getattr(n, "__iadd__"), [b], {})
        return self.binop(op, a, b)

    def assign_target(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent.lookup(t.id)
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = self.norm(v)
            try:
                items = self.unroll(n)
            except Unsupported:
                if any(isinstance(x, ast.Starred) for x in t.elts):
                    raise
                ln, item = self.iter_view(n)
                if not self.decide(ln() == len(t.elts)):
                    self.raise_py(ValueError)
                items = [item(z3.IntVal(j)) for j in range(len(t.elts))]
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                tail = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_py(ValueError)
                mid = items[k:len(items) - tail]
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign_target(x, y, env)
                self.assign_target(t.elts[k].value, self.new_list(mid), env)
                for x, y in zip(t.elts[k + 1:], items[len(items) - tail:]):
                    self.assign_target(x, y, env)
                return
            if len(items) != len(t.elts):
                self.raise_py(ValueError)
            for x, y in zip(t.elts, items):
                self.assign_target(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                self.delitem(o, self.ev(t.slice, env))
            elif isinstance(t, ast.Name):
                env.vars[t.id] = None
            else:
                raise Unsupported("del target")

    def ex_FunctionDef(self, s, env):
        host = self.env_fn(env)
        f = Fn(s, env, host.glob, host.cls, s.name,
               [self.ev(d, env) for d in s.args.defaults],
               {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        f.is_gen = self.src.has_yield(s)
        if s.decorator_list:
            for d in s.decorator_list:
                if isinstance(d, ast.Name) and d.id == "contextmanager":
                    f.is_cm = True
                elif ast.unparse(d).startswith(("functools.wraps", "wraps")):
                    pass
                else:
                    raise Unsupported("decorator on a nested function")
        env.vars[s.name] = f

    def ex_Import(self, s, env):
        for a in s.names:
            import importlib
            m = importlib.import_module(a.name)
            env.vars[(a.asname or a.name.split(".")[0])] = K(m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def ex_ImportFrom(self, s, env):
        import importlib
        pkg = self.env_fn(env).glob["__package__"]
        m = importlib.import_module(("." * s.level) + (s.module or ""), package=pkg if s.level else None)
        for a in s.names:
            env.vars[a.asname or a.name] = self.lift(getattr(m, a.name))

    def ex_Raise(self, s, env):
        if s.exc is None:
            e = env.lookup("  exc")
            if e is None:
                raise Unsupported("bare raise")
            raise PyRaise(e.vars["  exc"])
        v = self.norm(self.ev(s.exc, env))
        if s.cause is not None:
            self.ev(s.cause, env)
        if isinstance(v, K) and isinstance(v.o, type):
            v = self.call(v, [], {})
        raise PyRaise(ref_of(self.term(v)))

    SIGNALS = (PyRaise, _Return, _Break, _Continue, _GenStop)

    def ex_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None:
                        m = TRUE
                    else:
                        m = self.exc_match(p.ref, self.ev(h.type, env))
                    if self.decide(m):
                        saved = env.vars.get("  exc", _MISSING)
                        env.vars["  exc"] = p.ref
                        if h.name:
                            env.vars[h.name] = vref(p.ref)
                        try:
                            self.block(h.body, env)
                        finally:
                            if saved is _MISSING:
                                env.vars.pop("  exc", None)
                            else:
                                env.vars["  exc"] = saved
                        if h.name:
                            env.vars[h.name] = None
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except self.SIGNALS:
            if s.finalbody:
                self.block(s.finalbody, env)
            raise
        if s.finalbody:
            self.block(s.finalbody, env)

    def exc_match(self, ref, t):
        t = self.norm(t)
        ts = [self.norm(x) for x in t.items] if isinstance(t, Tup) else [t]
        c = self.cls_term(ref)
        return Or(*[self.isa_cls(c, x.o) for x in ts])

    def ex_With(self, s, env):
        self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        cm = self.norm(cm)
        if isinstance(cm, CMV):
            self.run_cm(cm, lambda v: (self.assign_target(it.optional_vars, v, env) if it.optional_vars else None,
                                       self.with_items(items[1:], body, env)))
            return
        if isinstance(cm, K):
            nm = type(cm.o).__name__
            if nm in ("nullcontext", "catch_warnings", "lock", "RLock"):
                if it.optional_vars is not None:
                    raise Unsupported("with target of " + nm)
                self.with_items(items[1:], body, env)
                return
        raise Unsupported("with on %r" % (cm,))

    def run_cm(self, cm, body):
        """run a generator context manager around body"""
        pending = []
        count = [0]

        def handler(v):
            count[0] += 1
            if count[0] > 1:
                raise Unsupported("context manager yields twice")
            try:
                body(v)
            except (_Return, _Break, _Continue, _GenStop) as sig:
                pending.append(sig)

        try:
            self.run_body(cm.fn, cm.args, cm.kwargs, handler)
        except _Return:
            pass
        if count[0] == 0:
            raise Unsupported("context manager did not yield")
        if pending:
            raise pending[0]

    def run_gen(self, fn, args, kwargs, sink):
        self.run_body(fn, args, kwargs, sink)

    # ------------------------------------------------------------------ loops
    def ex_While(self, s, env):
        # concretely bounded loops are unrolled as long as the test stays constant
        n = 0
        while n < 64:
            t = self.peek_const_test(s.test, env)
            if t is None:
                break
            if not t:
                self.block(s.orelse, env)
                return
            if n >= 1 and isinstance(s.test, ast.Constant):
                break
            if isinstance(s.test, ast.Constant):
                break
            n += 1
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.sym_loop(s, env, lambda i: self.truth(self.ev(s.test, env)), lambda i: None)

    def peek_const_test(self, test, env):
        try:
            if not self.src.is_simple_test(test):
                return None
            t = self.truth(self.ev(test, env))
        except Unsupported:
            return None
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return None

    def ex_For(self, s, env):
        it = self.norm(self.ev(s.iter, env))
        if isinstance(it, IterV) and it.kind == "gen":
            state = {"sig": None}

            def sink(v):
                self.assign_target(s.target, v, env)
                try:
                    self.block(s.body, env)
                except _Continue:
                    return
                except _Break as b:
                    state["sig"] = b
                    raise _GenStop()
                except _Return as r:
                    state["sig"] = r
                    raise _GenStop()

            try:
                self.run_gen(it.a[0], it.a[1], it.a[2], sink)
            except _GenStop:
                if isinstance(state["sig"], _Break):
                    return
                raise state["sig"]
            self.block(s.orelse, env)
            return
        try:
            items = self.unroll(it)
        except Unsupported:
            items = None
        if items is not None:
            for x in items:
                self.assign_target(s.target, x, env)
                try:
                    self.block(s.body, env)
                except _Continue:
                    continue
                except _Break:
                    return
            self.block(s.orelse, env)
            return
        n, item = self.iter_view(it)
        self.sym_loop(s, env, lambda i: i < n(), lambda i: self.assign_target(s.target, item(i), env), it)

    def iter_view(self, it):
        """(length thunk, item function) of a symbolic iterable"""
        it = self.norm(it)
        if isinstance(it, RangeV):
            lo, hi, step = it.lo, it.hi, it.step
            if z3.is_int_value(step) and step.as_long() == 1:
                return (lambda: hi - lo), (lambda i: Val.vint(lo + i))
            if z3.is_int_value(step) and step.as_long() == -1:
                return (lambda: lo - hi), (lambda i: Val.vint(lo - i))
            if self.decide(step == 0):
                self.raise_py(ValueError)
            up = If(step > 0, step, -step)
            span = If(step > 0, hi - lo, lo - hi)
            cnt = If(span > 0, (span + up - 1) / up, z3.IntVal(0))
            return (lambda: cnt), (lambda i: Val.vint(lo + i * step))
        if isinstance(it, IterV):
            if it.kind == "enumerate":
                n, f = self.iter_view(it.a[0])
                return n, lambda i: Tup([Val.vint(i), f(i)])
            if it.kind in ("dictkeys", "dictvalues", "dictitems"):
                r = it.a[0]
                b0 = self.dict_body(r)
                kinds = it.kind

                def f(i):
                    k = b0.keyat(i)
                    if kinds == "dictkeys":
                        return k
                    v = self.dict_body(r).get(k)
                    return v if kinds == "dictvalues" else Tup([k, v])

                return (lambda: b0.n), f
            if it.kind == "reversed":
                n, f = self.iter_view(it.a[0])
                n0 = n()
                return (lambda: n0), lambda i: f(n0 - 1 - i)
            if it.kind == "seqbody":
                b = it.a[0]
                return (lambda: b.n), lambda i: b.get(self, i)
            if it.kind == "zip":
                vs = [self.iter_view(x) for x in it.a]

                def nn():
                    m = vs[0][0]()
                    for v in vs[1:]:
                        k = v[0]()
                        m = If(m < k, m, k)
                    return m

                return nn, lambda i: Tup([v[1](i) for v in vs])
        if isinstance(it, IterState):
            b, p0 = it.body, it.pos(self)
            return (lambda: b.n - p0), lambda i: b.get(self, i + p0)
        if isinstance(it, InstV):
            st = it.attrs["iterator"]
            p0 = st.pos(self)
            nx = self.host_fn(it.cls.__next__)

            def item(i):
                st.move(self, p0 + i)
                for k in self.inst_counters:
                    if k in it.attrs:
                        it.attrs[k] = Val.vint(i)
                return self.run_body(nx, [it], {})
            return (lambda: st.body.n - p0), item
        if isinstance(it, (Tup, K)):
            items = self.unroll(it)
            b = LBody(None, items=items)
            return (lambda: b.n), lambda i: b.get(self, i)
        if isinstance(it, z3.ExprRef):
            g = self.classify(it)
            if g == "vref":
                r = ref_of(it)
                cls = self.py_class(r)
                if cls in (list, tuple):
                    return (lambda: self.list_body(r).n), lambda i: self.list_body(r).get(self, i)
                if cls in (dict, set):
                    return self.iter_view(IterV("dictkeys", r))
                if cls in self.closed and hasattr(cls, "__iter__"):
                    it2 = self.call(self.getattr(it, "__iter__"), [], {})
                    if not (isinstance(it2, z3.ExprRef) and it2.eq(it)):
                        return self.iter_view(it2)
            elif g in ("vnone", "vbool", "vint", "vflt", "vtyp"):
                self.raise_py(TypeError)
        if isinstance(it, z3.ExprRef) and (g == "vref" and cls is None or g == "vcst"):
            # an iterable of the user: any elements, or not iterable at all
            self.assumptions.add("iterating over an object of a user-defined class has no side effects")
            if self.decide(self.fresh("not_iterable", B)):
                self.raise_py(TypeError)
            n = self.fresh("nit", I)
            self.fact(n >= 0)
            f = z3.Function("ITER_%d" % self.fresh("tick", "tick"), I, Val)

            def item(i):
                v = f(i)
                self.ref_bound(v, self.A0)
                return v
            return (lambda: n), item
        if isinstance(it, z3.ExprRef) and g == "vref":
            raise Unsupported("iteration over an instance of %s" % getattr(cls, "__name__", cls))
        raise Unsupported("iteration over %s" % (g if isinstance(it, z3.ExprRef) else type(it)))

    def iter_len(self, it):
        n, _ = self.iter_view(it)
        return n()

    use_local_lists = False

    def local_lists(self, env, it):
        """candidate invariants: the lists made before the loop that it uses do not change"""
        if self.fsk is None or not self.use_local_lists:
            return lambda *a: ()
        at = []
        for v in list(env.vars.values()) + [it]:
            if isinstance(v, z3.ExprRef) and v.sort() == Val and tag_of(v) == "vref" and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() < 0 and self.py_class(v.arg(0)) is list:
                a = v.arg(0)
                b = self.list_body(a)
                if b.items is None and not any(a.eq(x) for x, _ in at):
                    at.append((a, b))

        def cand(E, env, entry_st, i):
            k = self.fsk[1]
            for a, b0 in at:
                b = self.list_body(a)
                g = TRUE if b is b0 else And(b.n == b0.n, Implies(And(k >= 0, k < b0.n), self.term(b.get(self, k)) == self.term(b0.get(self, k))))
                yield ("list %s" % a, g, lambda a=a, b0=b0: self.st.f.__setitem__("LIST", StoreM(self.field("LIST"), a, b0)))
        return cand

    def sym_loop(self, s, env, guard, bind, it=None):
        assigned = assigned_names(s.body + ([s.target] if isinstance(s, ast.For) else []) +
                                  ([s.test] if isinstance(s, ast.While) else []))
        iguard = guard if isinstance(s, ast.For) else None
        entry_st = self.st.copy()
        entry_vars = dict(env.vars)
        obs0 = self.observe()
        lobs = self.local_cands(assigned, entry_vars)
        if isinstance(s, ast.While):
            lobs += self.counter_cands(assigned, entry_vars)
        addr0 = self.last_addr
        own = self.local_lists(env, it)

        def head(W, WA, inv):
            """arbitrary loop state satisfying the invariants; returns i"""
            self.st = entry_st.copy()
            env.vars.clear()
            env.vars.update(entry_vars)
            tick = self.fresh("tick", "tick")
            hi = self.fresh("hi", I)
            self.fact(hi >= entry_st.hi)
            self.st.hi = hi
            for name in sorted(W):
                if name.startswith("g:"):
                    self.st.g[name[2:]] = self.fresh(name, I)
                    continue
                at = WA.get(name)
                pred = (lambda r: TRUE) if at is None or None in at else (lambda r, at=at: Or(*[r == a for a in sorted(at)]))
                if "frame:" + name in inv and self.fsk is not None and name != "key":
                    # proved at an arbitrary existing address, so it holds at every one
                    mp = (self.fmods or {}).get(name)
                    pred = (lambda r, p=pred, mp=mp: FALSE if self.is_old(r) and mp is None else
                            And(p(r), Or(r < 0, r >= self.A0, *([] if mp is None else [mp(r)]))))
                self.st.f[name] = HavocM(entry_st.f.get(name) or self.base_map(name), pred,
                                         self.base_reader(name, "%s_h%d" % (name, tick), hi))
            for n in sorted(assigned):
                old = entry_vars.get(n)
                if isinstance(old, z3.ExprRef) and old.sort() == Val or isinstance(old, K) and self.plain_k(old):
                    x = self.fresh("l_" + n, Val)
                    self.fact(Implies(is_tag(x, "vref"), And(ref_of(x) < hi, ref_of(x) >= -self.last_addr)))
                    env.vars[n] = x
                elif n in entry_vars:
                    env.vars[n] = Poison("loop")
            i = self.fresh("i", I)
            self.fact(i >= 0)
            setters = []
            for nm, f in self.cands(inv, obs0, lobs, env, entry_st, i, iguard, setters, own):
                self.assume(f)
            for f in setters:
                f()
            return i

        def infer():
            base_env = dict(env.vars)
            saved_w, saved_at, saved_addr = self.written, self.written_at, self.loop_addr
            self.quiet += 1
            self.written_at, self.loop_addr = {}, addr0
            try:
                W, WA = set(), {}
                # candidates that hold on entry
                names = None
                while True:
                    restart = False
                    env.vars.clear()
                    env.vars.update(entry_vars)
                    z = z3.IntVal(0)
                    allc = self.cands(None, obs0, lobs, env, entry_st, z, iguard, None, own)
                    inv = {nm for nm, f in allc if self.holds(f)}
                    while True:
                        dropped, grow = set(), set()

                        def body():
                            i = head(W, WA, inv)
                            self.written = set()
                            try:
                                if self.decide(guard(i)):
                                    bind(i)
                                    try:
                                        self.block(s.body, env)
                                    except _Continue:
                                        pass
                                    except (_Break, _Return, PyRaise, _GenStop):
                                        raise PathEnd()
                                    if not (self.written <= W):
                                        return
                                    for nm, f in self.cands(inv - dropped, obs0, lobs, env, entry_st, i + 1, iguard, None, own):
                                        if not self.holds(f):
                                            dropped.add(nm)
                            except PyRaise:
                                raise PathEnd()
                            finally:
                                grow.update(self.written)

                        self.explore(body)
                        if not (grow <= W) or any(not self.written_at.get(n, {None}) <= WA.get(n, {None}) for n in grow):
                            W |= grow
                            for n in grow:
                                WA[n] = WA.get(n, set()) | self.written_at.get(n, {None})
                            restart = True
                            break
                        if not dropped:
                            break
                        inv -= dropped
                    if not restart:
                        break
                return W, WA, inv
            finally:
                self.quiet -= 1
                self.written, self.written_at, self.loop_addr = saved_w, saved_at, saved_addr
                env.vars.clear()
                env.vars.update(base_env)

        (W, WA, inv), _ = self.memo(infer)
        self.loops_seen.append((self.curfn, getattr(s, "lineno", 0), sorted(W), sorted(inv)))
        for n in W:
            for a in WA.get(n, {None}):
                self.wrote(n, None if a is None else z3.IntVal(a))
        i = head(W, WA, inv)
        if self.decide(guard(i)):
            bind(i)
            try:
                self.block(s.body, env)
            except _Continue:
                pass
            except _Break:
                return
            raise PathEnd()
        self.block(s.orelse, env)

    loops_seen = []
    loop_addr = 0

    def plain_k(self, k):
        return isinstance(k.o, (type, enum.Enum)) or k.o is typing.Any

    def observe(self):
        out = []
        for nm, f in self.inv_obs:
            for j, t in enumerate(f(self)):
                out.append(("%s.%d" % (nm, j), t))
        return out

    def local_cands(self, assigned, entry_vars):
        out = []
        for n in sorted(assigned):
            old = entry_vars.get(n)
            if isinstance(old, K) and self.plain_k(old):
                old = self.term(old)
            if not (isinstance(old, z3.ExprRef) and old.sort() == Val):
                continue
            out.append(("local-eq:" + n, n, lambda v, old=old: v == old))
            for t in TAGS:
                out.append(("local-tag-%s:%s" % (t, n), n, lambda v, t=t: is_tag(v, t)))
            out.append(("local-none-or-ref:" + n, n, lambda v: Or(is_tag(v, "vnone"), is_tag(v, "vref"))))
            for C in self.local_classes:
                out.append(("local-isa-%s:%s" % (C.__name__, n), n, lambda v, C=C: self.isa(v, C)))
                out.append(("local-isaN-%s:%s" % (C.__name__, n), n,
                            lambda v, C=C: Or(is_tag(v, "vnone"), self.isa(v, C))))
        return out

    def counter_cands(self, assigned, entry_vars):
        """of a while loop: locals that count the iterations up or down, and their bounds by other locals"""
        out = []
        num = lambda v: acc(v, "vint")
        isv = lambda v: isinstance(v, z3.ExprRef) and v.sort() == Val
        for n in sorted(assigned):
            old = entry_vars.get(n)
            if not isv(old) or not self.holds(is_tag(old, "vint")):
                continue
            out.append(("counter+:" + n, n, lambda v, i, env, old=old: And(is_tag(v, "vint"), num(v) == num(old) + i)))
            out.append(("counter-:" + n, n, lambda v, i, env, old=old: And(is_tag(v, "vint"), num(v) == num(old) - i)))
            for m, w in sorted(entry_vars.items(), key=lambda x: x[0]):
                if m != n and m not in assigned and isv(w) and self.holds(is_tag(w, "vint")):
                    out.append(("counter<=%s:%s" % (m, n), n, lambda v, i, env, w=w: And(is_tag(v, "vint"), num(v) <= num(w))))
                    out.append(("counter>=%s:%s" % (m, n), n, lambda v, i, env, w=w: And(is_tag(v, "vint"), num(v) >= num(w))))
        return out

    local_classes = ()
    inv_cands = ()

    def cands(self, want, obs0, lobs, env, entry_st, i, guard=None, setters=None, own=None):
        out = []
        if guard is not None and (want is None or "index" in want):
            out.append(("index", Or(i == 0, guard(i - 1))))
        now = None
        for k, (nm, t0) in enumerate(obs0):
            if want is not None and nm not in want:
                continue
            if now is None:
                now = self.observe()
            out.append((nm, Eq(now[k][1], t0)))
        for nm, n, f in lobs:
            if want is not None and nm not in want:
                continue
            v = env.vars.get(n)
            if isinstance(v, K) and self.plain_k(v):
                v = self.term(v)
            if isinstance(v, z3.ExprRef) and v.sort() == Val:
                out.append((nm, f(v, i, env) if nm.startswith("counter") else f(v)))
            else:
                out.append((nm, FALSE))
        for f in list(self.inv_cands) + ([own] if own else []):
            for nm, fm, *st in f(self, env, entry_st, i):
                if want is None or nm in want:
                    out.append((nm, fm))
                    if setters is not None:
                        # the candidate speaks of the arbitrary key or index fsk: what it says holds for all
                        setters += st
        return out

    # ================================================================== calls
    def ev_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fnenv = env
            while fnenv.fn is None or "  self" not in fnenv.vars:
                fnenv = fnenv.parent
            return SuperV(self.env_fn(env).cls, fnenv.vars["  self"])
        f = self.ev(e.func, env)
        args = []
        opaque = isinstance(self.norm(f), z3.ExprRef)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if opaque and isinstance(self.norm(v), z3.ExprRef):
                    args.append(StarV(v))
                    continue
                args.extend(self.unroll(v))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.norm(self.ev(k.value, env))
                if isinstance(v, K) and isinstance(v.o, dict):
                    kwargs.update({n: self.lift(x) for n, x in v.o.items()})
                    continue
                b = self.dict_body(self.need_dict(v))
                if opaque:
                    kwargs["**"] = v
                    continue
                if b.items is None:
                    raise Unsupported("** call with a symbolic dict")
                for kk, vv in b.items:
                    kwargs[self.const(kk)] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.norm(f)
        if isinstance(f, BM):
            if isinstance(f.fn, tuple):
                return self.builtin_method(f.self_, f.fn, args, kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, merge=not self.src.has_nonlocal(f.node))
        if isinstance(f, K):
            o = f.o
            try:
                h = self.intrinsics.get(o)
            except TypeError:
                h = None
            if h is not None:
                return h(self, args, kwargs)
            if isinstance(o, types.MethodType):
                return self.call(K(o.__func__), [self.lift(o.__self__)] + list(args), kwargs)
            if isinstance(o, type):
                return self.construct(o, args, kwargs)
            if isinstance(o, types.FunctionType):
                return self.call_host(o, args, kwargs)
            return self.call_builtin(o, args, kwargs)
        if isinstance(f, z3.ExprRef):
            h = self.opaque_call
            return h(f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def opaque_call(self, f, args, kwargs):
        raise Unsupported("call of an opaque value")

    def host_fn(self, o):
        """Fn for a host function whose source is in the repository"""
        w = o
        is_cm = False
        while hasattr(w, "__wrapped__"):
            is_cm = is_cm or inspect.isgeneratorfunction(w.__wrapped__)
            w = w.__wrapped__
        node, cls = self.src.find(w)
        if node is None:
            return None
        f = Fn(node, None, w.__globals__, cls, w.__qualname__, None, None, host=w)
        f.is_gen = inspect.isgeneratorfunction(w)
        f.is_cm = f.is_gen and is_cm
        return f

    def call_host(self, o, args, kwargs):
        c = self.contracts.get(o)
        if c is not None:
            self.used_contracts.add(c)
            return c.apply(self, args, kwargs)
        f = self.host_fn(o)
        if f is None:
            return self.call_builtin(o, args, kwargs)
        if f.host.__closure__ and any(n != "__class__" for n in f.host.__code__.co_freevars):
            raise Unsupported("host closure " + f.name)
        return self.call_fn(f, args, kwargs)

    def call_fn(self, f, args, kwargs, merge=True):
        if getattr(f, "is_cm", False):
            return CMV(f, args, kwargs)
        if f.is_gen:
            return IterV("gen", f, args, kwargs)
        key = f.node
        if self.inline_stack.count(key) >= 2:
            raise Unsupported("recursion without a contract: " + f.name)
        self.inlined.add(f.name)
        if merge and not f.is_gen:
            return self.merged(lambda: self.run_body(f, args, kwargs))
        return self.run_body(f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.env)
        env.fn = f
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if f.host is not None:
            defaults = [self.lift_default(x) for x in (f.host.__defaults__ or ())]
            kwd = {k: self.lift_default(v) for k, v in (f.host.__kwdefaults__ or {}).items()}
        else:
            defaults, kwd = f.defaults, f.kwdefaults
        vars_ = env.vars
        for n, v in zip(pos, args):
            vars_[n] = v
        extra = args[len(pos):]
        if a.vararg:
            vars_[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_py(TypeError)
        for n in pos[len(args):]:
            if n in kwargs:
                vars_[n] = kwargs.pop(n)
            else:
                k = pos.index(n) - (len(pos) - len(defaults))
                if k < 0:
                    self.raise_py(TypeError)
                vars_[n] = defaults[k]
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars_[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwd:
                vars_[x.arg] = kwd[x.arg]
            else:
                self.raise_py(TypeError)
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new_dict([(vstr(k), v) for k, v in kwargs.items()])
        elif kwargs:
            self.raise_py(TypeError)
        if pos and args and f.cls is not None:
            vars_["  self"] = args[0]
        return env

    def lift_default(self, o):
        return self.lift(o)

    def run_body(self, f, args, kwargs, yieldh=None):
        if len(self.inline_stack) > self.MAXDEPTH:
            raise Unsupported("inlining depth")
        env = self.bind(f, args, kwargs)
        if yieldh is not None:
            env.vars["  yield"] = yieldh
        self.inline_stack.append(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return NONE
        finally:
            self.inline_stack.pop()

    # -------------------------------------------------------------- construct
    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            r = self.alloc(cls)
            return vref(r)
        if cls in self.closed:
            r = self.alloc(cls)
            v = vref(r)
            if dataclasses.is_dataclass(cls) and "__init__" not in self.src.class_methods(cls):
                self.dataclass_init(cls, r, args, kwargs)
            else:
                self.call(self.getattr(v, "__init__"), args, kwargs)
            return v
        if cls in self.inst_classes:
            v = InstV(cls)
            self.run_body(self.host_fn(cls.__init__), [v] + list(args), kwargs)
            return v
        return self.construct_builtin(cls, args, kwargs)

    inst_classes = ()
    inst_counters = ("index",)

    def dataclass_init(self, cls, r, args, kwargs):
        kwargs = dict(kwargs)
        fs = [f for f in dataclasses.fields(cls) if f.init]
        for n, f in enumerate(fs):
            if n < len(args):
                v = args[n]
            elif f.name in kwargs:
                v = kwargs.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                v = self.lift(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                v = self.new_dict()
            else:
                self.raise_py(TypeError)
            self.setf_init(r, f.name, self.term(v))
        if kwargs:
            self.raise_py(TypeError)
        if hasattr(cls, "__post_init__"):
            self.call(self.getattr(vref(r), "__post_init__"), [], {})

    # ------------------------------------------------------------- attributes
    def inst_fields(self, ref):
        c = self.py_class(ref)
        return self.fields_of(c)

    def inst_has(self, ref, n):
        return n in self.inst_fields(ref)

    def fields_of(self, c):
        raise NotImplementedError

    def resolve_attr(self, cls, name):
        """('field',) | ('func', f) | ('prop', f) | ('static', o) | ('class', f) | ('const', o) | None"""
        if name in self.fields_of(cls):
            return ("field", name)
        try:
            o = inspect.getattr_static(cls, name)
        except AttributeError:
            return None
        if isinstance(o, types.FunctionType):
            return ("func", o)
        if isinstance(o, property):
            return ("prop", o.fget)
        if isinstance(o, staticmethod):
            return ("static", o.__func__)
        if isinstance(o, classmethod):
            return ("class", o.__func__)
        return ("const", o)

    def getattr(self, o, name, default=_MISSING):
        o = self.norm(o)
        if isinstance(o, K):
            return self.getattr_host(o, name, default)
        if isinstance(o, SuperV):
            return self.getattr_super(o, name)
        if isinstance(o, SliceV):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[name] if name in ("start", "stop", "step") else BM(o, ("slice", name))
        if isinstance(o, Tup):
            return BM(o, ("tuple", name))
        if isinstance(o, InstDict):
            return BM(o, ("instdict", name))
        if isinstance(o, (Fn, BM)):
            if name in ("__name__", "__qualname__", "__module__"):
                return Val.vstr(self.fresh("fname", S))
            raise Unsupported("attribute %s of function" % name)
        if isinstance(o, IterV):
            return BM(o, ("iter", name))
        if isinstance(o, InstV):
            if name in o.attrs:
                return o.attrs[name]
            f = inspect.getattr_static(o.cls, name, None)
            if isinstance(f, types.FunctionType):
                return BM(o, K(f))
            raise Unsupported("attribute %s of %s" % (name, o.cls.__name__))
        if not isinstance(o, z3.ExprRef):
            raise Unsupported("attribute %s of %s" % (name, type(o).__name__))
        if name == "__class__":
            return self.type_of(o)
        g = self.classify(o)
        if g != "vref":
            cls = {"vnone": type(None), "vbool": bool, "vint": int, "vflt": float, "vstr": str, "vbyt": bytes,
                   "vtyp": type}.get(g)
            if cls is None or g == "vtyp":
                return self.getattr_opaque(o, name, default)
            if not hasattr(cls, name):
                if default is not _MISSING:
                    return default
                self.raise_py(AttributeError)
            return BM(o, (cls.__name__, name))
        r = ref_of(o)
        c = self.cls_term(r)
        if z3.is_int_value(c):
            cls = self.ct.objs[c.as_long()]
            return self.getattr_cls(o, r, cls, name, default)
        # group the closed classes by what the attribute resolves to
        groups = {}
        for k in self.closed:
            ra = self.resolve_attr(k, name)
            key = (ra[0], id(ra[1])) if ra is not None and ra[0] != "field" else (ra and ra[0])
            groups.setdefault(key, []).append(k)
        glist = list(groups.values())
        conds = [Or(*[c == self.cid(k) for k in g]) for g in glist]
        extra = [dict, list, set, tuple, slice]
        conds += [c == self.cid(k) for k in extra]
        conds.append(And(*[Not(x) for x in conds]))
        i = self.choose(conds)
        if i < len(glist):
            return self.getattr_cls(o, r, glist[i][0], name, default)
        if i < len(glist) + len(extra):
            return self.getattr_cls(o, r, extra[i - len(glist)], name, default)
        return self.getattr_opaque(o, name, default)

    def getattr_cls(self, o, r, cls, name, default=_MISSING):
        if name == "__dict__" and cls in self.closed:
            return InstDict(r)
        if cls in self.closed:
            ra = self.resolve_attr(cls, name)
            if ra is None:
                ga = inspect.getattr_static(cls, "__getattr__", None)
                if ga is not None:
                    if default is not _MISSING:
                        raise Unsupported("getattr with default through __getattr__")
                    return self.call(K(ga), [o, vstr(name)], {})
                if default is not _MISSING:
                    return default
                self.raise_py(AttributeError)
            return self.bind_attr(o, ra, r, cls)
        if cls in (dict, list, set, tuple) or cls is slice:
            if cls is slice and name in ("start", "stop", "step"):
                return self.getf(r, name)
            if not hasattr(cls, name):
                if default is not _MISSING:
                    return default
                self.raise_py(AttributeError)
            return BM(o, (cls.__name__, name))
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return self.exc_attr(o, r, cls, name, default)
        return self.getattr_opaque(o, name, default)

    def exc_attr(self, o, r, cls, name, default):
        if name in self.st.f:
            return self.getf(r, name)
        return self.getf(r, "x:" + name)

    def bind_attr(self, o, ra, r, cls):
        k = ra[0]
        if k == "field":
            return self.getf(r, ra[1])
        if k == "func":
            return BM(o, K(ra[1]))
        if k == "prop":
            return self.call(K(ra[1]), [o], {})
        if k == "static":
            return K(ra[1])
        if k == "class":
            return BM(K(cls), K(ra[1]))
        return self.lift(ra[1])

    def getattr_super(self, s, name):
        selfv = self.norm(s.self_)
        mro = None
        if isinstance(selfv, z3.ExprRef):
            c = self.cls_term(ref_of(selfv))
            if z3.is_int_value(c):
                mro = self.ct.objs[c.as_long()].__mro__
            else:
                # all closed subclasses must agree
                mro = s.cls.__mro__
        i = mro.index(s.cls)
        for k in mro[i + 1:]:
            if name in k.__dict__:
                o = k.__dict__[name]
                if isinstance(o, types.FunctionType):
                    return BM(selfv, K(o))
                if isinstance(o, property):
                    return self.call(K(o.fget), [selfv], {})
                if k is object:
                    return BM(selfv, ("object", name))
                raise Unsupported("super attribute kind")
        raise Unsupported("super attribute " + name)

    def getattr_host(self, k, name, default):
        o = k.o
        if isinstance(o, type) and name == "__dict__":
            raise Unsupported("class __dict__")
        try:
            v = inspect.getattr_static(o, name) if isinstance(o, type) else getattr(o, name)
        except AttributeError:
            if isinstance(o, type) and hasattr(o, name):
                return self.lift(getattr(o, name))
            if default is not _MISSING:
                return default
            self.raise_py(AttributeError)
        if isinstance(o, type):
            if isinstance(v, staticmethod):
                return K(v.__func__)
            if isinstance(v, classmethod):
                return BM(k, K(v.__func__))
            if isinstance(v, types.FunctionType):
                return K(v)
            v = getattr(o, name)
        return self.lift(v)

    def getattr_opaque(self, o, name, default=_MISSING):
        raise Unsupported("attribute %s of an opaque object" % name)

    def setattr(self, o, name, v):
        o = self.norm(o)
        if isinstance(o, InstV):
            o.attrs[name] = v
            return
        if isinstance(o, K):
            if id(o.o) in self.class_attr_objs:
                raise Unsupported("assignment to class attribute")
            raise Unsupported("setattr on host object %r" % (o.o,))
        r = ref_of(self.term(o))
        c = self.cls_term(r)
        if z3.is_int_value(c) and issubclass(self.ct.objs[c.as_long()], BaseException):
            self.setf_init(r, "x:" + name, self.term(v))
            return
        cls = self.py_class(r)
        if cls in self.closed:
            sa = inspect.getattr_static(cls, "__setattr__")
            if sa is not object.__setattr__ and isinstance(sa, types.FunctionType):
                self.call(K(sa), [o, vstr(name), v], {})
                return
            if name in self.fields_of(cls):
                self.setf(r, name, v)
                return
            p = self.resolve_attr(cls, name)
            if p and p[0] == "prop":
                pr = inspect.getattr_static(cls, name)
                if pr.fset:
                    self.call(K(pr.fset), [o, v], {})
                    return
        raise Unsupported("setattr %s" % name)

    class_attr_objs = {}

    def hasattr_f(self, o, name):
        """formula: hasattr(o, name)"""
        o = self.norm(o)
        if isinstance(o, K):
            return z3.BoolVal(hasattr(o.o, name))
        if not isinstance(o, z3.ExprRef):
            return z3.BoolVal(True)
        if name not in self.hasattr_fn:
            self.hasattr_fn[name] = z3.Function("HASATTR_" + name, Val, B)
        ap = self.hasattr_fn[name](o)
        simple = {"vnone": type(None), "vbool": bool, "vint": int, "vflt": float, "vstr": str, "vbyt": bytes}
        out = ap
        for t, c in simple.items():
            out = If(is_tag(o, t), z3.BoolVal(hasattr(c, name)), out)
        c = self.cls_term(ref_of(o))
        for k in self.closed + [dict, list, set, tuple]:
            h = name in self.fields_of(k) if k in self.closed else False
            h = h or hasattr(k, name)
            out = If(And(is_tag(o, "vref"), c == self.cid(k)), z3.BoolVal(h), out)
        return out

    def type_of(self, v):
        v = self.norm(v)
        if isinstance(v, K):
            return K(type(v.o))
        if isinstance(v, Tup):
            return K(tuple)
        if isinstance(v, (Fn, BM)):
            return K(types.FunctionType)
        if isinstance(v, SliceV):
            return K(slice)
        return self.norm(Val.vtyp(self.cls_of(v)))

    # ------------------------------------------------------------ item access
    def norm_index(self, i, n):
        return If(i < 0, i + n, i)

    def getitem(self, o, i):
        o = self.norm(o)
        if isinstance(o, Tup):
            i = self.norm(i)
            if isinstance(i, SliceV):
                return Tup(o.items[slice(*[self.const(x) for x in (i.lo, i.hi, i.step)])])
            k = self.const(i)
            if not (-len(o.items) <= k < len(o.items)):
                self.raise_py(IndexError)
            return o.items[k]
        if isinstance(o, InstDict):
            return self.inst_get(o, self.const(i))
        if isinstance(o, K):
            if isinstance(o.o, dict):
                try:
                    c = self.const(i)
                    if c not in o.o:
                        self.raise_py(KeyError)
                    return self.lift(o.o[c])
                except KeyError:
                    pass
            if isinstance(o.o, (tuple, list, str)):
                return self.lift(o.o[self.const(i)])
            if hasattr(o.o, "__class_getitem__") or o.o in (typing.Optional, typing.Union, typing.Dict, typing.List):
                return self.type_subscript(o, i)
            raise Unsupported("subscript of host object %r" % (o.o,))
        if not isinstance(o, z3.ExprRef):
            raise Unsupported("subscript of %r" % (o,))
        g = self.classify(o)
        if g == "vstr":
            return self.str_getitem(o.arg(0) if tag_of(o) else acc(o, "vstr"), i)
        if g == "vref":
            r = ref_of(o)
            cls = self.py_class(r)
            if cls in (list, tuple):
                return self.list_getitem(r, i)
            if cls is dict:
                self.check_hashable(i)
                h, b, nk = self.dict_get_has(r, i)
                if not self.decide(h):
                    v = self.dict_missing(r)
                    if v is None:
                        self.raise_py(KeyError)
                    self.setitem(o, i, v)
                    return v
                return b.get(nk)
            if cls in self.closed:
                return self.call(self.getattr(o, "__getitem__"), [i], {})
        if g in ("vnone", "vbool", "vint", "vflt"):
            self.raise_py(TypeError)
        if g == "vtyp":
            return self.type_subscript(o, i)
        raise Unsupported("subscript of " + g)

    def type_subscript(self, o, i):
        # typing constructs: only an opaque type value
        if o.o in (typing.Dict, typing.List):
            o = o.o
            i = self.norm(i)
            xs = [self.term(x) for x in i.items] if isinstance(i, Tup) else [self.term(i)]
            t = self.basefn("SUBSCRIPT_%s_%d" % (o.__name__, len(xs)), *([Val] * (len(xs) + 1)))(*xs)
            self.fact(is_tag(t, "vcst"))
            return t
        t = self.fresh("typ", Val)
        self.fact(is_tag(t, "vtyp"))
        return t

    def str_getitem(self, s, i):
        i = self.norm(i)
        n = z3.Length(s)
        if isinstance(i, SliceV):
            if not (self.is_const(i.step) and self.const(i.step) in (None, 1)):
                raise Unsupported("string slice step")
            lo = z3.IntVal(0) if self.is_none(i.lo) else self.clamp(self.as_int(i.lo), n)
            hi = n if self.is_none(i.hi) else self.clamp(self.as_int(i.hi), n)
            if z3.is_string_value(s) and z3.is_int_value(z3.simplify(lo)) and z3.is_int_value(z3.simplify(hi)):
                return vstr(strval(s)[z3.simplify(lo).as_long():z3.simplify(hi).as_long()])
            return Val.vstr(z3.SubString(s, lo, If(hi > lo, hi - lo, z3.IntVal(0))))
        k = self.as_int(i)
        j = self.norm_index(k, n)
        if not self.decide(And(j >= 0, j < n)):
            self.raise_py(IndexError)
        return Val.vstr(z3.SubString(s, j, 1))

    def is_none(self, v):
        return self.is_const(v) and self.const(v) is None

    def clamp(self, i, n):
        if z3.is_int_value(i) and i.as_long() == 0:
            return i
        return If(i < 0, If(i + n < 0, z3.IntVal(0), i + n), If(i > n, n, i))

    def list_getitem(self, r, i):
        b = self.list_body(r)
        i = self.norm(i)
        if isinstance(i, SliceV):
            return self.list_slice(b, i)
        k = self.as_int(i)
        j = z3.simplify(self.norm_index(k, b.n)) if z3.is_int_value(k) and z3.is_int_value(b.n) else self.norm_index(k, b.n)
        if not self.decide(And(j >= 0, j < b.n)):
            self.raise_py(IndexError)
        return b.get(self, j)

    def list_slice(self, b, sl):
        if b.items is not None and all(self.is_const(x) for x in (sl.lo, sl.hi, sl.step)):
            return self.new_list(b.items[slice(*[self.const(x) for x in (sl.lo, sl.hi, sl.step)])])
        if not (self.is_const(sl.step) and self.const(sl.step) in (None, 1)):
            raise Unsupported("list slice step")
        lo = z3.IntVal(0) if self.is_none(sl.lo) else self.clamp(self.as_int(sl.lo), b.n)
        hi = b.n if self.is_none(sl.hi) else self.clamp(self.as_int(sl.hi), b.n)
        n = If(hi > lo, hi - lo, z3.IntVal(0))
        return self.new_list(LBody(n, lambda j: self.term(b.get(self, j + lo))))

    def dict_missing(self, r):
        """the value that a missing key of the dict at r gets (defaultdict)"""

    def inst_get(self, o, name):
        if not self.inst_has(o.ref, name):
            self.raise_py(KeyError)
        return self.getf(o.ref, name)

    def setitem(self, o, i, v):
        o = self.norm(o)
        if isinstance(o, InstDict):
            self.setf(o.ref, self.const(i), v)
            return
        if not isinstance(o, z3.ExprRef):
            raise Unsupported("item assignment to %r" % (o,))
        g = self.classify(o)
        if g == "vref":
            r = ref_of(o)
            cls = self.py_class(r)
            if cls is list:
                b = self.list_body(r)
                k = self.as_int(i)
                j = self.norm_index(k, b.n)
                if b.items is not None and z3.is_int_value(z3.simplify(j)):
                    jj = z3.simplify(j).as_long()
                    if not 0 <= jj < len(b.items):
                        self.raise_py(IndexError)
                    items = list(b.items)
                    items[jj] = v
                    self.setf(r, "LIST", LBody(None, items=items))
                    return
                if not self.decide(And(j >= 0, j < b.n)):
                    self.raise_py(IndexError)
                tv = self.term(v)
                self.setf(r, "LIST", LBody(b.n, lambda x: If(Eq(x, j), tv, self.term(b.get(self, x)))))
                return
            if cls is dict:
                self.check_hashable(i)
                self.dict_set(r, i, v)
                return
            if cls in self.closed:
                self.call(self.getattr(o, "__setitem__"), [i, v], {})
                return
        if g in ("vnone", "vbool", "vint", "vflt", "vstr"):
            self.raise_py(TypeError)
        raise Unsupported("item assignment " + g)

    def delitem(self, o, i):
        o = self.norm(o)
        if isinstance(o, InstDict):
            raise Unsupported("del of instance attribute")
        g = self.classify(self.term(o))
        if g == "vref":
            r = ref_of(o)
            cls = self.py_class(r)
            if cls is dict:
                self.check_hashable(i)
                h, b, nk = self.dict_get_has(r, i)
                if not self.decide(h):
                    self.raise_py(KeyError)
                self.dict_del(r, i)
                return
            if cls is list:
                i = self.norm(i)
                if isinstance(i, SliceV):
                    self.list_del_slice(r, i)
                    return
                self.list_pop(r, i)
                return
            if cls in self.closed:
                self.call(self.getattr(o, "__delitem__"), [i], {})
                return
        if g in ("vnone", "vbool", "vint", "vflt", "vstr"):
            self.raise_py(TypeError)
        raise Unsupported("delitem " + g)

    def list_pop(self, r, i):
        b = self.list_body(r)
        k = self.as_int(i)
        j = self.norm_index(k, b.n)
        sj = z3.simplify(j)
        if b.items is not None and z3.is_int_value(sj):
            jj = sj.as_long()
            if not 0 <= jj < len(b.items):
                self.raise_py(IndexError)
            self.setf(r, "LIST", LBody(None, items=b.items[:jj] + b.items[jj + 1:]))
            return b.items[jj]
        if not self.decide(And(j >= 0, j < b.n)):
            self.raise_py(IndexError)
        x = b.get(self, j)
        self.setf(r, "LIST", LBody(b.n - 1, lambda q: self.term(b.get(self, If(q < j, q, q + 1)))))
        return x

    def list_del_slice(self, r, sl):
        b = self.list_body(r)
        if b.items is not None and all(self.is_const(x) for x in (sl.lo, sl.hi, sl.step)):
            items = list(b.items)
            del items[slice(*[self.const(x) for x in (sl.lo, sl.hi, sl.step)])]
            self.setf(r, "LIST", LBody(None, items=items))
            return
        for x in (sl.lo, sl.hi, sl.step):
            t = self.term(x)
            if not self.decide(Or(is_tag(t, "vnone"), is_tag(t, "vint"), is_tag(t, "vbool"))):
                self.raise_py(TypeError)
        if self.decide(And(is_tag(self.term(sl.step), "vint"), acc(self.term(sl.step), "vint") == 0)):
            self.raise_py(ValueError)
        st = self.term(sl.step)
        if self.decide(Or(is_tag(st, "vnone"), And(is_tag(st, "vint"), acc(st, "vint") == 1))):
            lo, hi = [d if self.decide(is_tag(self.term(x), "vnone")) else self.clamp(self.num(self.term(x)), b.n)
                      for x, d in ((sl.lo, z3.IntVal(0)), (sl.hi, b.n))]
            k = If(hi > lo, hi - lo, z3.IntVal(0))
            self.setf(r, "LIST", LBody(b.n - k, lambda q: self.term(b.get(self, If(Or(q < lo, k == 0), q, q + k)))))
            return
        # extended slice: some elements disappear, the others keep their order
        t = self.fresh("tick", "tick")
        sel, inv = z3.Function("SEL_%d" % t, I, I), z3.Function("SELI_%d" % t, I, I)
        n2 = self.fresh("dn", I)
        self.fact(And(n2 >= 0, n2 <= b.n))

        def get(q):
            self.fact(Implies(And(q >= 0, q < n2), And(sel(q) >= q, sel(q) < b.n, inv(sel(q)) == q)))
            return self.term(b.get(self, sel(q)))
        self.setf(r, "LIST", LBody(n2, get))

    def list_append(self, r, v):
        b = self.list_body(r)
        if b.items is not None:
            self.setf(r, "LIST", LBody(None, items=b.items + [v]))
            return
        tv = self.term(v)
        self.setf(r, "LIST", LBody(b.n + 1, lambda q: If(q == b.n, tv, self.term(b.get(self, q)))))

    def list_insert(self, r, i, v):
        b = self.list_body(r)
        k = self.as_int(i)
        j = self.clamp(k, b.n)
        tv = self.term(v)
        self.setf(r, "LIST", LBody(b.n + 1, lambda q: If(q < j, self.term(b.get(self, q)),
                                                         If(q == j, tv, self.term(b.get(self, q - 1))))))

    def list_extend(self, r, it):
        try:
            xs = self.unroll(it)
        except Unsupported:
            n, f = self.iter_view(it)
            n0 = n()
            b = self.list_body(r)
            other = LBody(n0, lambda i: self.term(f(i)))
            self.setf(r, "LIST", self.concat(b, other))
            return
        for x in xs:
            self.list_append(r, x)
