"""pyvc core: value sort, class model, symbolic heap, path exploration, obligations.

A forking symbolic executor in direct style.  A path is re-executed from the
start of its exploration with a recorded list of choices; z3 scopes are kept in
step with that list, so nothing is asserted twice.
"""
import itertools
import time

import z3

# ------------------------------------------------------------------ values
_D = z3.Datatype("Val")
_D.declare("vnone")
_D.declare("vbool", ("b", z3.BoolSort()))
_D.declare("vint", ("i", z3.IntSort()))
_D.declare("vflt", ("f", z3.IntSort()))
_D.declare("vstr", ("s", z3.StringSort()))
_D.declare("vbyt", ("y", z3.IntSort()))
_D.declare("vref", ("r", z3.IntSort()))
_D.declare("vtyp", ("t", z3.IntSort()))
_D.declare("vcst", ("c", z3.IntSort()))
Val = _D.create()
I, B, S = z3.IntSort(), z3.BoolSort(), z3.StringSort()
NONE = Val.vnone
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
TAGS = ["vnone", "vbool", "vint", "vflt", "vstr", "vbyt", "vref", "vtyp", "vcst"]
_REC = {n: Val.recognizer(i) for i, n in enumerate(TAGS)}
_CON = {n: Val.constructor(i) for i, n in enumerate(TAGS)}
_ACC = {n: (Val.accessor(i, 0) if i else None) for i, n in enumerate(TAGS)}


def is_val(x):
    return isinstance(x, z3.ExprRef) and x.sort() == Val


def tag_of(t):
    """constructor name if t is a constructor application, else None"""
    n = t.decl().name()
    return n if n in _CON else None


def And(*xs):
    out = []
    for x in xs:
        if x is True or (z3.is_true(x) if not isinstance(x, bool) else False):
            continue
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            continue
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return FALSE if x else TRUE
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a):
        return Not(b)
    if z3.is_false(b):
        return Not(a)
    return TRUE if a.eq(b) else a == b


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == B:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
    return z3.If(c, a, b)


def is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def is_tag(t, n):
    g = tag_of(t)
    if g is not None:
        return TRUE if g == n else FALSE
    if is_ite(t):
        return If(t.arg(0), is_tag(t.arg(1), n), is_tag(t.arg(2), n))
    return _REC[n](t)


def acc(t, n):
    g = tag_of(t)
    if g == n:
        return t.arg(0)
    if is_ite(t):
        a, b = t.arg(1), t.arg(2)
        ga, gb = tag_of(a), tag_of(b)
        if ga == n and gb == n:
            return If(t.arg(0), a.arg(0), b.arg(0))
        if ga is not None and ga != n:
            return acc(b, n)
        if gb is not None and gb != n:
            return acc(a, n)
        if is_ite(a) or is_ite(b):
            return If(t.arg(0), acc(a, n), acc(b, n))
    return _ACC[n](t)


def ref_of(t):
    return acc(t, "vref")


def Eq(a, b):
    if a.eq(b):
        return TRUE
    if a.sort() == I and z3.is_int_value(a) and z3.is_int_value(b):
        return FALSE
    if a.sort() == S and z3.is_string_value(a) and z3.is_string_value(b):
        return FALSE
    if a.sort() == Val:
        ga, gb = tag_of(a), tag_of(b)
        if ga is not None and gb is not None:
            if ga != gb:
                return FALSE
            if ga == "vnone":
                return TRUE
            return Eq(a.arg(0), b.arg(0))
        if gb is not None and ga is None:
            a, b, ga, gb = b, a, gb, ga
        if ga is not None and is_ite(b):
            return If(b.arg(0), Eq(a, b.arg(1)), Eq(a, b.arg(2)))
        if ga == "vnone":
            return _REC["vnone"](b)
    if a.sort() == B:
        return Iff(a, b)
    return a == b


def vint(x):
    return Val.vint(z3.IntVal(x) if isinstance(x, int) else x)


def vstr(x):
    return Val.vstr(strlit(x) if isinstance(x, str) else x)


def strlit(x):
    # z3 string literals: escape everything that is not plain ascii
    return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in x))


def vbool(x):
    return Val.vbool(z3.BoolVal(x) if isinstance(x, bool) else x)


def vref(x):
    return Val.vref(z3.IntVal(x) if isinstance(x, int) else x)


# ------------------------------------------------------------ control flow
class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PyRaise(Exception):
    """a Python exception propagating in the interpreted program"""

    def __init__(self, ref):
        self.ref = ref  # Int term: address of the exception object


# ------------------------------------------------------------------- heap
_mapid = itertools.count()


class FM:
    """field map: address -> value, persistent; reads are cached together with the facts they emit"""

    cache = None

    def read(self, E, r):
        if self.cache is None:
            self.cache, self.sid = {}, next(_mapid)
        k = r.get_id()
        c = self.cache.get(k)
        mark = (self.sid, k)
        if c is not None:
            if mark not in E.run.seen:
                E.run.seen.add(mark)
                for f in c[1]:
                    E.fact(f)
            return c[0]
        E.recs.append([])
        try:
            v = self._read(E, r)
        finally:
            rec = E.recs.pop()
            if E.recs:
                E.recs[-1].extend(rec)
        E.keep.append(r)
        self.cache[k] = (v, rec)
        E.run.seen.add(mark)
        return v


class BaseM(FM):
    def __init__(self, name, reader):
        self.name, self.reader = name, reader

    def _read(self, E, r):
        return self.reader(E, r)


class StoreM(FM):
    def __init__(self, m, k, v):
        self.m, self.k, self.v = m, k, v

    def _read(self, E, r):
        s = E.same(r, self.k)
        if s is True:
            return self.v
        if s is False:
            return self.m.read(E, r)
        return E.ite_any(r == self.k, self.v, self.m.read(E, r))


class HavocM(FM):
    def __init__(self, m, pred, reader, combine=None):
        self.m, self.pred, self.reader, self.combine = m, pred, reader, combine

    def _read(self, E, r):
        if self.combine is not None:
            return self.combine(E, r, self.reader(E, r), self.m.read(E, r))
        c = self.pred(r)
        if z3.is_false(c):
            return self.m.read(E, r)
        n = self.reader(E, r)
        if z3.is_true(c):
            return n
        return E.ite_any(c, n, self.m.read(E, r))


class IteM(FM):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _read(self, E, r):
        return E.ite_any(self.c, self.a.read(E, r), self.b.read(E, r))


class LBody:
    """list body: length term, get(Int term)->Val; items: python list when its shape is known"""

    def __init__(self, n, get=None, items=None):
        self.items = items
        if items is not None:
            n = z3.IntVal(len(items))
        self.n, self._get = n, get

    def get(self, E, i):
        if self.items is not None:
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(self.items):
                    return self.items[k]
                return NONE
            r = NONE
            for k in range(len(self.items) - 1, -1, -1):
                r = If(i == k, E.term(self.items[k]), r)
            return r
        return self._get(i)


class DBody:
    """dict body; keys are normalised Val terms.

    items: python list of (key, value) when the key set is a known finite list of
    pairwise different constants, else None.  idx: the position of a key that is there, where known."""
    idx = None

    def __init__(self, has, get, n, keyat=None, items=None):
        self.has_, self.get_, self.n, self.keyat_, self.items = has, get, n, keyat, items

    def has(self, k):
        return self.has_(k)

    def get(self, k):
        return self.get_(k)

    def keyat(self, i):
        if self.keyat_ is None:
            raise Unsupported("dict order")
        return self.keyat_(i)


class State:
    __slots__ = ("f", "hi", "g")

    def __init__(self, f, hi, g):
        self.f, self.hi, self.g = f, hi, g

    def copy(self):
        return State(dict(self.f), self.hi, dict(self.g))


class Event:
    __slots__ = ("opts", "i", "nfresh", "memo")

    def __init__(self, opts, nfresh, memo=None):
        self.opts, self.i, self.nfresh, self.memo = opts, 0, nfresh, memo


class Run:
    def __init__(self, prefix, seen, freshlog):
        self.prefix, self.pos = prefix, 0
        self.pc, self.seen, self.facts = [], set(seen), []
        self.freshlog, self.fpos = freshlog, 0

    @property
    def replaying(self):
        return self.pos < len(self.prefix)


class PathRes:
    def __init__(self, pc, st, kind, val, facts, seen):
        self.pc, self.st, self.kind, self.val, self.facts, self.seen = pc, st, kind, val, facts, seen


class Obligation:
    def __init__(self, fn, name, status, ms, model=None, path=None, extra=None):
        self.fn, self.name, self.status, self.ms, self.model, self.path, self.extra = (
            fn, name, status, ms, model, path, extra)


_gensym = itertools.count()
SLOW = float(__import__("os").environ.get("PYVC_SLOW", "0"))


class Engine:
    """solver, exploration and heap services; the interpreter derives from it"""

    MAXPATHS = 4000
    CHECK_MS = 4000
    PROVE_MS = 20000

    def __init__(self):
        z3.set_param("smt.random_seed", 1)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.CHECK_MS)
        self.A0 = z3.Int("A0")
        self.solver.add(self.A0 > 0)
        self.run = Run([], set(), [])
        self.st = None
        self.obls = []
        self.solver_ms = 0.0
        self.nchecks = 0
        self.addr = itertools.count(1)
        self.last_addr = 0
        self.npaths = 0
        self.deadline = None
        self.curfn = "?"
        self.nonneg = set()
        self.kinds = {}  # address term -> kind of object (objects of different kinds are different)
        self.recs = []  # facts emitted by the reads in progress
        self.keep = []  # keeps terms alive so that get_id stays unique
        self.written = None  # recording of written fields during loop analysis
        self.quiet = 0  # >0: obligations are not recorded (houdini rounds)

    # ---- facts and choices
    def fact(self, f):
        """a globally valid instance (axiom, definition)"""
        if z3.is_true(f):
            return
        i = f.get_id()
        if self.recs:
            self.recs[-1].append(f)
        if i in self.run.seen:
            return
        self.keep.append(f)
        self.run.seen.add(i)
        self.run.facts.append(f)
        if not self.run.replaying:
            self.solver.add(f)

    def assume(self, f):
        """a path assumption"""
        if z3.is_true(f):
            return
        self.run.pc.append(f)
        if not self.run.replaying:
            self.solver.add(f)
        if z3.is_false(f):
            raise PathEnd()

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_ms += dt * 1000
        self.nchecks += 1
        if SLOW and dt > SLOW:
            import traceback
            with open("/tmp/slow.log", "a") as f:
                f.write("%.1fs %s %s\n   %s\n   %s\n" % (dt, r, self.curfn, str(extra)[:600],
                        " < ".join("%s:%d" % (x.name, x.lineno) for x in traceback.extract_stack()[-14:-1][::-1])))
        return r

    def fresh(self, name, sort):
        run = self.run
        if run.fpos < len(run.freshlog):
            c = run.freshlog[run.fpos]
        else:
            if isinstance(sort, str) and sort == "addr":
                a = next(self.addr)
                self.last_addr = a
                c = z3.IntVal(-a)
            elif isinstance(sort, tuple):
                c = z3.Function("%s!%d" % (name, next(_gensym)), *sort)
            elif isinstance(sort, str) and sort == "tick":
                c = next(_gensym)
            else:
                c = z3.Const("%s!%d" % (name, next(_gensym)), sort)
            run.freshlog.append(c)
        run.fpos += 1
        return c

    def _event(self, mk):
        run = self.run
        if run.pos < len(run.prefix):
            ev = run.prefix[run.pos]
            run.pos += 1
            return ev, True
        ev = mk()
        ev.nfresh = run.fpos
        run.prefix.append(ev)
        run.pos += 1
        self.solver.push()
        return ev, False

    def decide(self, cond):
        """fork on a condition; returns a python bool"""
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        nc = Not(cond)

        def mk():
            opts = []
            rt = self.check(cond)
            if rt == z3.unsat:
                opts = [(False, nc)]
            else:
                rf = self.check(nc)
                opts = [(True, cond)]
                if rf != z3.unsat:
                    opts.append((False, nc))
            return Event(opts, 0)

        ev, replay = self._event(mk)
        b, c = ev.opts[ev.i]
        self.run.pc.append(c)
        if not replay:
            self.solver.add(c)
        return b

    def choose(self, conds):
        """fork over several exhaustive alternatives given as formulas; returns the index"""

        def mk():
            opts = []
            for i, c in enumerate(conds):
                if z3.is_false(c):
                    continue
                if z3.is_true(c) or self.check(c) != z3.unsat:
                    opts.append((i, c))
            return Event(opts, 0)

        ev, replay = self._event(mk)
        if not ev.opts:
            raise PathEnd()
        i, c = ev.opts[ev.i]
        self.run.pc.append(c)
        if not replay:
            self.solver.add(c)
        return i

    def must(self, cond):
        """is cond implied by the current path? (cheap query, recorded as an event)"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False

        def mk():
            return Event([(self.check(Not(cond)) == z3.unsat, TRUE)], 0)

        ev, _ = self._event(mk)
        return ev.opts[0][0]

    def memo(self, compute):
        """compute once per path prefix; must leave self.st/self.run as found"""

        def mk():
            m = compute()
            return Event([(0, TRUE)], 0, memo=m)

        # compute before pushing the scope for the event
        run = self.run
        if run.pos < len(run.prefix):
            ev = run.prefix[run.pos]
            run.pos += 1
            return ev.memo, True
        ev = mk()
        ev.nfresh = run.fpos
        run.prefix.append(ev)
        run.pos += 1
        self.solver.push()
        return ev.memo, False

    def explore(self, thunk):
        """run thunk on every feasible path from the current state; returns list of PathRes"""
        outer_run, base = self.run, self.st
        results = []
        prefix, flog = [], []
        self.solver.push()
        try:
            while True:
                self.npaths += 1
                if self.npaths > self.MAXPATHS:
                    raise Budget("paths")
                self.st = base.copy()
                self.run = Run(prefix, outer_run.seen, flog)
                r = self.run
                try:
                    v = thunk()
                    results.append(PathRes(r.pc, self.st, "ret", v, r.facts, r.seen))
                except PyRaise as e:
                    results.append(PathRes(r.pc, self.st, "exc", e.ref, r.facts, r.seen))
                except PathEnd:
                    pass
                while prefix and prefix[-1].i + 1 >= len(prefix[-1].opts):
                    prefix.pop()
                    self.solver.pop()
                if not prefix:
                    break
                ev = prefix[-1]
                ev.i += 1
                self.solver.pop()
                self.solver.push()
                self.solver.add(ev.opts[ev.i][1])
                del flog[ev.nfresh:]
        finally:
            # restore scopes
            for _ in prefix:
                self.solver.pop()
            self.solver.pop()
            self.run, self.st = outer_run, base
        return results

    # ---- obligations
    def prove(self, name, goal, extra=None):
        if self.run.replaying or self.quiet:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t = time.time()
        status, model = self._prove(goal)
        ms = (time.time() - t) * 1000
        self.obls.append(Obligation(self.curfn, name, status, ms, model,
                                    list(self.run.pc) if status != "proved" else None, extra))
        return status

    def prove_all(self, goals):
        """several goals; one query when all of them hold"""
        if self.run.replaying or self.quiet:
            return
        goals = list(goals)
        if len(goals) > 1:
            t = time.time()
            self.solver.set("timeout", self.PROVE_MS)
            try:
                ok = self.check(Not(And(*[g for n, g in goals]))) == z3.unsat
            finally:
                self.solver.set("timeout", self.CHECK_MS)
            if ok:
                ms = (time.time() - t) * 1000 / len(goals)
                for n, g in goals:
                    self.obls.append(Obligation(self.curfn, n, "proved", ms))
                return
        for n, g in goals:
            self.prove(n, g)

    def _prove(self, goal):
        if z3.is_true(goal):
            return "proved", None
        self.solver.set("timeout", self.PROVE_MS)
        try:
            r = self.check(Not(goal))
            if r == z3.unsat:
                return "proved", None
            if r == z3.sat:
                return "refuted", self.solver.model()
            s = z3.Solver()
            s.set("timeout", self.PROVE_MS)
            s.add(*self.solver.assertions())
            s.add(Not(goal))
            t = time.time()
            r = s.check()
            self.solver_ms += (time.time() - t) * 1000
            if r == z3.unsat:
                return "proved", None
            if r == z3.sat:
                return "refuted", s.model()
            return "unknown", None
        finally:
            self.solver.set("timeout", self.CHECK_MS)

    def holds(self, goal):
        """silent proof attempt in the current path (used by invariant inference)"""
        if z3.is_true(goal):
            return True
        return self.check(Not(goal)) == z3.unsat

    # ---- addresses
    def same(self, r, k):
        if r.eq(k):
            return True
        rc, kc = z3.is_int_value(r), z3.is_int_value(k)
        if rc and kc:
            return False
        a, b = self.kinds.get(r.get_id()), self.kinds.get(k.get_id())
        if a is not None and b is not None and a != b:
            return False
        if self.is_new(r) and self.is_old(k) or self.is_new(k) and self.is_old(r):
            return False
        if rc and r.as_long() < 0 and k.get_id() in self.nonneg:
            return False
        if kc and k.as_long() < 0 and r.get_id() in self.nonneg:
            return False
        return None

    def mark_nonneg(self, r):
        self.keep.append(r)
        self.nonneg.add(r.get_id())

    def ite_any(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return If(c, a, b)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, LBody):
            return LBody(If(c, a.n, b.n), lambda i: If(c, self.term(a.get(self, i)), self.term(b.get(self, i))))
        if isinstance(a, DBody):
            ka = None
            if a.keyat_ is not None and b.keyat_ is not None:
                ka = lambda i: If(c, a.keyat(i), b.keyat(i))
            d = DBody(lambda k: If(c, a.has(k), b.has(k)), lambda k: If(c, a.get(k), b.get(k)),
                      If(c, a.n, b.n), ka)
            if a.idx is not None and b.idx is not None:
                d.idx = lambda k: If(c, a.idx(k), b.idx(k))
            return d
        if a is None or b is None:
            return None
        return If(c, self.term(a), self.term(b))


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def strval(s):
    """host string of a z3 string literal"""
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s.as_string())


def layout_conflict(C, D):
    base = (int, str, float, bytes, dict, list, tuple, set, type, BaseException)

    def lay(c):
        for b in base:
            if issubclass(c, b):
                return b
        return None

    a, b = lay(C), lay(D)
    return a is not None and b is not None and a is not b
