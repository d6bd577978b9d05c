"""functional contracts of the accessors: item, attribute and get access, membership, selection by path"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import get, heap
from .common import *
from .contracts import *
from .get import Pure, boolarg, content_is_dict, fn_unit, inner, interp, isdict, missing, norm, plain, raw, rawfn, struct
from .mut import content_ref
from .pure import ROLE0


class Access(Pure):
    """_get_impl, __getitem__, __getattr__, get of mappings: the value of the child; the default exactly when the key is absent or its value missing"""

    def __init__(self, fn, kind):
        super().__init__(fn)
        self.kind = kind

    def parts(self, E, A):
        s = ref_of(E.term(A["self"]))
        n, ok = norm(E, s, A["key"])
        b = E.dict_body(content_ref(E, s))
        nk = E.nkey(n)
        has = b.has(nk)
        v = E.term(b.get(nk))
        E.fact(Implies(And(content_is_dict(E, s), has), E.isnode(v)))
        x = raw(E, ref_of(inner(E, v)))
        ms, it = missing(E, x), interp(E, x)
        if self.kind == "impl":
            vk = boolarg(E, A, "validate_key")
        else:
            vk = z3.BoolVal(self.kind != "attr")
        if self.kind in ("impl", "get"):
            d = E.norm(A["default_value"])
            nodef = E.ident(d, K(E.m.basecontainer._DEFAULT_MARKER_))
        else:
            d, nodef = NONE, TRUE
        cd = content_is_dict(E, s)
        if self.kind == "attr":
            cd = And(cd, E.term(A["key"]) != vstr("__name__"))
        absent = Or(And(Not(ok), Not(vk)), And(ok, Not(has)))
        return dict(s=s, ok=ok, has=has, v=v, ms=And(ok, has, ms), it=And(ok, has, Not(ms), it), val=And(ok, has, Not(ms), Not(it)), bad=And(Not(ok), vk), absent=absent,
                    d=d, nodef=nodef, cd=cd)

    def may_return(self, E, A, old):
        p = self.parts(E, A)
        return Implies(p["cd"], Or(p["val"], p["it"], And(Or(p["absent"], p["ms"]), Not(p["nodef"]))))

    def may_raise(self, E, A, old):
        p = self.parts(E, A)
        return Implies(p["cd"], Or(p["bad"], p["it"], And(Or(p["absent"], p["ms"]), p["nodef"])))

    def result(self, E, A):
        p = self.parts(E, A)
        usedef = Or(p["absent"], p["ms"])
        i = E.choose([And(p["cd"], usedef), And(p["cd"], p["val"]), Not(And(p["cd"], Or(usedef, p["val"])))])
        if i == 0:
            return p["d"]
        if i == 1:
            return plain(E, p["v"])
        return E.fresh_val("value")

    applying = True

    def ensures(self, E, A, old, res):
        if self.applying:
            return []
        p = self.parts(E, A)
        res = E.term(res)
        return [("the default when the key is absent or its value missing", Implies(And(p["cd"], Or(p["absent"], p["ms"])), res == E.term(p["d"]))),
                ("the value of the child", Implies(And(p["cd"], p["val"]), res == plain(E, p["v"])))]

    def raises(self, E, A, old, exc):
        with E.at(old):
            p = self.parts(E, A)
        c = E.cls_term(exc)
        er = E.m.errors
        cd = p["cd"]
        out = [("an exception", E.isa_cls(c, Exception)), ("a key validation error", Implies(And(cd, p["bad"]), E.isa_cls(c, er.KeyValidationError))),
               ("a missing value error", Implies(And(cd, p["ms"]), E.isa_cls(c, er.MissingMandatoryValue)))]
        ab = And(cd, p["absent"])
        if self.kind == "item":
            out.append(("a key error for an absent key", Implies(ab, E.isa_cls(c, er.ConfigKeyError))))
        elif self.kind == "attr":
            out.append(("an attribute error for an absent key", Implies(ab, E.isa_cls(c, er.ConfigAttributeError))))
        else:
            out.append(("a key or attribute error for an absent key", Implies(ab, Or(E.isa_cls(c, er.ConfigKeyError), E.isa_cls(c, er.ConfigAttributeError)))))
        return out


class Contains(Access):
    """key in cfg: there is a child and it is not missing; never an error but for an interpolation that cannot be parsed"""

    def __init__(self, fn):
        super().__init__(fn, "item")

    def may_return(self, E, A, old):
        return TRUE

    def may_raise(self, E, A, old):
        p = self.parts(E, A)
        return Implies(p["cd"], p["it"])

    def result(self, E, A):
        p = self.parts(E, A)
        cd = p["cd"]
        return Val.vbool(If(cd, Or(p["val"], p["it"]), E.fresh("rb", B)))

    def ensures(self, E, A, old, res):
        if self.applying:
            return []
        p = self.parts(E, A)
        res = E.term(res)
        return [("a bool", is_tag(res, "vbool")), ("whether there is a child that is not missing", Implies(p["cd"], res == Val.vbool(Or(p["val"], p["it"]))))]

    def raises(self, E, A, old, exc):
        return [("an exception", E.isa_cls(E.cls_term(exc), Exception))]


class AccessL(Access):
    """__getitem__, get of lists with an integer index"""

    def parts(self, E, A):
        s = ref_of(E.term(A["self"]))
        k = E.nkey(A["index"])
        ex = And(content_is_dict(E, s), is_tag(k, "vint"))
        b = E.list_body(content_ref(E, s))
        i = acc(k, "vint")
        inr = And(i >= -b.n, i < b.n)
        v = E.term(b.get(E, If(i < 0, i + b.n, i)))
        E.fact(Implies(And(ex, inr), E.isnode(v)))
        x = raw(E, ref_of(v))
        ms, it = missing(E, x), interp(E, x)
        if self.kind == "get":
            d = E.norm(A["default_value"])
            nodef = E.ident(d, K(E.m.basecontainer._DEFAULT_MARKER_))
        else:
            d, nodef = NONE, TRUE
        return dict(s=s, v=v, ms=And(inr, ms), it=And(inr, Not(ms), it), val=And(inr, Not(ms), Not(it)), bad=Not(inr), absent=FALSE, d=d, nodef=nodef, cd=ex)

    def raises(self, E, A, old, exc):
        with E.at(old):
            p = self.parts(E, A)
        c = E.cls_term(exc)
        er = E.m.errors
        return [("an exception", E.isa_cls(c, Exception)), ("an index error out of range", Implies(And(p["cd"], p["bad"]), E.isa_cls(c, er.ConfigIndexError))),
                ("a missing value error", Implies(And(p["cd"], p["ms"]), E.isa_cls(c, er.MissingMandatoryValue))),
                ("a grammar or interpolation error", Implies(And(p["cd"], p["it"]), Or(E.isa_cls(c, er.InterpolationResolutionError), E.isa_cls(c, er.GrammarParseError))))]


CHILD = z3.Function("CHILD", Val, S, Val)   # (of the heap at entry: used in units of reading operations only)


def child_(E, c, k):
    ch = CHILD(c, k)
    E.fact(Or(is_tag(ch, "vnone"), E.isnode(ch)))
    return ch


def child(E, c, k):
    """the child of the container c for a path component k (a string): None where there is none"""
    r = ref_of(c)
    cls = E.cls_term(r)
    cont = And(is_tag(c, "vref"), is_tag(E.getf(r, "_content"), "vref"))
    cr = content_ref(E, r)
    n, ok = norm(E, r, Val.vstr(k))
    db, lb = E.dict_body(cr), E.list_body(cr)
    nk = E.nkey(n)
    hd = And(cont, cls == E.cid(E.m.dictconfig.DictConfig), ok, db.has(nk))
    j = E.basefn("INT_OF", Val, I)(Val.vstr(k))
    hl = And(cont, cls == E.cid(E.m.listconfig.ListConfig), E.basefn("INT_OK", Val, B)(Val.vstr(k)), j >= 0, j < lb.n)
    dv, lv = E.term(db.get(nk)), E.term(lb.get(E, j))
    E.fact(Implies(hd, E.isnode(dv)))
    E.fact(Implies(hl, E.isnode(lv)))
    return If(hd, inner(E, dv), If(hl, inner(E, lv), NONE))


class SelOne(Pure):
    """_select_one(c, key): the child for one component of a path, or None"""

    def parts(self, E, A):
        c = E.term(A["c"])
        r = ref_of(c)
        cv = E.getf(r, "_content")
        ch = (child_ if self.applying else child)(E, c, acc(E.term(A["key"]), "vstr"))
        ms = And(is_tag(ch, "vref"), missing(E, raw(E, ref_of(ch))), boolarg(E, A, "throw_on_missing"))
        nidx = And(is_tag(cv, "vref"), E.cls_term(r) == E.cid(E.m.listconfig.ListConfig), Not(E.basefn("INT_OK", Val, B)(A["key"])))
        if self.applying:
            E.fact(Implies(nidx, ch == NONE))  # by the definition of child
        bad = And(nidx, boolarg(E, A, "throw_on_type_error"))
        return interp(E, cv), ch, ms, bad

    def may_return(self, E, A, old):
        it, ch, ms, bad = self.parts(E, A)
        return Or(it, Not(Or(ms, bad)))

    def may_raise(self, E, A, old):
        it, ch, ms, bad = self.parts(E, A)
        return Or(it, ms, bad)

    def result(self, E, A):
        it, ch, ms, bad = self.parts(E, A)
        return Tup([E.fresh_val("value") if E.choose([it, Not(it)]) == 0 else ch, E.fresh_val("key")])

    applying = True

    def ensures(self, E, A, old, res):
        it, ch, ms, bad = self.parts(E, A)
        v = E.term(res.items[0])
        out = [("a node or None", Or(is_tag(v, "vnone"), E.isnode(v)))]
        if not self.applying:
            out.append(("the child", Implies(Not(it), v == ch)))
        return out

    def raises(self, E, A, old, exc):
        with E.at(old):
            it, ch, ms, bad = self.parts(E, A)
        c = E.cls_term(exc)
        mv = E.isa_cls(c, E.m.errors.MissingMandatoryValue)
        E.assumptions.add("_get_full_key does not raise (the parents of a node form no cycle; used for the class of an error only)")
        return [("an exception", E.isa_cls(c, Exception)), ("a missing value error or a type error", Or(it, And(ms, mv), And(bad, E.isa_cls(c, TypeError))))]


WALK = z3.Function("WALK", Val, S, I, Val)   # the node reached from a container by the first i components of a path
PLAINP = z3.Function("PLAINP", Val, S, I, B)  # the first i components all exist and none of the nodes, nor the container, is an interpolation


def walk(E, c, k, i):
    """one step of the definitions at i"""
    E.fact(And(WALK(c, k, 0) == c, PLAINP(c, k, 0) == Not(interp(E, raw(E, ref_of(c))))))
    # by induction on the definition: a plain path has plain prefixes
    E.fact(Implies(And(i >= 0, i <= SPLITN(k), PLAINP(c, k, SPLITN(k))), PLAINP(c, k, i)))
    w = WALK(c, k, i)
    ch = child_(E, w, SPLIT(k, i))
    E.fact(Implies(i >= 0, WALK(c, k, i + 1) == If(E.isnode(w, E.container_classes), ch, NONE)))
    w1 = WALK(c, k, i + 1)
    E.fact(Implies(i >= 0, PLAINP(c, k, i + 1) == And(PLAINP(c, k, i), is_tag(w1, "vref"), Not(interp(E, raw(E, ref_of(w1)))))))
    E.fact(Implies(And(i >= 0, PLAINP(c, k, i)), is_tag(w, "vref")))
    return w


class SelImpl(Reads):
    """_select_impl(key): the node the path leads to, component by component; None where a component is absent.  (Where a node on the way is an
    interpolation, the walk goes on from what it resolves to; this is not stated here)"""

    def ensures(self, E, A, old, res):
        s, key = E.term(A["self"]), acc(E.term(A["key"]), "vstr")
        a, b, c = [E.term(x) for x in res.items]
        n = SPLITN(key)
        E.fact(n >= 1)
        ne = key != strlit("")
        walk(E, s, key, n)
        walk(E, s, key, n - 1)
        j = self.skolem(E)
        walk(E, s, key, j)
        out = super().ensures(E, A, old, res)
        out.append(("the empty path is the container itself", Implies(Not(ne), And(a == s, c == s))))
        out.append(("the node at the end of the path", Implies(And(ne, PLAINP(s, key, n)), And(c == WALK(s, key, n), a == WALK(s, key, n - 1), b == Val.vstr(SPLIT(key, n - 1))))))
        out.append(("None where a component is absent", Implies(And(ne, j >= 0, j < n, PLAINP(s, key, j), is_tag(WALK(s, key, j + 1), "vnone")), is_tag(c, "vnone"))))
        return out

    def raises(self, E, A, old, exc):
        with E.at(old):
            s, key = E.term(A["self"]), acc(E.term(A["key"]), "vstr")
            n = SPLITN(key)
            E.fact(n >= 1)
            walk(E, s, key, n)
            walk(E, s, key, n - 1)
            p = PLAINP(s, key, n)
        c = E.cls_term(exc)
        er = E.m.errors
        m = E.norm(A["memo"]) if "memo" in A else NONE
        return super().raises(E, A, old, exc) + [
            ("on a plain path only a missing value error, or that of a cycle",
             Implies(Or(key == strlit(""), p), Or(And(boolarg(E, A, "throw_on_missing"), E.isa_cls(c, er.MissingMandatoryValue)), And(Not(is_tag(E.term(m), "vnone")), E.isa_cls(c, er.InterpolationResolutionError)))))]

    def skolem(self, E):
        return E.fsk[1] if E.fsk is not None else E.fresh("sk", I)


def walk_inv(A):
    def inv(E, env, st, i):
        if i is None:
            return
        s, key = E.term(A["self"]), acc(E.term(A["key"]), "vstr")
        j = E.fsk[1]
        walk(E, s, key, i)
        walk(E, s, key, j)
        walk(E, s, key, i - 1)
        walk(E, s, key, i + 1)
        walk(E, s, key, i + 2)
        for nm, root in locals_of(env, A):
            yield ("the node so far: " + nm, Implies(PLAINP(s, key, i), root == WALK(s, key, i)))
            yield ("None below an absent component: " + nm, Implies(And(j >= 0, j < i, PLAINP(s, key, j), is_tag(WALK(s, key, j + 1), "vnone")), is_tag(root, "vnone")))
            yield ("a container or None so far: " + nm, Or(is_tag(root, "vnone"), E.isnode(root, E.container_classes)))
    return inv


def install_access(E, skip=()):
    m = E.m
    DC, LC = m.dictconfig.DictConfig, m.listconfig.ListConfig
    for f, c in ((DC._get_impl, Access(DC._get_impl, "impl")), (DC.__getitem__, Access(DC.__getitem__, "item")), (DC.__getattr__, Access(DC.__getattr__, "attr")),
                 (DC.get, Access(DC.get, "get")), (DC.__contains__, Contains(DC.__contains__)),
                 (LC.__getitem__, AccessL(LC.__getitem__, "item")), (LC.get, AccessL(LC.get, "get"))):
        f = rawfn(f)
        if f not in skip:
            E.contracts[f] = c
    E.contracts[m.oc._select_one] = SelOne(m.oc._select_one)
    f = rawfn(m.basecontainer.BaseContainer._get_full_key)
    E.contracts[f] = Reads(f, ret="str", can_raise=False)
    f = m.base.Container._select_impl
    E.contracts[f] = SelImpl(f, ret="select")
    from . import sel
    E.contracts[m.impl.select_node] = sel.SelNode(m.impl.select_node)
    E.contracts[m.impl.select_value] = sel.SelValue(m.impl.select_value)


def memo_set(E):
    s = E.obj("memo", set)
    E.fact(E.basefn("KIND", I, I)(ref_of(s)) == 5)
    E.fact(ROLE0(ref_of(s)))
    return s


def units(E):
    m = E.m
    DC, LC = m.dictconfig.DictConfig, m.listconfig.ListConfig
    C = m.base.Container
    sel = [("_select_one[%s]" % c.__name__, fn_unit(E, m.oc._select_one, None, {"c": lambda E, c=c: heap.node_at(E, "c", c)[0], "key": lambda E: E.str("key")})) for c in (DC, LC)]
    sel += [("Container._select_impl[%s%s]" % (c.__name__, w), fn_unit(E, C._select_impl, c, {"memo": mk}, inv=walk_inv)) for c in (DC, LC)
            for w, mk in (("; no memo", lambda E: NONE), ("; a memo", memo_set))]
    return sel + [(rawfn(f).__qualname__, fn_unit(E, f, c)) for f, c in ((DC._get_impl, DC), (DC.__getitem__, DC), (DC.__getattr__, DC), (DC.get, DC), (DC.__contains__, DC),
                                                               (LC.__getitem__, LC), (LC.get, LC))]
