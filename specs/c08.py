"""C08: copying and pickling: the copy of a node has equal parts and shares none of the mutable ones, the original is untouched"""
import typing

import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from . import heap
from .common import *
from .contracts import *
from .get import rawfn

COPY = z3.Function("COPY_OF", I, I, B)  # the first node is a deep copy of the second
DEEP = z3.Function("DEEP_COPY", Val, Val)  # a deep copy of a plain value
PLAINM = ("ref_type", "object_type", "optional", "key", "flags_root", "key_type", "element_type")


def new(old, r):
    return Or(r < 0, r >= old.hi)


def meta_fields(E, c):
    """the plain fields of a metadata class, or of the metadata of a node class"""
    m = E.m
    if c not in E.meta_classes:
        c = m.base.ContainerMetadata if issubclass(c, m.base.Container) else m.base.Metadata
    return [f for f in PLAINM if f in E.fields_of(c)]


def copied(E, deep, t):
    """copy.copy / copy.deepcopy of an object, as the copy module does it for the classes met here; of a node (which has its own
    __deepcopy__): the contract of __deepcopy__, proved by the units below"""
    m = E.m
    r = ref_of(t)
    if deep and E.must(Or(is_tag(t, "vnone"), And(is_tag(t, "vref"), heap.ROLE(r) == 4))):
        v, n = E.fresh("cachecopy", Val), E.alloc(dict)  # a copy of a flags cache: None or a new dict
        E.fact(heap.ROLE(n) == 4)
        E.fact(v == If(is_tag(t, "vnone"), NONE, vref(n)))
        return v
    if not E.must(is_tag(t, "vref")) and not E.decide(is_tag(t, "vref")):
        return t
    c = E.cls_term(r)
    if E.must(Or(c == E.cid(m.base.Metadata), c == E.cid(m.base.ContainerMetadata))):
        k = m.base.ContainerMetadata if E.decide(c == E.cid(m.base.ContainerMetadata)) else m.base.Metadata
        n = E.alloc(k)
        E.kind(z3.IntVal(n.as_long()), "meta")
        E.assumptions.add("copy.deepcopy of Metadata: a new object with the same plain fields and new dicts with the same entries (keys and declared types "
                          "are immutable); copy.copy: a new object with the same fields")
        for f in meta_fields(E, k):
            E.setf_init(n, f, E.getf(r, f))
        for f in ("flags", "resolver_cache"):
            v = E.getf(r, f)
            if deep:
                d = E.alloc(dict)
                E.fact(heap.ROLE(d) == heap.ROLE(ref_of(v)))
                b = E.dict_body(ref_of(v))
                g = b.get if f == "flags" else (lambda b: lambda k: DEEP(E.term(b.get(k))))(b)
                E.setf_init(d, "DICT", DBody(b.has, g, b.n, b.keyat_))
                v = vref(d)
            E.setf_init(n, f, E.term(v))
        return vref(n)
    if not E.must(E.isnode(t)):
        i = E.choose([E.isnode(t), c == E.cid(dict), And(Not(E.isnode(t)), c != E.cid(dict))])
        if i == 1:
            n = E.alloc(dict)
            b = E.dict_body(r)
            g = (lambda k: DEEP(E.term(b.get(k)))) if deep and not E.must(heap.ROLE(r) == 4) else b.get
            E.setf_init(n, "DICT", DBody(b.has, g, b.n, b.keyat_))
            return vref(n)
        if i == 2:
            raise Unsupported("copy of an object")
    # a node
    if E.decide(E.fresh("copy_raises", B)):
        x = E.alloc(Exception)
        k = E.fresh("exccls", I)
        E.st.f["cls"] = StoreM(E.st.f["cls"], x, k)
        E.fact(E.isa_cls(k, Exception))
        raise PyRaise(x)
    E.assumptions.add("copy.copy and copy.deepcopy of a node call its __copy__ or __deepcopy__ (under contract here) and modify nothing themselves; one node "
                      "object is not copied twice by one call (the tree invariant, C07)")
    lo, hi, n = E.st.hi, E.fresh("hi", I), E.fresh("copyd", I)
    E.fact(And(hi >= lo, n >= lo, n < hi))
    E.mark_nonneg(n)
    E.newrefs = E.newrefs | {n.get_id()}
    E.deepnew = E.deepnew | {n.get_id()}
    E.st.hi = hi
    E.kind(n, "node")
    E.st.f["cls"] = StoreM(E.st.f["cls"], n, c)
    E.setf_init(n, "_parent", E.getf(r, "_parent"))
    E.fact(COPY(n, r))
    return Val.vref(n)


def same_meta(E, old, c, s, n):
    """the metadata of the copy: another object with the same contents"""
    with E.at(old):
        m0 = E.meta(s)
        v0 = {f: E.getf(m0, f) for f in meta_fields(E, c)}
        f0 = ref_of(E.getf(m0, "flags"))
        b0 = E.dict_body(f0)
        r0 = ref_of(E.getf(m0, "resolver_cache"))
        rb0 = E.dict_body(r0)
    m1 = E.meta(n)
    f1, r1 = ref_of(E.getf(m1, "flags")), ref_of(E.getf(m1, "resolver_cache"))
    b1, rb1 = E.dict_body(f1), E.dict_body(r1)
    k = E.fsk[2]
    gs = [("its own metadata", new(old, m1)), ("its own flags", new(old, f1)), ("its own resolver cache", new(old, r1))]
    gs += [("the same " + f, (E.nkey(E.getf(m1, f)) == E.nkey(v0[f])) if f == "key" else E.getf(m1, f) == v0[f]) for f in v0]
    gs.append(("the same flags", And(b1.n == b0.n, b1.has(k) == b0.has(k), Implies(b0.has(k), E.term(b1.get(k)) == E.term(b0.get(k))))))
    gs.append(("the same cached resolvers", And(rb1.n == rb0.n, rb1.has(k) == rb0.has(k))))
    return gs


def copy_goals(E, old, c, s, res):
    """res is a copy of the node s of class c"""
    m = E.m
    res = E.term(E.norm(res))
    n = ref_of(res)
    with E.at(old):
        p0 = E.getf(s, "_parent")
        cv = E.getf(s, "_content") if issubclass(c, m.base.Box) else None
    gs = [("a node of the same class", And(is_tag(res, "vref"), E.cls_term(n) == E.cid(c))), ("a new one", new(old, n)), ("the parent is kept", E.getf(n, "_parent") == p0)]
    gs += same_meta(E, old, c, s, n)
    o, i, k = E.fsk
    if cv is None:
        with E.at(old):
            val = E.getf(s, "_val")
        gs.append(("the same value", E.getf(n, "_val") == val))
        if c is m.nodes.EnumNode:
            with E.at(old):
                et = E.getf(s, "enum_type")
            gs.append(("the same enum type", E.getf(n, "enum_type") == et))
        return gs
    cr = ref_of(cv)
    nv = E.getf(n, "_content")
    nr = ref_of(nv)
    isref = is_tag(cv, "vref")
    gs.append(("None, the missing marker and interpolations as they are", Implies(Not(isref), nv == cv)))

    def child(e, e0):
        x, x0 = ref_of(e), ref_of(e0)
        return And(is_tag(e, "vref"), new(old, x), COPY(x, x0), E.getf(x, "_parent") == vref(n))
    if c is m.base.UnionNode:
        gs.append(("the content is a copy in the copy", Implies(isref, child(nv, cv))))
    elif c is m.dictconfig.DictConfig:
        with E.at(old):
            b0 = E.dict_body(cr)
            e0 = E.term(b0.get(k))
        b = E.dict_body(nr)
        gs += [("its own content", Implies(isref, And(is_tag(nv, "vref"), new(old, nr), E.cls_term(nr) == E.cid(dict)))), ("the same keys", Implies(isref, And(b.n == b0.n, b.has(k) == b0.has(k)))),
               ("the same order", Implies(And(isref, i >= 0, i < b0.n), b.keyat(i) == b0.keyat(i))), ("every child is a copy in the copy", Implies(And(isref, b0.has(k)), child(E.term(b.get(k)), e0)))]
    else:
        with E.at(old):
            b0 = E.list_body(cr)
            e0 = E.term(b0.get(E, i))
        b = E.list_body(nr)
        gs += [("its own content", Implies(isref, And(is_tag(nv, "vref"), new(old, nr), E.cls_term(nr) == E.cid(list)))), ("the same length", Implies(isref, b.n == b0.n)),
               ("every element is a copy in the copy", Implies(And(isref, i >= 0, i < b0.n), child(E.term(b.get(E, i)), e0)))]
    return gs


def loop_inv(E, old, c, s, objs):
    """so far the local dict or list of copies has a copy of every child seen"""
    m = E.m
    o, fi, k = E.fsk
    with E.at(old):
        cr = ref_of(E.getf(s, "_content"))
        b0 = E.dict_body(cr) if c is m.dictconfig.DictConfig else E.list_body(cr)
        ek = E.term(b0.get(k)) if c is m.dictconfig.DictConfig else None
        ei = E.term(b0.get(E, fi)) if c is m.listconfig.ListConfig else None

    def child(e, e0, n):
        x = ref_of(e)
        return And(is_tag(e, "vref"), new(old, x), COPY(x, ref_of(e0)), E.getf(x, "_parent") == n)

    def inv(E, env, st, i):
        if i is None:
            return
        for f in ("_parent", "_metadata", "_content"):
            a, b = st.f.get(f) or E.base_map(f), E.field(f)
            yield ("the original itself:" + f, a.read(E, s) == b.read(E, s))
        # the local that holds the copies: a dict or list created in this call; the node under construction: a new node
        ns = []
        for nm, v in env.vars.items():
            if isinstance(v, z3.ExprRef) and tag_of(v) == "vref" and E.is_new(ref_of(v)):
                ns.append((nm, v))
        kinds = {nm: E.ct.objs[E.cls_term(ref_of(v)).as_long()] for nm, v in ns if z3.is_int_value(E.cls_term(ref_of(v)))}
        nodes = [v for nm, v in ns if kinds.get(nm) is c]
        for nm, v in ns:
            if kinds.get(nm) is dict and ek is not None:
                r = ref_of(v)
                b = E.dict_body(r)
                g = And(b.n == i, Implies(And(fi >= 0, fi < i), b.keyat(fi) == b0.keyat(fi)), b.has(k) == And(b0.has(k), b0.idx(k) < i))

                def put(r=r, b=b):
                    d = DBody(lambda x: And(b0.has(x), b0.idx(x) < i), b.get, i, b0.keyat)
                    d.idx = b0.idx
                    E.setf_init(r, "DICT", d)
                yield ("copies so far in %s: keys" % nm, g, put)
                for w in nodes:
                    yield ("copies so far in %s: copies" % nm, Implies(b.has(k), child(E.term(b.get(k)), ek, w)))
            if kinds.get(nm) is list and ei is not None:
                b = E.list_body(ref_of(v))
                yield ("copies so far in %s: number" % nm, b.n == i)
                for w in nodes:
                    yield ("copies so far in %s: copies" % nm, Implies(And(fi >= 0, fi < i), child(E.term(b.get(E, fi)), ei, w)))
    return inv


def start(E, c):
    install_reads(E)
    install_makers(E, skip=("EnumNode.__init__",))
    E.on_copy = lambda deep, t: copied(E, deep, t)
    v, s, mr = heap.node_at(E, "self", c)
    heap.frame_begin(E)
    return v, s


def finish(E, rep, old, fn, args, goals):
    try:
        res = E.run_fn(fn, args)
    except PyRaise as p:
        rep.exits[1] += 1
        E.prove_all(E.frame_goals(old, {}, "nothing changes when it raises"))
        return None
    rep.exits[0] += 1
    E.prove_all(goals(res) + E.frame_goals(old, {}, "the original is untouched"))
    return res


def deepcopy_unit(E, c):
    fn = rawfn(c.__deepcopy__)

    def body(rep):
        v, s = start(E, c)
        memo = vref(E.alloc(dict))
        E.setf_init(ref_of(memo), "DICT", E.dict_from_items([]))
        old = E.st.copy()
        if issubclass(c, E.m.base.Container):
            E.inv_cands = E.inv_cands + [loop_inv(E, old, c, s, None)]
        finish(E, rep, old, fn, [v, memo], lambda res: copy_goals(E, old, c, s, res))
    return body


def delegate_unit(E, c, name):
    """copy() and __copy__ return what copy.copy and copy.deepcopy return"""
    fn = rawfn(getattr(c, name))

    def body(rep):
        v, s = start(E, c)
        old = E.st.copy()

        def goals(res):
            n = ref_of(E.term(E.norm(res)))
            with E.at(old):
                p0 = E.getf(s, "_parent")
            return [("a copy of it", And(COPY(n, s), new(old, n))), ("the parent is kept", E.getf(n, "_parent") == p0)]
        finish(E, rep, old, fn, [v], goals)
    return body


def pickle_unit(E, c):
    """__getstate__ followed by __setstate__ on a new object of the class"""
    gs, ss = rawfn(c.__getstate__), rawfn(c.__setstate__)

    def body(rep):
        v, s = start(E, c)
        E.assumptions.add("pickle and copyreg: an object is rebuilt by class.__new__ and __setstate__ of an equal copy of what __getstate__ returned; "
                          "typing constructs and classes are unpickled as themselves")
        m0 = E.meta(s)
        fs = sorted(E.fields_of(c) - {"_flags_cache"})
        f0 = {f: E.getf(s, f) for f in fs}
        mf = [f for f in meta_fields(E, c)] + ["flags", "resolver_cache"]
        v0 = {f: E.getf(m0, f) for f in mf}
        cont = issubclass(c, E.m.base.Container)
        old = E.st.copy()
        u = lambda n: E.basefn("P_" + n, Val, B)
        rt = v0["ref_type"]
        ann = u("is_container_annotation")(rt) if cont else FALSE
        if cont:
            E.assumptions.add("a container annotation among the reference types is a generic dict or list annotation, or Dict or List itself, that fits the "
                              "class and the key and element type (kept by the constructors: C04)")
            isd = u("is_dict_annotation")(rt)
            E.fact(Implies(ann, isd != u("is_list_annotation")(rt)))
            D, L = E.term(K(typing.Dict)), E.term(K(typing.List))
            for t in (D, L):
                E.fact(u("is_container_annotation")(t))
            E.fact(And(u("is_generic_dict")(D), Not(u("is_generic_list")(D)), u("is_generic_list")(L), Not(u("is_generic_dict")(L))))
            isDC = c is E.m.dictconfig.DictConfig
            E.assume(Implies(ann, isd == z3.BoolVal(isDC)))
        try:
            d = E.run_fn(gs, [v])
        except PyRaise:
            rep.exits[1] += 1
            E.prove("__getstate__ does not raise", FALSE)
            return
        b = E.dict_body(ref_of(E.term(d)))
        g = [("the state is a new dict", And(is_tag(E.term(d), "vref"), new(old, ref_of(E.term(d))))), ("without the flags cache", Not(b.has(vstr("_flags_cache"))))]
        for f in fs:
            g.append(("the state has " + f, b.has(vstr(f))))
            if f != "_metadata" or not cont:
                g.append(("the state has the same " + f, E.term(b.get(vstr(f))) == f0[f]))
        md = ref_of(E.term(b.get(vstr("_metadata"))))
        if cont:
            g.append(("the state has its own metadata", new(old, md)))
        g += [("the state has the same %s" % f, E.getf(md, f) == v0[f]) for f in mf if f != "ref_type" or not cont]
        E.prove_all(g + E.frame_goals(old, {}, "the original is untouched"))
        t = vref(E.alloc(c))
        try:
            E.run_fn(ss, [t, d])
        except PyRaise:
            rep.exits[1] += 1
            E.prove("__setstate__ does not raise", FALSE)
            return
        rep.exits[0] += 1
        n = ref_of(t)
        mn = E.meta(n)
        g = [("restores " + f, E.getf(n, f) == f0[f]) for f in fs if f != "_metadata" or not cont]
        g.append(("no flags cache", E.getf(n, "_flags_cache") == NONE))
        for f in mf:
            v1 = E.getf(mn, f)
            if f == "ref_type" and cont:
                args = ([v0["key_type"]] if isDC else []) + [v0["element_type"]]
                sub = E.basefn("SUBSCRIPT_%s_%d" % ("Dict" if isDC else "List", len(args)), *([Val] * (len(args) + 1)))(*args)
                g.append(("restores ref_type", Implies(And(*[a != NONE for a in args]), If(ann, v1 == sub, v1 == v0[f]))))
            elif f in ("key_type", "element_type"):
                g.append(("restores " + f, Implies(v0[f] != NONE, v1 == v0[f])))
            else:
                g.append(("restores " + f, v1 == v0[f]))
        E.prove_all(g + E.frame_goals(old, {}, "the original is untouched"))
    return body


def units(E):
    m = E.m
    DC, LC, UN = m.dictconfig.DictConfig, m.listconfig.ListConfig, m.base.UnionNode
    out = []
    for c in E.value_classes + [UN, DC, LC]:
        if c is m.nodes.InterpolationResultNode:
            continue
        out.append(("%s.__deepcopy__" % c.__name__, deepcopy_unit(E, c)))
    for c in (DC, LC):
        out.append(("%s.copy" % c.__name__, delegate_unit(E, c, "copy")))
    for c in (DC, LC, UN):
        out.append(("%s.__copy__" % c.__name__, delegate_unit(E, c, "__copy__")))
    for c in E.value_classes + [UN, DC, LC]:
        out.append(("%s.__getstate__, __setstate__" % c.__name__, pickle_unit(E, c)))
    return out
