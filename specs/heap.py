"""representation facts of the config heap (typing of node fields) and ghost flag state"""
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.oc import Contract

OWNM = z3.Function("OWNER_META", I, I)   # metadata objects are not shared
OWNC = z3.Function("OWNER_CONTENT", I, I)  # content dicts and lists are not shared
OWNF = z3.Function("OWNER_FLAGS", I, I)
ROLE = z3.Function("ROLE", I, I)  # 1 content dict, 2 content list, 3 flags dict, 4 flags cache, 5 resolver cache


def install(E):
    """facts on reads of the initial (and havocked) heap; each is a clause of the representation invariant of nodes"""
    if getattr(E, "_heap_types", False):
        return
    E._heap_types = True
    m = E.m
    DC, LC, UN = E.cid(m.dictconfig.DictConfig), E.cid(m.listconfig.ListConfig), E.cid(m.base.UnionNode)
    h = E.base_read_hooks
    node_ids = [E.cid(c) for c in E.node_classes]

    def isnode(E, v, classes=None):
        c = E.cls_term(ref_of(v))
        return And(is_tag(v, "vref"), Or(*[c == E.cid(k) for k in (classes or E.node_classes)]))
    E.isnode = lambda v, classes=None: isnode(E, v, classes)

    def on_meta(E, a, v):
        r = a[0]
        c = E.cls_term(r)
        mr = ref_of(v)
        E.keep.append(mr)
        E.kinds.setdefault(mr.get_id(), "meta")
        E.fact(is_tag(v, "vref"))
        E.fact(OWNM(mr) == r)
        E.part_of_new(r, mr)
        mc = E.cls_term(mr)
        E.fact(If(Or(c == DC, c == LC), mc == E.cid(m.base.ContainerMetadata),
                  Or(mc == E.cid(m.base.Metadata), mc == E.cid(m.base.ContainerMetadata))))
        E.fact(E.basefn("KIND", I, I)(mr) == 2)

    def on_parent(E, a, v):
        E.fact(Or(is_tag(v, "vnone"), And(isnode(E, v, E.box_classes), ref_of(v) != a[0])))

    def on_content(E, a, v):
        r = a[0]
        c = E.cls_term(r)
        cr = ref_of(v)
        E.part_of_new(r, cr)
        E.fact(Implies(c == DC, Or(is_tag(v, "vnone"), is_tag(v, "vstr"),
                                   And(is_tag(v, "vref"), E.cls_term(cr) == E.cid(dict), OWNC(cr) == r, ROLE(cr) == 1))))
        E.fact(Implies(c == LC, Or(is_tag(v, "vnone"), is_tag(v, "vstr"),
                                   And(is_tag(v, "vref"), E.cls_term(cr) == E.cid(list), OWNC(cr) == r, ROLE(cr) == 2))))
        E.fact(Implies(c == UN, Or(is_tag(v, "vnone"), is_tag(v, "vstr"), And(isnode(E, v, E.value_classes), OWNC(cr) == r))))

    def on_val(E, a, v):
        E.fact(Not(isnode(E, v)))
        E.fact(Implies(is_tag(v, "vref"), And(ROLE(ref_of(v)) == 0, E.basefn("KIND", I, I)(ref_of(v)) == 5)))

    def on_dictval(E, a, v):
        d, k, h = a
        E.part_of_new(d, ref_of(v))
        role = ROLE(d)
        E.fact(Implies(And(role == 1, h), isnode(E, v)))
        if d.eq(E.G_resolvers):
            E.fact(Or(is_tag(v, "vcst"), And(is_tag(v, "vref"), Not(isnode(E, v)))))
        E.fact(Implies(role == 3, Or(is_tag(v, "vnone"), is_tag(v, "vbool"))))
        E.fact(Implies(role == 4, Or(is_tag(v, "vnone"), is_tag(v, "vbool"))))

    def on_listelt(E, a, v):
        l, i = a
        E.part_of_new(l, ref_of(v))
        E.fact(Implies(ROLE(l) == 2, isnode(E, v)))

    def on_opt(E, a, v):
        E.fact(is_tag(v, "vbool"))

    def on_flags(E, a, v):
        E.fact(Implies(E.basefn("KIND", I, I)(a[0]) == 2,
               And(is_tag(v, "vref"), E.cls_term(ref_of(v)) == E.cid(dict), OWNF(ref_of(v)) == a[0], ROLE(ref_of(v)) == 3)))

    def on_cache(E, a, v):
        E.fact(Or(is_tag(v, "vnone"), And(is_tag(v, "vref"), E.cls_term(ref_of(v)) == E.cid(dict), ROLE(ref_of(v)) == 4)))

    def on_rcache(E, a, v):
        E.fact(And(is_tag(v, "vref"), ROLE(ref_of(v)) == 5, E.cls_term(ref_of(v)) == E.cid(dict)))

    def on_enum(E, a, v):
        import enum
        E.fact(is_tag(v, "vtyp"))
        E.fact(E.isa_cls(acc(v, "vtyp"), enum.Enum))
        E.fact(And(*[acc(v, "vtyp") != E.cid(k) for k in (bool, int, str, float, bytes, type(None), list, dict)]))
    def on_type(E, a, v):
        # declared types: None, a class, or a typing construct (an opaque constant)
        E.fact(Or(is_tag(v, "vnone"), is_tag(v, "vtyp"), is_tag(v, "vcst")))
    for n in ("ref_type", "object_type", "key_type", "element_type"):
        h.setdefault(n, []).append(on_type)
    h.setdefault("enum_type", []).append(on_enum)
    h.setdefault("_metadata", []).append(on_meta)
    h.setdefault("_parent", []).append(on_parent)
    h.setdefault("_content", []).append(on_content)
    h.setdefault("_val", []).append(on_val)
    h.setdefault("DICTVAL", []).append(on_dictval)
    h.setdefault("LISTELT", []).append(on_listelt)
    h.setdefault("optional", []).append(on_opt)
    h.setdefault("flags_root", []).append(on_opt)
    h.setdefault("flags", []).append(on_flags)
    h.setdefault("_flags_cache", []).append(on_cache)
    h.setdefault("resolver_cache", []).append(on_rcache)

    # the tree invariant (C07) of the initial heap: a child's parent and key are the place where it is held
    def wf(E, owner, c, v, key, cond, norm):
        n = ref_of(v)
        F = lambda f, r: E.base_map(f).read(E, r)
        mr = ref_of(F("_metadata", n))
        E.fact(Implies(And(cond, F("_content", owner) == vref(c)), And(F("_parent", n) == vref(owner), norm(F("key", mr)) == key)))

    def on_listelt0(E, a, v):
        l, i, n = a
        if E.wf_pre:
            wf(E, OWNC(l), l, v, Val.vint(i), And(l < E.A0, ROLE(l) == 2, i >= 0, i < n), E.nkey)

    def on_dictval0(E, a, v):
        d, k, h = a
        if E.wf_pre:
            wf(E, OWNC(d), d, v, k, And(d < E.A0, ROLE(d) == 1, h), E.nkey)
    h.setdefault("LISTELT0", []).append(on_listelt0)
    h.setdefault("DICTVAL0", []).append(on_dictval0)
    b = E.m
    E.box_classes = [b.dictconfig.DictConfig, b.listconfig.ListConfig, b.base.UnionNode]
    E.container_classes = E.box_classes[:2]


def frame_begin(E):
    """fix the address, index and key at which the frame is observed (before any loop)"""
    sk = E.skref("frame_r")
    i = E.fresh("frame_i", I)
    k = E.fresh("frame_k", Val)
    E.fact(E.is_nkey(k))
    E.fsk = (sk, i, k)


def node_at(E, name, cls):
    """symbolic pre-existing node of exactly this class, with its metadata"""
    v = E.obj(name, cls)
    r = ref_of(v)
    mv = E.getf(r, "_metadata")
    return v, r, ref_of(mv)


FLAGFIELDS = ("_parent", "flags", "flags_root", "_metadata")


def install_flags(E):
    """ghost fv: the effective flags of all nodes are a function of it; every write that could change one bumps it"""
    if getattr(E, "_flag_ghost", False):
        return
    E._flag_ghost = True
    E.fvpre = {}
    E.fvtaint = set()

    def on_write(r, name, v):
        if name not in FLAGFIELDS and name != "DICT":
            return
        new = z3.is_int_value(r) and r.as_long() < 0
        if name == "DICT":
            if new and not E.flagdicts_new:
                return
            if not new and E.must(ROLE(r) != 3):
                return
        old = E.st.g["fv"]
        if name == "_metadata" and new:
            return
        if r.get_id() in E.newrefs:
            new = True
        fv = E.fresh("fv", I)
        E.wrote("g:fv")
        E.st.g["fv"] = fv
        E.keep.append(fv)
        tainted = old.get_id() in E.fvtaint or (not new and name == "_parent")
        if tainted:
            E.fvtaint.add(fv.get_id())
        elif new:
            E.fvpre[fv.get_id()] = old
    E.flagdicts_new = True
    pass
    E.on_write = on_write


def preexisting(E, r):
    return E.is_old(r)
