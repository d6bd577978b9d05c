"""units: a reading operation modifies nothing (and its result has the declared kind)"""
import inspect
import z3

from pyvc.core import *
from pyvc.interp import K, Tup
from pyvc.oc import *
from . import heap
from .contracts import *


class Args(list):
    """positional arguments, and those given by keyword only"""
    kw = {}


def sym_args(E, fn, selfcls, over=None):
    """symbolic arguments by parameter name and annotation"""
    over = dict(over or {})
    f = raw(fn)
    if f.__qualname__ == "OmegaConf.get_type":
        over.setdefault("obj", lambda E: E.node("obj", E.container_classes) if E.decide(E.fresh("obj_node", B)) else E.any("obj"))
        over.setdefault("key", lambda E: NONE)
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    args, A = Args(), {}
    args.kw = {}
    for p in inspect.signature(f).parameters.values():
        n, an = p.name, str(p.annotation)
        if n in over:
            v = over[n](E)
        elif n == "self":
            v, r, mr = heap.node_at(E, "self", selfcls)
        elif n == "memo":
            s = E.obj("memo", set)
            E.fact(E.basefn("KIND", I, I)(ref_of(s)) == 5)
            E.fact(ROLE0(ref_of(s)))
            v = NONE if E.decide(E.fresh("memo_none", B)) else s
        elif n in ("dest", "src", "conf", "parent", "c", "c1", "c2", "d1", "d2", "l1", "l2", "cfg") and n != "parent":
            v = E.node(n, E.container_classes)
        elif n == "parent":
            v = NONE if E.decide(E.fresh("parent_none", B)) else E.node(n, E.container_classes)
        elif "bool" in an and "Union" not in an and "Dict" not in an:
            v = E.bool(n)
        elif an in ("<class 'str'>",):
            v = E.str(n)
        elif n in ("node", "target") or an in ("<class 'omegaconf.base.Node'>", "Node"):
            v = E.node(n)
        elif an in ("<class 'int'>",):
            v = E.int(n)
        else:
            v = E.any(n)
        if p.kind is p.KEYWORD_ONLY:
            args.kw[n] = v
        else:
            args.append(v)
        A[n] = v
    return args, A


def ROLE0(r):
    return heap.ROLE(r) == 0


def unit(E, fn, selfcls=None, over=None, skip=(), ret=True, setup=None, more=None):
    f = raw(fn)

    def body(rep):
        install_reads(E, skip=skip)
        install_makers(E, skip)
        if more:
            more(E)
        c = E.contracts.get(f)
        args, A = sym_args(E, fn, selfcls, over)
        heap.frame_begin(E)
        if setup:
            setup(E, A)
        old = E.st.copy()
        mods = {}
        if isinstance(c, Reads):
            mods = E.fmods = c.modifies(E, A)
        try:
            res = E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            for nm, g in E.frame_goals(old, mods, "nothing changes when it raises"):
                E.prove(nm, g)
            E.prove("raises an Exception", E.isa_cls(E.cls_term(p.ref), Exception))
            return
        rep.exits[0] += 1
        for nm, g in E.frame_goals(old, mods, "nothing changes"):
            E.prove(nm, g)
        E.prove("returns", TRUE)
        if ret and isinstance(c, Reads) and not c.trusted_ret:
            if not isinstance(res, Tup):
                res = E.norm(res)
                if not isinstance(res, z3.ExprRef):
                    res = E.term(res)
            for nm, g in c.ensures(E, A, old, res):
                E.prove("returns " + nm, g)
    return body


def units(E, more=None):
    out = []
    m = E.m
    DC, LC, UN = E.m.dictconfig.DictConfig, E.m.listconfig.ListConfig, E.m.base.UnionNode
    for n, (fn, kw) in table(E).items():
        cls = n.split(".")[0]
        if cls == "DictConfig":
            cs = [DC]
        elif cls == "ListConfig":
            cs = [LC]
        elif cls in ("BaseContainer", "Container"):
            cs = [DC, LC]
        elif cls == "Node":
            cs = [DC, LC, m.nodes.AnyNode, m.nodes.IntegerNode, UN]
        else:
            cs = [None]
        if not inspect.signature(raw(fn)).parameters.get("self"):
            cs = [None]
        for c in cs:
            out.append((n if c is None or len(cs) == 1 else "%s[%s]" % (n, c.__name__), unit(E, fn, c, more=more)))
    return out
