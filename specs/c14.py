"""C14: the resolver registry behaves like a map, and resolvers are called, or their cached results used, as stated: for every registry, name,
resolver and config"""
import z3

from pyvc.core import *
from pyvc.interp import Fn, K, StarV, Tup
from . import heap
from .common import *
from .contracts import *
from .get import rawfn
from .pure import sym_args

NAMES = ("oc.create", "oc.decode", "oc.deprecated", "oc.env", "oc.select", "oc.dict.keys", "oc.dict.values")


def reg(E):
    return ref_of(E.st.g["resolvers"])


def start(E):
    install_reads(E)
    install_makers(E)
    heap.frame_begin(E)
    E.st.g["resolvers"] = Val.vref(E.G_resolvers)
    E.st.g["ncalls"] = z3.IntVal(0)
    E.st.g["res"] = NONE
    E.fact(E.cls_term(E.G_resolvers) == E.cid(dict))
    E.assumptions.add("what is in the registry is not None (register_new_resolver and legacy_register_resolver store functions only)")
    b = E.dict_body(E.G_resolvers)
    return b


def notnone(E, b, k):
    E.fact(Implies(b.has(k), Not(is_tag(E.term(b.get(k)), "vnone"))))


def special(E, f, n):
    return E.basefn("SIG_HAS", Val, Val, B)(f, vstr(n))


def unchanged(E, old, b0, k):
    b = E.dict_body(reg(E))
    return [("the same registry", E.st.g["resolvers"] == old.g["resolvers"]), ("the same names", b.has(k) == b0.has(k)), ("the same resolvers", Implies(b.has(k), E.term(b.get(k)) == E.term(b0.get(k))))] + \
        E.frame_goals(old, {}, "nothing changes")


def unit(E, fn, goal):
    f = rawfn(fn)
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    over = {"cls": lambda E: K(E.m.oc.OmegaConf), "resolver": lambda E: E.any("resolver")}

    def body(rep):
        b0 = start(E)
        args, A = sym_args(E, f, None, over)
        k = E.fsk[2]
        if "name" in A:
            notnone(E, b0, E.nkey(A["name"]))
        notnone(E, b0, k)
        old = E.st.copy()
        try:
            res = E.run_fn(f, args)
        except PyRaise as p:
            rep.exits[1] += 1
            goal(E, old, b0, A, k, "raise", p.ref)
            return
        rep.exits[0] += 1
        goal(E, old, b0, A, k, "return", res)
    return body


def callable_(E, f):
    return E.basefn("CALLABLE", Val, B)(f)


def register_goal(E, old, b0, A, k, how, res):
    f, n = E.term(A["resolver"]), E.nkey(A["name"])
    cached = acc(E.term(A["use_cache"]), "vbool")
    repl = acc(E.term(A["replace"]), "vbool")
    sp = And(E.basefn("SIG_OK", Val, B)(f), Or(*[special(E, f, x) for x in ("_parent_", "_node_", "_root_")]))
    bad = Or(Not(callable_(E, f)), n == vstr(""), And(b0.has(n), Not(repl)), And(cached, sp))
    if how == "raise":
        E.prove_all([("raises only for an invalid name, an existing one, no callable, or a special argument with a cache", bad)] + unchanged(E, old, b0, k))
        return
    b = E.dict_body(reg(E))
    E.prove_all([("a valid new name, or replaced, and a callable", Not(bad)), ("the name is available and no other", b.has(k) == Or(b0.has(k), k == n)),
                 ("the other resolvers stay", Implies(And(b0.has(k), k != n), E.term(b.get(k)) == E.term(b0.get(k)))), ("the same registry", E.st.g["resolvers"] == old.g["resolvers"])] +
                E.frame_goals(old, {"DICT": lambda r: r == E.G_resolvers}, "nothing else changes"))


def legacy_goal(E, old, b0, A, k, how, res):
    f, n = E.term(A["resolver"]), E.nkey(A["name"])
    bad = Or(Not(callable_(E, f)), b0.has(n))
    if how == "raise":
        E.prove_all([("raises only for an existing name or no callable", bad)] + unchanged(E, old, b0, k))
        return
    b = E.dict_body(reg(E))
    E.prove_all([("a new name and a callable", Not(bad)), ("the name is available and no other", b.has(k) == Or(b0.has(k), k == n)),
                 ("the other resolvers stay", Implies(And(b0.has(k), k != n), E.term(b.get(k)) == E.term(b0.get(k))))] +
                E.frame_goals(old, {"DICT": lambda r: r == E.G_resolvers}, "nothing else changes"))


def has_goal(E, old, b0, A, k, how, res):
    if how == "raise":
        E.prove("does not raise", FALSE)
        return
    E.prove_all([("whether the name is registered", E.term(res) == Val.vbool(b0.has(E.nkey(A["name"]))))] + unchanged(E, old, b0, k))


def clear_one_goal(E, old, b0, A, k, how, res):
    if how == "raise":
        E.prove("does not raise", FALSE)
        return
    n = E.nkey(A["name"])
    b = E.dict_body(reg(E))
    E.prove_all([("whether it was there", E.term(res) == Val.vbool(b0.has(n))), ("exactly that name is gone", b.has(k) == And(b0.has(k), k != n)),
                 ("the other resolvers stay", Implies(b.has(k), E.term(b.get(k)) == E.term(b0.get(k))))] +
                E.frame_goals(old, {"DICT": lambda r: r == E.G_resolvers}, "nothing else changes"))


def clear_all_goal(E, old, b0, A, k, how, res):
    if how == "raise":
        E.prove("does not raise", FALSE)
        return
    b = E.dict_body(reg(E))
    E.prove_all([("exactly the built-in names", b.has(k) == Or(*[k == vstr(n) for n in NAMES]))] + E.frame_goals(old, {"DICT": lambda r: r == E.G_resolvers}, "nothing else changes"))


def wrapper_unit(E, cached):
    """register a resolver, then call what was stored"""
    OCc = E.m.oc.OmegaConf
    f = rawfn(OCc.register_new_resolver)

    def body(rep):
        b0 = start(E)
        name, resolver = E.str("name"), E.any("resolver")
        n = E.nkey(name)
        notnone(E, b0, n)
        E.assume(callable_(E, resolver))
        E.assume(Or(is_tag(resolver, "vref"), is_tag(resolver, "vcst")))
        conf = E.node("config", E.container_classes)
        parent, node = E.node("parent", E.container_classes), E.node("node")
        args, args_str = E.any("args"), E.any("args_str")
        E.assume(And(is_tag(args_str, "vcst")))
        try:
            E.run_fn(f, [name, resolver], {"replace": vbool(True), "use_cache": vbool(cached)})
        except PyRaise:
            rep.exits[1] += 1
            return
        w = E.norm(E.term(E.dict_body(reg(E)).get(n)))
        if not isinstance(w, Fn):
            raise Unsupported("what was registered")
        k = E.fsk[2]
        mr = E.meta(ref_of(conf))
        cr = ref_of(E.getf(mr, "resolver_cache"))
        c0 = E.dict_body(cr)
        had_name = c0.has(n)
        inner0 = ref_of(E.term(c0.get(n)))
        E.assume(Implies(had_name, And(is_tag(E.term(c0.get(n)), "vref"), E.cls_term(inner0) == E.cid(dict), heap.ROLE(inner0) == 0, inner0 != E.G_resolvers)))
        E.assumptions.add("a resolver cache holds a dict per name, kept in nothing else")
        i0 = E.dict_body(inner0)
        hit = And(had_name, i0.has(E.nkey(args_str)))
        hitv = E.term(i0.get(E.nkey(args_str)))
        old = E.st.copy()

        def on_call(g, a, kw):
            E.prove_all([("the resolver is called", g == resolver), ("once", E.st.g["ncalls"] == 0), ("with the arguments", z3.BoolVal(len(a) == 1 and isinstance(a[0], StarV)) if not (len(a) == 1 and isinstance(a[0], StarV)) else E.term(a[0].v) == args)])
            d = E.dict_body(ref_of(E.term(kw["**"]))) if "**" in kw else None
            sig = E.basefn("SIG_OK", Val, B)(resolver)
            for nm, v in (("_parent_", parent), ("_node_", node), ("_root_", conf)):
                want = And(sig, special(E, resolver, nm))
                E.prove("with %s exactly when it asks for it" % nm, (d.has(vstr(nm)) if d else FALSE) == want)
                if d:
                    E.prove("with the right %s" % nm, Implies(want, E.term(d.get(vstr(nm))) == v))
            E.st.g["ncalls"] = E.st.g["ncalls"] + 1
            r = E.havoc_call()
            E.st.g["res"] = E.term(r)
            return r
        E.on_opaque = on_call
        try:
            res = E.term(E.norm(E.call(w, [conf, parent, node, args, args_str], {})))
        except PyRaise:
            rep.exits[1] += 1
            E.prove_all([("raises only where the resolver does", E.st.g["ncalls"] == 1)])
            return
        finally:
            E.on_opaque = None
        rep.exits[0] += 1
        calls = E.st.g["ncalls"]
        if not cached:
            E.prove_all([("called on every access", calls == 1), ("its result", res == E.st.g["res"])] + E.frame_goals(old, {}, "nothing changes"))
            return
        c1 = E.dict_body(cr)
        inner1 = ref_of(E.term(c1.get(n)))
        i1 = E.dict_body(inner1)
        E.prove_all([("not called for a cached result", Implies(hit, calls == 0)), ("the cached result", Implies(hit, res == hitv)), ("called once otherwise", Implies(Not(hit), calls == 1)),
                     ("its result", Implies(Not(hit), res == E.st.g["res"])), ("the result is cached", And(c1.has(n), i1.has(E.nkey(args_str)), E.term(i1.get(E.nkey(args_str))) == res)),
                     ("other entries stay", Implies(And(had_name, i0.has(k), k != E.nkey(args_str)), And(i1.has(k), E.term(i1.get(k)) == E.term(i0.get(k))))),
                     ("no other entry", Implies(And(i1.has(k), k != E.nkey(args_str)), And(had_name, i0.has(k))))] +
                    E.frame_goals(old, {"DICT": lambda r: Or(r == cr, And(had_name, r == inner0))}, "nothing else changes"))
    return body


def units(E):
    C = E.m.oc.OmegaConf
    return [("OmegaConf.register_new_resolver", unit(E, C.register_new_resolver, register_goal)), ("OmegaConf.legacy_register_resolver", unit(E, C.legacy_register_resolver, legacy_goal)),
            ("OmegaConf.has_resolver", unit(E, C.__dict__["has_resolver"].__func__, has_goal)), ("OmegaConf.clear_resolver", unit(E, C.__dict__["clear_resolver"].__func__, clear_one_goal)),
            ("OmegaConf.clear_resolvers", unit(E, C.clear_resolvers, clear_all_goal)),
            ("resolver_wrapper[no cache]", wrapper_unit(E, False)), ("resolver_wrapper[cache]", wrapper_unit(E, True))]
