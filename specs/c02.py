"""C02: while a mapping is in struct mode no key appears in it and unknown keys raise: for every mapping, key and value"""
from . import access, get, ops
from .mut import contract_goals, mutators
from .ops import *


def pre(E, A, s):
    E.assume(struct(E, s))


def pre_closed(E, A, s):
    E.assume(closed_(E, s))


def no_key(E, old, s):
    b0, b = bodies(E, old, s)
    k = E.fsk[2]
    with E.at(old):
        c0 = E.getf(s, "_content")
    return [("no key appears", Implies(b.has(k), b0.has(k))), ("the same content", E.getf(s, "_content") == c0)]


def key_class(E, exc):
    c = E.cls_term(exc)
    er = E.m.errors
    return Or(E.isa_cls(c, er.ConfigKeyError), E.isa_cls(c, er.ConfigAttributeError), E.isa_cls(c, er.KeyValidationError))


def assign_goal(E, old, s, A, how, res):
    with E.at(old):
        n, ok = norm(E, s, A["key"])
        had = E.dict_body(content_ref(E, s)).has(E.nkey(n))
    if how == "return":
        E.prove_all(no_key(E, old, s) + [("returns only for a key that is there", And(ok, had))])
    else:
        E.prove_all(no_key(E, old, s))


def setdefault_goal(E, old, s, A, how, res):
    p = at_old(E, old, s, A["key"])
    E.prove_all(no_key(E, old, s) + ([("returns only for a key that is there", p["has"])] if how == "return" else []))


def delete_goal(E, old, s, A, how, res):
    if how == "return":
        E.prove("deleting raises", FALSE)
    else:
        E.prove_all(same(E, old, s))


def pop_goal(E, old, s, A, how, res):
    if how == "return":
        E.prove("pop raises", FALSE)
    else:
        E.prove_all(same(E, old, s))


def set_item_goal(E, old, s, A, how, res):
    f = rawfn(E.m.basecontainer.BaseContainer._set_item_impl)
    E.prove_all(no_key(E, old, s) + contract_goals(E, E.all_mut[f], old, A, how, res))


def units(E):
    DC = E.m.dictconfig.DictConfig
    out = [("DictConfig.%s: struct" % n, op_unit(E, getattr(DC, n), DC, g, pre=pre)) for n, g in
           (("__setitem__", assign_goal), ("__setattr__", assign_goal), ("setdefault", setdefault_goal))]
    out += [("DictConfig.%s: struct" % n, op_unit(E, getattr(DC, n), DC, g, pre=pre_closed)) for n, g in
            (("__delitem__", delete_goal), ("pop", pop_goal), ("popitem", pop_goal))]
    for n, (fn, c, over) in mutators(E).items():
        if n.startswith("BaseContainer._set_item_impl[DictConfig"):
            out.append((n + ": struct", op_unit(E, fn, c, set_item_goal, over, pre=pre)))
    names = ("DictConfig._validate_get", "DictConfig._get_node", "DictConfig._is_typed", "DictConfig._get_impl", "DictConfig.__getitem__", "DictConfig.__getattr__", "DictConfig.get")
    return out + [(n, b) for n, b in get.units(E) + access.units(E) if n in names]
