"""C19: mapping operations have the results and effects of those of a dict: for every mapping, key and value"""
from . import access, ops
from .ops import *


def keys_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "raise":
        E.prove("does not raise", FALSE)
        return
    n, f = E.iter_view(res)
    i = E.fsk[1]
    E.prove_all([("as many as keys", n() == b0.n), ("the keys in order", Implies(And(i >= 0, i < b0.n), E.term(f(i)) == b0.keyat(i)))] + same(E, old, s))


def iter_goal(E, old, s, A, how, res):
    b0, b = bodies(E, old, s)
    if how == "raise":
        E.prove("does not raise", FALSE)
        return
    i = E.fsk[1]
    E.prove_all([("as many as keys", And(res.pos(E) == 0, res.body.n == b0.n)), ("the keys in order", Implies(And(i >= 0, i < b0.n), E.term(res.body.get(E, i)) == b0.keyat(i)))] + same(E, old, s))


def units(E):
    DC = E.m.dictconfig.DictConfig
    names = ("_get_impl", "__getitem__", "__getattr__", "get", "__contains__")
    acc = [(n, b) for n, b in access.units(E) if n in ["DictConfig." + x for x in names]]
    return ops.units19(E) + [("DictConfig.keys: effect", op_unit(E, DC.keys, DC, keys_goal)), ("DictConfig.__iter__: effect", op_unit(E, DC.__iter__, DC, iter_goal))] + acc
