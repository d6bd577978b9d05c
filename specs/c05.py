"""C05: an operation that raises leaves everything as it was"""
from .mut import *


def goal(E, old, s, A, how, exc):
    if how == "raise":
        E.prove_all(E.frame_goals(old, {}, "nothing changes when it raises"))
    E.prove("decided", TRUE)


def units(E):
    return [("ListConfig._update_keys", update_keys_unit(E))] + [(n, mut_unit(E, fn, c, over, goal, wf=True)) for n, (fn, c, over) in mutators(E).items()
            if n not in ("ListConfig.extend", "ListConfig.__iadd__", "DictConfig.clear", "DictConfig._set_value_impl", "ListConfig._set_value_impl", "UnionNode._set_value_impl")]
