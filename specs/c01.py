"""C01: while a node is effectively read-only, no mutating operation changes anything"""
from .mut import *


def pre(E, A, s):
    E.assume(true_flag(E, s, "readonly"))


def goal(E, old, s, A, how, exc):
    for nm, g in E.frame_goals(old, {}, "a read-only node and its tree stay as they are"):
        E.prove(nm, g)
    E.prove("decided", TRUE)


def units(E):
    return [(n, mut_unit(E, fn, c, over, goal, pre)) for n, (fn, c, over) in mutators(E).items()
            if not n.split(".")[1] in ("_wrap_value_and_set[DictConfig]", "_wrap_value_and_set[ListConfig]") and not n.endswith("._set_value_impl") and n not in ("DictConfig._set_value", "ListConfig._set_value")]
