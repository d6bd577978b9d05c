"""C07: the config is always a well-formed tree: on every exit of every mutating operation, at an arbitrary pre-existing container, index and key"""
from .mut import *


def goal(E, old, s, A, how, exc):
    o, i, k = E.fsk
    gs = wf_at(E, o, i, k, named=True)
    if E.cur_contract is not None:
        gs += contract_goals(E, E.cur_contract, old, A, how, exc)
    E.prove_all(gs)


SKIP = ("DictConfig._set_value_impl", "ListConfig._set_value_impl")  # their contract is assumed by callers (see DESIGN.md)


def units(E):
    return [("ListConfig._update_keys", update_keys_unit(E))] + [(n, mut_unit(E, fn, c, over, goal, wf=True)) for n, (fn, c, over) in mutators(E).items() if n not in SKIP]
