"""C15: list operations have the results and effects of those of a list: for every list config, index and value"""
from . import access, lops


def units(E):
    acc = [(n, b) for n, b in access.units(E) if n in ("ListConfig.__getitem__", "ListConfig.get")]
    return lops.units(E) + acc
