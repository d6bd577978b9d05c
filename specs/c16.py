"""C16: selecting by a path returns what its components lead to, one by one, and the default where one is absent: for every config and path"""
from . import access, sel


def units(E):
    return [(n, b) for n, b in access.units(E) if "_select_" in n] + sel.units(E)
