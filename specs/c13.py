"""C13: what is missing, and where a default is used: for every mapping, list, key and value"""
from . import access, get, sel


def units(E):
    names = ["DictConfig." + x for x in ("_get_impl", "__getitem__", "__getattr__", "get", "__contains__")] + ["ListConfig.__getitem__", "ListConfig.get"]
    res = [(n, b) for n, b in get.units(E) if n.startswith("BaseContainer._resolve_with_default")]
    return sel.missing_units(E) + [(n, b) for n, b in sel.units(E) if not n.startswith("select_node")] + res + [(n, b) for n, b in access.units(E) if n in names]
