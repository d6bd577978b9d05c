"""C10: resolving never modifies the config: every function that resolving an interpolation runs through modifies no existing object
(the memo set it is given and flag caches excepted), and returns a node where its callers rely on one"""
from . import access, get, pure

NAMES = ("Node._get_root", "Node._dereference_node", "Node._maybe_dereference_node", "Node._dereference_node_impl", "Container._maybe_resolve_interpolation",
         "Container._resolve_interpolation_from_parse_tree", "Container._resolve_node_interpolation", "Container._resolve_key_and_root", "Container._select_impl",
         "Container._validate_and_convert_interpolation_result", "Container._validate_not_dereferencing_to_parent", "Container.resolve_parse_tree",
         "Container._evaluate_custom_resolver", "BaseContainer._get_child", "BaseContainer._resolve_with_default", "BaseContainer._get_full_key", "DictConfig._get_node",
         "DictConfig._validate_get", "DictConfig._s_validate_and_normalize_key", "DictConfig.__getitem__", "DictConfig.__getattr__", "DictConfig._get_impl", "DictConfig.get",
         "ListConfig._get_node", "ListConfig._validate_get", "ListConfig.__getitem__", "ListConfig.get", "_select_one")


def units(E):
    out = get.units(E) + [(n, b) for n, b in access.units(E) if n.split("[")[0].split(".")[-1] not in ("__contains__",)]
    have = {n.split("[")[0] for n, b in out}
    return out + [(n, b) for n, b in pure.units(E, get.install_get) if n.split("[")[0] in NAMES and n.split("[")[0] not in have]
