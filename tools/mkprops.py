#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the single source of the property texts)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(zip(("name","where"), m)) for m in mech],
                     observe_at=list(observe), hook_needed=hook)))

B="omegaconf/base.py"; BC="omegaconf/basecontainer.py"; D="omegaconf/dictconfig.py"; L="omegaconf/listconfig.py"
N="omegaconf/nodes.py"; U="omegaconf/_utils.py"; O="omegaconf/omegaconf.py"; IM="omegaconf/_impl.py"
G="omegaconf/grammar_visitor.py"; GP="omegaconf/grammar_parser.py"; RO="omegaconf/resolvers/oc/__init__.py"

p("C01","A read-only config never changes through a mutating operation",
"While a config node is effectively read-only (its own flag, or the nearest ancestor that sets the flag, says so), every mutating operation of the public API on it - item or attribute assignment, deletion, append, insert, extend, remove, pop, popitem, clear, sort, setdefault, update by path, in-place merge, in-place resolution, or assignment to one of its value nodes - leaves every value, key, order, type and metadata of the config exactly as it was. The operation either raises a read-only error (or another config error for an operation that is invalid anyway) or is a no-op. Clearing or resetting the flag, overriding it inside a scoped override, or merging in a source that itself carries the flag explicitly are the only ways to make the config writable again.",
["inputs","histories"],"every config tree, every placement of the read-only flag on it, every mutating operation and argument",
"tests try some mutators on small configs; the guard is repeated by hand in every mutator and in code reached through merges, so an unguarded combination of mutator, argument kind (empty, missing, None, interpolation) and flag placement is never sampled",
[D,L,N,BC,IM,O],[("per-mutator read-only guards","DictConfig/ListConfig mutators, ValueNode._set_value"),("write validation","DictConfig._validate_set, ListConfig._validate_set, BaseContainer._set_item_impl"),("effective flag","Node._get_flag"),("merge guards","BaseContainer.merge_with/_map_merge/_list_merge")],
[("flags","flag values set on a node itself","Metadata.flags")],["OmegaConf.to_container and the node graph before/after"])

p("C02","Struct mode: no key appears in a struct config and unknown keys raise",
"While a mapping is in struct mode (set on it, inherited, or because it is a structured config on which the flag is not cleared), no operation of the public API other than an explicit override (or merging in an instance of a subclass of its structured type) adds a key to it: item or attribute assignment, setdefault, update by path without force, and merging an unknown key raise a key or attribute error and the set of keys is unchanged; reading an unknown key by item or attribute access raises rather than returning a value. Deleting by item, pop and popitem raise as well. Assigning and merging values for existing keys keep working.",
["inputs","histories"],"every mapping tree, flag placement, key and operation",
"tests sample a few keys and one level of nesting; whether a key can slip in depends on flag inheritance, typed vs untyped mappings and the path (assignment, merge, update) taken",
[D,BC,O,B],[("access validation","DictConfig._validate_get, _validate_set, __setitem__, __getattr__, __delitem__, pop"),("merge key check","BaseContainer._map_merge"),("open_dict / force_add","omegaconf.open_dict, OmegaConf.update")],
[],["key set of the mapping"])

p("C03","Typed value nodes only ever hold a value of their declared type",
"After any sequence of assignments a typed value node holds None (only if it is optional), the missing marker, an interpolation, or a value of exactly its declared kind: assigning v either stores the documented conversion of v (integer, float, boolean, string, bytes, path and enum conversions) or raises a validation error and keeps the previous value. No other error type escapes from validation and no bool is ever taken for an integer or float except by the documented conversions. Re-assigning the stored value leaves it unchanged.",
["inputs","histories"],"every scalar node type, optional or not, every Python value assigned, every assignment sequence",
"each test assigns a handful of literals per node type; conversions are case analyses over an unbounded value domain (numeric strings, huge ints, bools, enum names and values, other nodes)",
[N],[("assignment","ValueNode._set_value, validate_and_convert"),("conversions","StringNode, IntegerNode, FloatNode, BooleanNode, BytesNode, PathNode, EnumNode _validate_and_convert_impl / validate_and_convert_to_enum")],
[("value","stored scalar","ValueNode._val")],["value read back"])

p("C04","Typed containers and structured configs enforce key, element and optional types",
"In a container with declared key or element types (typed list, typed mapping, or structured config field), after every accepted assignment, append, insert or merge each key is of the declared key type and each element is a value of the declared element type, or None when that element is optional, or the missing marker or an interpolation. Anything else is rejected with a validation or key error. Accepting a value never changes the declared types of the container or of its siblings.",
["inputs","histories"],"every declared type, every value and operation",
"types are carried in per-node metadata through assignment, wrapping and merging; the tests pin particular type/value pairs, not the closure under operations",
[BC,D,L,N,O,U],[("wrapping","omegaconf._node_wrap, _maybe_wrap, BaseContainer._wrap_value_and_set"),("key normalisation","DictConfig._validate_and_normalize_key, _s_validate_and_normalize_key"),("type validation","DictConfig._validate_set*, ListConfig._validate_set, _is_optional")],
[],["values, keys and declared types"])

p("C05","A failed single operation leaves the config unchanged",
"When a single item or attribute assignment, append, insert, delete, pop, remove, setdefault, value-node assignment or flag operation raises an error, the whole config (values, keys, order, element positions, declared types and parents) is exactly what it was before the call. In particular a failed assignment of a container to an existing key, and a failed insert or append to a typed list, do not leave partial or placeholder contents behind.",
["inputs","histories","fault_sequences"],"every config, operation and argument for which the operation fails",
"tests check that the error is raised, rarely that everything else is intact; failures in the middle (validation of the third element, type mismatch after a list was extended) are the ones that leave garbage",
[D,L,N,BC],[("rollback","DictConfig._set_value, ListConfig._set_value, ListConfig.append"),("validate-before-write","BaseContainer._set_item_impl, ListConfig.insert, pop, __delitem__")],
[],["deep snapshot before/after"])

p("C06","Flags: nearest setting wins, caching is invisible, scoped overrides restore",
"The effective value of a flag on a node is the value set on the node itself if any, otherwise that of its nearest ancestor that sets it (not looking beyond a node marked as flags root), otherwise unset - after every history of setting, clearing, re-parenting and reading flags, so the internal cache is never observable. A scoped override (flag override, read-write, open-dict) sets the flag only for its duration and restores the previous own settings of every node involved however the block ends, including by an exception.",
["histories","inputs"],"every tree, every interleaving of flag writes, reads, re-parenting and scoped overrides, normal and exceptional exits",
"cache coherence is a whole-history property; tests read flags after one write, and scoped overrides mostly leave normally",
[B,O],[("lookup and cache","Node._get_flag, _get_flag_no_cache, Box/Container._invalidate_flags_cache"),("writes","Node._set_flag, _set_flags_root, _set_parent"),("scopes","omegaconf.flag_override, read_write, open_dict")],
[("cache","memoised effective flags","Node._flags_cache"),("flags","own settings","Metadata.flags")],["OmegaConf.is_readonly/is_struct and behaviour"])

p("C07","The config is always a well-formed tree",
"After any sequence of successful or failed public operations every child of a container has that container as its parent and has as its key the name or index under which the container holds it, list keys are consecutive from zero, no node object occurs at two places, and the root has no parent beyond it. Hence the full dotted key reported for a node, selected from the root, yields that same node, and relative interpolations are resolved from the place the node really is at.",
["histories","inputs"],"every sequence of operations on every config",
"parent and key links are maintained by hand in every mutator; the tests look at values, not links, and a stale link only matters operations later",
[B,BC,D,L,O],[("linking","Node._set_parent, _set_key, Box._re_parent, ListConfig._update_keys"),("copy on assignment","BaseContainer._set_item_impl / _wrap_value_and_set, omegaconf._node_wrap"),("full key","BaseContainer._get_full_key")],
[("parent","containing node","Node._parent"),("key","key in parent","Metadata.key")],["parent/key links, full keys"])

p("C08","Copies and pickles are equal to and isolated from the original",
"A shallow or deep copy, an unpickled pickle and a structural copy of a config equal the original, keep its declared types, flags and missing or interpolated values, and share no mutable config node with it: no later operation on one is visible in the other. Copying leaves the original, its parent links and its flags unchanged.",
["inputs","histories"],"every config (nested, typed, with flags and interpolations), every later mutation of either side",
"tests mutate one key of one side; sharing of metadata, flag dictionaries or nested nodes shows only for particular fields and nesting",
[B,BC,D,L,N],[("deep copy","DictConfig.__deepcopy__, ListConfig.__deepcopy__, nodes __deepcopy__, _deepcopy_impl"),("pickling","BaseContainer.__getstate__/__setstate__, Node.__getstate__/__setstate__")],
[],["graph of both sides"])

p("C09","Merge: later configs win, inputs are untouched, types are kept",
"The result of a merge has every key of every input, with the value of the last input that gives it a non-missing value, merging recursively where both sides are mappings and combining lists by the selected list mode (replace, extend, or extend without duplicates). None of the inputs is modified and the result shares no node with them. A missing value in a later input never overwrites an existing value, and declared types and optionality of the target survive or the merge raises.",
["inputs"],"every list of configs and list merge mode",
"the merge function is one long case analysis over pairs of node kinds (missing, none, interpolation, typed, list, mapping); tests enumerate some pairs at depth one",
[BC,O],[("merge","BaseContainer._map_merge, _list_merge, _merge_with; OmegaConf.merge, unsafe_merge"),("type hints","BaseContainer._deep_update_type_hint*")],
[],["merged container, inputs before/after"])

p("C10","Interpolations resolve to the referenced value, at the right level, or raise",
"Accessing an interpolation yields the value its absolute or relative path denotes in the current tree (n leading dots going n-1 containers up), converted to the declared type of the node; it is re-evaluated on every access, so later changes of the target are seen. A cycle, an unknown key, a reference above the root or a missing target raises an interpolation error instead of looping, crashing or returning a wrong value. Resolving never modifies the config.",
["inputs","histories","programs"],"every config graph and every interpolation expression, including cycles",
"interpolation graphs are unbounded; tests use chains of one or two references at fixed depth",
[B,G,GP,N],[("resolution","Container._evaluate_custom_resolver, _resolve_interpolation_from_parse_tree, _resolve_node_interpolation, _resolve_key_and_root, _select_impl"),("cycle detection","memo set in resolve_parse_tree / _resolve_node_interpolation"),("typed result","Container._validate_and_convert_interpolation_result, _validate_not_dereferencing_to_parent")],
[],["value of the access or error class"])

p("C11","Export to plain containers is exact",
"Exporting a config to plain Python containers yields exactly its keys, in order, with exactly its values at every level, contains no config node (except where the option to keep structured configs as configs asks for it), and is detached from the config. With the respective option interpolations are resolved, missing values raise, enums become their names, and structured configs become dictionaries, mappings or instances carrying the same field values. Exporting does not modify the config.",
["inputs"],"every config and option combination",
"the options multiply with the node kinds at every nesting level; tests cover selected combinations",
[BC,O,D,L],[("export","BaseContainer._to_content, OmegaConf.to_container, OmegaConf.to_object, DictConfig._to_object")],[],["result of export"])

p("C12","YAML dump and load are inverse on plain data",
"Loading the YAML dump of any config gives back an equal config: every string comes back as the same string (whatever number, boolean, null, date, interpolation or markup it looks like), every number, boolean, None and missing marker as itself, and every key of a supported type as itself. Scalars that the loader would read as a number or boolean are always quoted by the dumper.",
["inputs"],"every string, number and nesting",
"the loader's number pattern and the dumper's quoting decision are separate pieces of code that must agree on every string",
[U,O,BC],[("loader patterns","_utils.get_yaml_loader / OmegaConfLoader"),("dumper quoting","_utils.OmegaConfDumper.str_representer, yaml_is_bool, is_float, is_int")],[],["OmegaConf.create(OmegaConf.to_yaml(cfg))"])

p("C13","Missing values and defaults behave uniformly",
"A value is missing exactly when it is the literal missing marker, or an interpolation that leads to one; reading a missing value raises a missing-value error, get with a default and selection with a default return the default, membership and iteration treat the key as the container documents, and asking whether an existing key holds the missing marker never raises and never changes anything. None and false-like values are never mistaken for missing, and a default is used only when the key is absent or the value missing.",
["inputs"],"every config, key, default and access path",
"each accessor implements the rule separately; tests cover accessor/value pairs one by one",
[BC,D,L,O,IM,B],[("missing rule","_utils._is_missing_value/_is_missing_literal, Node._is_missing"),("defaults","BaseContainer._resolve_with_default, DictConfig.get, ListConfig.get, _impl.select_value"),("queries","OmegaConf.is_missing, DictConfig.__contains__")],[],["result of each accessor"])

p("C14","The resolver registry and resolver caches behave like maps",
"Registering a resolver under a new valid name makes exactly that name available and leaves all others unchanged; registering an existing name without replace, or an invalid name or non-callable, raises and changes nothing; clearing one resolver removes exactly that one, and clearing all restores exactly the built-ins. A resolver registered with caching is called once per config and distinct tuple of argument texts and its cached result is returned until the cache is cleared; without caching it is called on every access with the arguments as parsed and with the requested context arguments.",
["histories","inputs"],"every sequence of register, replace, clear, clear-cache and resolve",
"whole histories over a global registry and per-config caches; tests run fixed two-step sequences",
[O,B,RO],[("registry","OmegaConf.register_new_resolver, clear_resolver, clear_resolvers, has_resolver, BaseContainer._resolvers"),("cache","resolver_wrapper, OmegaConf.get_cache/set_cache/clear_cache/copy_cache")],
[("registry","name to resolver","BaseContainer._resolvers"),("cache","per-root results","Metadata.resolver_cache")],["has_resolver, calls made, values"])

p("C15","A list config behaves like a Python list",
"For every operation a list config shares with Python lists - length, iteration, membership, indexing and slicing with any integers, item assignment and deletion, append, insert at any index, extend, pop, remove, index, count, sort, clear, concatenation, equality - contents, result and order are those of the Python list with the same plain elements, or the same kind of error is raised. After each of them element keys equal element positions.",
["histories","inputs"],"every list, index, slice and sequence of operations",
"negative and out-of-range indices, steps and combinations are unbounded; tests use a few small ones",
[L],[("list operations","ListConfig.__getitem__, __setitem__, __delitem__, insert, append, pop, remove, index, count, sort, extend, __add__, __iadd__, _update_keys")],
[],["contents and element keys"])

p("C16","Paths are consistent: update then select, select agrees with item access",
"Splitting a dotted/bracketed path gives its components and rejoining gives an equivalent path; selecting by a path returns exactly what the chain of item accesses by its components (list indices written as non-negative integers) returns, and the default or None when a component is absent. After updating by a path, selecting the same path returns the value set, and nothing outside that path changed except parent containers that had to be created. Key=value lists and dotted lists set exactly the keys they name.",
["inputs"],"every config, path and value",
"path syntax is a language; tests list examples",
[U,O,B,BC],[("splitting","_utils.split_key"),("selection","Container._select_impl, _impl.select_value, omegaconf._select_one"),("update","OmegaConf.update, BaseContainer.merge_with_dotlist")],[],["OmegaConf.select / OmegaConf.update"])

p("C17","Interpolation grammar: literals are typed right and escapes are exact",
"A plain value without unescaped interpolation syntax is returned unchanged as a string; inside resolver arguments and elements each token is typed exactly as documented (null, booleans case-insensitively, integers and floats with underscores, otherwise string) and quoted strings and escaped characters are unescaped exactly once (whitespace around unquoted elements is dropped). Concatenated text and interpolations give the concatenation of their string forms in order; a node consisting of one interpolation keeps the type of its value. Malformed expressions raise a grammar error and nothing else.",
["inputs","programs"],"every expression of the grammar and every string",
"the language is infinite and the unescaping rules interact; tests are an example table",
[G,GP,"omegaconf/grammar/OmegaConfGrammarLexer.g4","omegaconf/grammar/OmegaConfGrammarParser.g4"],[("typing and unescaping","GrammarVisitor._createPrimitive, _unescape, visitText, visitQuotedValue..."),("fast path","grammar_parser.SIMPLE_INTERPOLATION_PATTERN, parse")],[],["value of resolver arguments"])

p("C18","Equality compares content",
"Two configs are equal exactly when they have the same keys (in any order for mappings, in order for lists) with equal values after interpolation, and a config is equal to a plain container exactly when it is equal to the config made from it; equality is reflexive and symmetric, agrees with inequality, and ignores flags, parents and declared types (contents holding NaN or a container that refers to itself excepted). Comparing never modifies either side and never raises on broken interpolations or missing values.",
["inputs"],"every pair of configs and plain containers",
"a relation over pairs; tests list pairs",
[BC,D,L,N],[("equality","DictConfig._dict_conf_eq, ListConfig._list_eq, BaseContainer._item_eq, __eq__/__ne__ of nodes")],[],["== and !="])

p("C19","A mapping config behaves like an insertion-ordered Python dict",
"For every operation a mapping config shares with Python dicts - length, iteration order, membership, item, attribute and get access, item assignment and deletion, pop with and without default, popitem, setdefault, update, keys, values, items, clear, copy - contents, results and order are those of the dict with the same plain contents, or a key error (attribute error for attribute access) is raised where the dict raises one; popitem removes and returns some item. Item access, attribute access and get agree with each other for every string key.",
["histories","inputs"],"every mapping, key and sequence of operations",
"tests exercise methods one at a time on one or two keys",
[D,BC],[("mapping operations","DictConfig.__getitem__, __getattr__, get, __setitem__, __delitem__, pop, setdefault, keys, items, items_ex, BaseContainer.__len__, _get_child, _set_item_impl")],[],["contents and results"])

p("C20","Resolving in place agrees with lazy resolution",
"Resolving a config in place replaces every interpolation that can be resolved by the plain value (a tuple counts as a list) it had when read lazily before the call, leaves every other value, key, order, flag and declared type as it was, keeps missing values missing, and afterwards no interpolation remains. Resolving an already resolved config changes nothing.",
["inputs","histories"],"every config with resolvable interpolations, including references to containers and through lists",
"tests resolve a few small graphs; the traversal order and the replacement of container-valued interpolations matter only in nested or chained graphs",
[IM,O],[("in-place resolution","_impl._resolve, _resolve_container_value, OmegaConf.resolve")],[],["to_container(resolve=True) before, to_container(resolve=False) after"])

p("C21","Concurrent use of the shared parser and registry is safe",
"When several threads access interpolations of different configs at the same time, each access returns what it would return alone: no access observes parser state, memoised trees or registry entries half-updated by another thread.",
["schedules"],"every interleaving of accesses from several threads",
"schedules are not controlled by the tests",
[GP,O],[("per-thread parser cache","grammar_parser._grammar_cache, parse"),("registry","BaseContainer._resolvers")],[],["values read by each thread"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
