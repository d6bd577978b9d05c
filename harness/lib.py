"""shared parts of the concrete harnesses: snapshots, independent oracles, generators"""
import copy
import enum
import pathlib
import random
import signal
import sys
import traceback
import warnings

warnings.simplefilter("ignore")

import omegaconf
from omegaconf import *
from omegaconf import errors as oe
from omegaconf.base import Box, Container, Metadata, Node, UnionNode
from omegaconf.basecontainer import BaseContainer
from omegaconf.nodes import *
from omegaconf.nodes import InterpolationResultNode, ValueNode

import sc


class Violation(AssertionError):
    pass


class Timeout(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# ------------------------------------------------------------- observation
def is_node(x):
    return isinstance(x, Node)


def content(n):
    return n.__dict__["_content"] if isinstance(n, Box) else n.__dict__["_val"]


def children(n):
    """[(key, child node)] of a box, by its raw content"""
    if isinstance(n, DictConfig):
        c = content(n)
        return list(c.items()) if isinstance(c, dict) else []
    if isinstance(n, ListConfig):
        c = content(n)
        return list(enumerate(c)) if isinstance(c, list) else []
    if isinstance(n, UnionNode):
        c = content(n)
        return [(None, c)] if isinstance(c, Node) else []
    return []


def walk(n, path=()):
    """all nodes of the subtree, with raw paths"""
    out = [(path, n)]
    for k, c in children(n):
        if isinstance(c, Node):
            out.extend(walk(c, path + ((k,) if not isinstance(n, UnionNode) else ())))
    return out


def nodes(n):
    return [x for _, x in walk(n)]


def boxes(n, cls=Box):
    return [x for x in nodes(n) if isinstance(x, cls)]


def tv(v):
    """typed value: distinguishes 1, True, 1.0; nan equal to itself"""
    if isinstance(v, float):
        return ("float", repr(v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(tv(x) for x in v))
    if isinstance(v, dict):
        return (type(v).__name__, tuple((tv(k), tv(x)) for k, x in v.items()))
    if isinstance(v, (int, str, bytes, type(None), enum.Enum, pathlib.PurePath)):
        return (type(v).__name__, v)
    if isinstance(v, Node):
        return ("NODE", snap(v))
    return (type(v).__name__, id(v))


def snap(n, types=True, flags=True, key=True, ids=False, optional=True):
    """complete observable state of a subtree as a comparable value"""
    m = n._metadata
    s = [type(n).__name__]
    if ids:
        s.append(id(n))
    if key:
        s.append(tv(m.key))
    if types:
        s.append((repr(m.ref_type), repr(m.object_type), repr(getattr(m, "key_type", None)),
                  repr(getattr(m, "element_type", None))))
    if optional:
        s.append(m.optional)
    if flags:
        s.append((tuple(sorted((m.flags or {}).items())), m.flags_root))
    if isinstance(n, Box):
        c = content(n)
        if isinstance(c, dict):
            s.append(("dict", tuple((tv(k), snap(v, types, flags, key, ids, optional) if isinstance(v, Node) else ("RAW", repr(v)))
                                    for k, v in c.items())))
        elif isinstance(c, list):
            s.append(("list", tuple(snap(v, types, flags, key, ids, optional) if isinstance(v, Node) else ("RAW", repr(v))
                                    for v in c)))
        elif isinstance(c, Node):
            s.append(("node", snap(c, types, flags, key, ids, optional)))
        else:
            s.append(tv(c))
    else:
        s.append(tv(content(n)))
    return tuple(s)


def plain(n):
    """raw plain content (missing and interpolations as strings), read without the library's export"""
    if not isinstance(n, Node):
        return n
    c = content(n)
    if isinstance(c, dict):
        return {k: plain(v) for k, v in c.items()}
    if isinstance(c, list):
        return [plain(v) for v in c]
    if isinstance(c, Node):
        return plain(c)
    return c


def same_plain(a, b):
    return tv(a) == tv(b)


def wellformed(root, top=None, path="root"):
    """C07: raises Violation if the tree under root is not well formed"""
    seen = {}

    def go(n, p):
        check(id(n) not in seen, "node object occurs at two places: %s and %s", p, seen.get(id(n)))
        seen[id(n)] = p
        if isinstance(n, UnionNode):
            c = content(n)
            if isinstance(c, Node):
                check(c.__dict__["_parent"] is n, "wrong parent of union content at %s", p)
                go(c, p + "<u>")
            return
        for k, c in children(n):
            q = "%s[%r]" % (p, k)
            check(isinstance(c, Node), "child at %s is %r, not a node", q, c)
            check(c.__dict__["_parent"] is n, "wrong parent of the child at %s", q)
            ck = c._metadata.key
            check((type(ck) is type(k) or isinstance(n, DictConfig)) and (ck == k or ck != ck), "child at %s has key %r", q, ck)
            go(c, q)

    go(root, path)


def flag_oracle(n, flag):
    """nearest setting wins, from the own settings and parent links only"""
    while n is not None:
        f = n._metadata.flags or {}
        if f.get(flag) is not None:
            return f[flag]
        if n._metadata.flags_root:
            return None
        n = n.__dict__["_parent"]
    return None


def outcome(f):
    """('ret', value) or ('exc', exception)"""
    try:
        return ("ret", f())
    except (Violation, Timeout, KeyboardInterrupt):
        raise
    except RecursionError as e:
        return ("exc", e)
    except Exception as e:
        return ("exc", e)


def okind(o):
    return o[0] if o[0] == "ret" else "exc:" + type(o[1]).__name__


CONFIG_ERRORS = (oe.OmegaConfBaseException, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError)


# --------------------------------------------------------------- generators
STRS = ["", "a", "b", "abc", "foo", "bar", "hello world", "1", "0", "-3", "3.14", "1e3", "true", "False", "null", "None",
        "yes", "no", "on", "off", "~", "x.y", "a-b", "é", "日本", "a b", "  pad  ", "l1\nl2", "tab\t", "#c", "a: b", "a,b",
        "[x]", "{y}", "'q'", '"dq"', "\\", "$x", "a$b", "2020-01-01", "0x1f", "0o17", "1_000", ".5", "inf", "nan", ".inf",
        "RED", "Color.RED", "??", "????", "@", "%", "&x", "*y", "!t", "|", ">", "-", "- a", "?", "? k", ":", "=", "<<"]
KEYS = ["a", "b", "c", "d", "foo", "bar", "x", "y", "z1", "key_1"]
INTS = [0, 1, -1, 2, 3, 10, 42, -7, 255, 10 ** 6, 2 ** 40, -(2 ** 63)]
FLTS = [0.0, 1.0, -1.5, 3.14, 1e10, 1e-7, float("inf"), 2.0, -0.0]
ODDKEYS = [1, 0, -3, True, False, 2.5, b"kb", sc.Color.RED, sc.Color.BLUE, 7]


class G:
    """random generator of plain data and configs"""

    def __init__(self, rng):
        self.r = rng

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def string(self):
        k = self.r.random()
        if k < 0.8:
            return self.pick(STRS)
        return "".join(self.pick(list("abcXYZ019_-. :/#'\"\\$é\n,[]{}")) for _ in range(self.r.randrange(1, 12))).replace("${", "$(")

    def scalar(self):
        k = self.r.randrange(12)
        if k < 3:
            return self.pick(INTS)
        if k < 6:
            return self.string()
        if k == 6:
            return self.pick(FLTS)
        if k == 7:
            return self.p(0.5)
        if k == 8:
            return None
        if k == 9:
            return self.pick([sc.Color.RED, sc.Color.BLUE, sc.Height.TALL])
        if k == 10:
            return self.pick([b"", b"x", b"\x00\xff"])
        return self.r.randrange(-5, 6)

    def simple(self):
        """str / int / bool / None / float, no special strings"""
        return self.pick([1, 2, 3, "a", "b", "foo", True, False, None, 1.5, 0, "", "zz", -4])

    def key(self, odd=0.0):
        if odd and self.p(odd):
            return self.pick(ODDKEYS)
        return self.pick(KEYS)

    def data(self, depth=3, odd=0.0, leaf=None):
        """plain nested data"""
        leaf = leaf or self.scalar
        if depth <= 0 or self.p(0.4):
            return leaf()
        if self.p(0.6):
            return self.dict(depth, odd, leaf)
        return self.list(depth, odd, leaf)

    def dict(self, depth=3, odd=0.0, leaf=None, n=None):
        n = self.r.randrange(0, 5) if n is None else n
        return {self.key(odd): self.data(depth - 1, odd, leaf) for _ in range(n)}

    def list(self, depth=3, odd=0.0, leaf=None, n=None):
        n = self.r.randrange(0, 5) if n is None else n
        return [self.data(depth - 1, odd, leaf) for _ in range(n)]


STRUCTS = [sc.Typed, sc.Small, sc.Nested, sc.WithInter, sc.MissingInner, sc.AttrC(), sc.NonInit, sc.Inner2]


def deep_set_special(g, data, p_miss, p_inter, paths, prefix=()):
    """replace some leaves by missing markers or interpolations to existing paths"""
    it = data.items() if isinstance(data, dict) else enumerate(data)
    for k, v in list(it):
        if isinstance(v, (dict, list)):
            deep_set_special(g, v, p_miss, p_inter, paths, prefix + (k,))
        elif g.p(p_miss):
            data[k] = "???"
        elif g.p(p_inter) and paths:
            data[k] = "${%s}" % dotted(g.pick(paths))


def dotted(path):
    s = ""
    for i, k in enumerate(path):
        if isinstance(k, int):
            s += "[%d]" % k
        else:
            s += ("." if s else "") + str(k)
    return s


def plain_paths(data, prefix=()):
    out = []
    it = data.items() if isinstance(data, dict) else enumerate(data)
    for k, v in it:
        out.append(prefix + (k,))
        if isinstance(v, (dict, list)):
            out.extend(plain_paths(v, prefix + (k,)))
    return out


def world(g, kind=None, flags=False, special=True):
    """a random root config"""
    kind = kind or g.pick(["plain"] * 4 + ["struct"] * 3 + ["typeddict", "typedlist", "list", "mixed"])
    if kind == "plain":
        d = g.dict(4, n=g.r.randrange(1, 6))
        if special and g.p(0.5):
            ps = [p for p in plain_paths(d) if all(isinstance(k, (str, int)) for k in p)]
            deep_set_special(g, d, 0.1, 0.15, ps)
        cfg = OmegaConf.create(d)
    elif kind == "list":
        cfg = OmegaConf.create(g.list(3, n=g.r.randrange(1, 6)))
    elif kind == "struct":
        cfg = OmegaConf.structured(copy.deepcopy(g.pick(STRUCTS)))
    elif kind == "typeddict":
        cfg = g.pick([
            lambda: DictConfig({"a": 1, "b": 2}, element_type=int, key_type=str),
            lambda: DictConfig({1: "x", 2: "y"}, element_type=str, key_type=int),
            lambda: DictConfig({sc.Color.RED: sc.Inner()}, element_type=sc.Inner, key_type=sc.Color),
            lambda: OmegaConf.create({"t": DictConfig({"a": [1], "b": []}, element_type=__import__("typing").List[int])}),
        ])()
    elif kind == "typedlist":
        cfg = g.pick([
            lambda: ListConfig([1, 2, 3], element_type=int),
            lambda: ListConfig(["a", "b"], element_type=str),
            lambda: ListConfig([sc.Inner(), sc.Inner(x=4)], element_type=sc.Inner),
            lambda: OmegaConf.create({"l": ListConfig([1, 2, 3], element_type=int), "k": 1}),
        ])()
    else:
        cfg = OmegaConf.create({"s": sc.Small, "t": sc.Typed(), "p": g.dict(3), "l": g.list(3), "n": None, "m": "???",
                                "i": "${s.n}", "o": sc.Inner2, "e": {}, "em": []})
    if flags:
        for n in boxes(cfg, Container):
            for f in ("readonly", "struct"):
                if g.p(0.12):
                    n._set_flag(f, g.p(0.5))
    return cfg


def at(root, path):
    """node at a raw path"""
    n = root
    for k in path:
        if isinstance(n, UnionNode):
            n = content(n)
        n = content(n)[k]
    return n


# ------------------------------------------------------------ operations
def gen_value(g, node=None, depth=2):
    k = g.r.randrange(16)
    if k < 6:
        return ("plain", g.scalar())
    if k < 8:
        return ("plain", g.dict(depth, leaf=g.simple))
    if k < 10:
        return ("plain", g.list(depth, leaf=g.simple))
    if k == 10:
        return ("plain", g.pick(["???", "${a}", "${foo.bar}", "${nope}", "${.x}"]))
    if k == 11:
        return ("cfg", g.dict(depth, leaf=g.simple))
    if k == 12:
        return ("cfg", g.list(depth, leaf=g.simple))
    if k == 13:
        return ("sc", g.pick(["Inner", "Inner2", "Small", "Other"]))
    if k == 14:
        return ("vnode", g.pick(["IntegerNode", "StringNode", "AnyNode", "FloatNode", "BooleanNode"]), g.pick([1, "5", 0, True, None]))
    return ("plain", g.pick([1, "x", 2.5, True, None]))


def make_value(v):
    if v[0] == "plain":
        return copy.deepcopy(v[1])
    if v[0] == "cfg":
        return OmegaConf.create(copy.deepcopy(v[1]))
    if v[0] == "sc":
        return getattr(sc, v[1])()
    if v[0] == "vnode":
        try:
            return globals()[v[1]](v[2])
        except Exception:
            return v[2]
    if v[0] == "inst":
        return v[1]
    raise KeyError(v)


def gen_op(g, node, extra=()):
    """a random public operation on this node, as a printable tuple"""
    if isinstance(node, DictConfig):
        ks = list(node.keys())
        kt = getattr(node._metadata, "key_type", None)

        def key(fresh=0.4):
            if ks and not g.p(fresh):
                return g.pick(ks)
            return g.key(0.15)

        ops = [
            lambda: ("setitem", key(), gen_value(g)),
            lambda: ("setattr", str(key()) if not isinstance(key(), str) else g.pick([k for k in ks if isinstance(k, str)] or KEYS), gen_value(g)),
            lambda: ("delitem", key(0.2)),
            lambda: ("delattr", str(key(0.2))),
            lambda: ("pop", key(0.3)),
            lambda: ("popd", key(0.5), ("plain", g.simple())),
            lambda: ("popitem",),
            lambda: ("clear",),
            lambda: ("setdefault", key(0.6), gen_value(g)),
            lambda: ("update", ("plain", {key(): g.data(2, leaf=g.simple) for _ in range(g.r.randrange(0, 3))})),
            lambda: ("merge_with", ("plain", {key(): g.data(2, leaf=g.simple) for _ in range(g.r.randrange(0, 3))})),
            lambda: ("merge_with", ("cfg", {key(): g.data(2, leaf=g.simple) for _ in range(g.r.randrange(0, 3))})),
            lambda: ("ocupdate", g.pick([str(key()), "%s.%s" % (key(0.1), g.key()), "%s[0]" % key(0.1)]), gen_value(g), g.p(0.5)),
            lambda: ("dotlist", ["%s=%s" % (g.pick([k for k in ks if isinstance(k, str)] or KEYS), g.pick(["1", "x", "[1,2]", "{a: 1}", "null"]))]),
            lambda: ("resolve",),
        ]
    elif isinstance(node, ListConfig):
        c = content(node)
        n = len(c) if isinstance(c, list) else 0

        def idx():
            return g.r.randrange(-n - 1, n + 2)

        def sl():
            f = lambda: None if g.p(0.3) else g.r.randrange(-n - 1, n + 2)
            st = g.pick([None, None, 1, 2, -1, -2])
            return ("slice", f(), f(), st)

        ops = [
            lambda: ("setitem", idx(), gen_value(g)),
            lambda: ("setslice", sl(), [gen_value(g) for _ in range(g.r.randrange(0, 4))]),
            lambda: ("delitem", idx()),
            lambda: ("delslice", sl()),
            lambda: ("append", gen_value(g)),
            lambda: ("insert", idx(), gen_value(g)),
            lambda: ("extend", [gen_value(g) for _ in range(g.r.randrange(0, 3))]),
            lambda: ("iadd", [gen_value(g) for _ in range(g.r.randrange(0, 3))]),
            lambda: ("remove", gen_value(g) if g.p(0.3) or not n else ("plain", plain(c[g.r.randrange(n)]))),
            lambda: ("pop", idx()),
            lambda: ("pop0",),
            lambda: ("clear",),
            lambda: ("sort", g.p(0.5), g.p(0.5)),
            lambda: ("reverse",),
            lambda: ("merge_with", ("plain", g.list(2, leaf=g.simple))),
            lambda: ("ocupdate", g.pick(["0", "[0]", "%d" % max(0, n - 1), "0.a"]), gen_value(g), g.p(0.5)),
            lambda: ("resolve",),
        ]
    else:
        ops = [lambda: ("set_value", gen_value(g))]
    return g.pick(ops)()


def run_op(node, op):
    o, a = op[0], op[1:]
    if o == "setitem":
        node[a[0]] = make_value(a[1])
    elif o == "setattr":
        setattr(node, a[0], make_value(a[1]))
    elif o == "delitem":
        del node[a[0]]
    elif o == "delslice":
        del node[slice(*a[0][1:])]
    elif o == "setslice":
        node[slice(*a[0][1:])] = [make_value(v) for v in a[1]]
    elif o == "delattr":
        delattr(node, a[0])
    elif o == "pop":
        return node.pop(a[0])
    elif o == "pop0":
        return node.pop()
    elif o == "popd":
        return node.pop(a[0], make_value(a[1]))
    elif o == "popitem":
        return node.popitem()
    elif o == "clear":
        node.clear()
    elif o == "setdefault":
        return node.setdefault(a[0], make_value(a[1]))
    elif o == "update":
        node.update(make_value(a[0]))
    elif o == "merge_with":
        node.merge_with(make_value(a[0]))
    elif o == "merge_mode":
        node.merge_with(make_value(a[0]), list_merge_mode=getattr(ListMergeMode, a[1]))
    elif o == "ocupdate":
        OmegaConf.update(node, a[0], make_value(a[1]), merge=a[2])
    elif o == "ocforce":
        OmegaConf.update(node, a[0], make_value(a[1]), force_add=True)
    elif o == "dotlist":
        node.merge_with_dotlist(a[0])
    elif o == "resolve":
        OmegaConf.resolve(node)
    elif o == "append":
        node.append(make_value(a[0]))
    elif o == "insert":
        node.insert(a[0], make_value(a[1]))
    elif o == "extend":
        node.extend([make_value(v) for v in a[0]])
    elif o == "iadd":
        node += [make_value(v) for v in a[0]]
    elif o == "remove":
        node.remove(make_value(a[0]))
    elif o == "sort":
        node.sort(key=(lambda x: repr(x)) if a[0] else None, reverse=a[1])
    elif o == "reverse":
        node.reverse()
    elif o == "set_value":
        node._set_value(make_value(a[0]))
    elif o == "flag":
        node._set_flag(a[0], a[1])
    else:
        raise KeyError(o)


SINGLE = {"setitem", "setattr", "delitem", "delattr", "delslice", "pop", "pop0", "popd", "popitem", "setdefault", "append",
          "insert", "remove", "set_value", "flag", "sort"}


# -------------------------------------------------------------------- cases
class Ctx:
    def __init__(self, seed, shard, nshards, tier, atoms=()):
        self.seed, self.shard, self.nshards, self.tier, self.atoms = seed, shard, nshards, tier, list(atoms)

    def rng(self, i):
        return random.Random("%d/%d" % (self.seed, i))

    def scale(self, n):
        """number of random cases"""
        return n * 8 if self.tier == "thorough" else n


class Skip(BaseException):
    pass


def skip_unless(c):
    if not c:
        raise Skip()


def global_state():
    return dict(BaseContainer._resolvers)


def restore_global(s):
    if BaseContainer._resolvers != s:
        BaseContainer._resolvers.clear()
        BaseContainer._resolvers.update(s)


def full_snap(n):
    """everything: also identities, parents and the container's raw keys"""
    return (snap(n, ids=True), tuple((id(x), id(x.__dict__.get("_parent"))) for x in nodes(n)), id(n.__dict__.get("_parent")))


def build_twice(g, f):
    """two identical independent worlds"""
    st = g.r.getstate()
    a = f(g)
    g.r.setstate(st)
    b = f(g)
    return a, b


def struct_paths(root, cls=Node):
    return [p for p, n in walk(root) if isinstance(n, cls)]


def own_flags(root):
    return [(id(n), tuple(sorted((n._metadata.flags or {}).items()))) for n in nodes(root)]


def conforms(v, t, optional=True):
    """does the plain or node value v conform to the type annotation t (independent checker)"""
    import typing as T
    if isinstance(v, Node):
        c = content(v)
        if isinstance(v, UnionNode):
            if isinstance(c, str):
                return c == "???" or "${" in c
            return conforms(c, t, optional)
        if isinstance(c, str) and not isinstance(v, (StringNode, AnyNode)) and (c == "???" or "${" in c):
            return True
        if isinstance(c, str) and (c == "???" or "${" in c):
            return True
    else:
        c = v
    if t is T.Any:
        return True
    if c is None:
        return optional
    org = T.get_origin(t)
    if org is T.Union:
        args = [a for a in T.get_args(t) if a is not type(None)]
        opt = type(None) in T.get_args(t)
        return any(conforms(v, a, opt) for a in args)
    if org in (list, T.List):
        if not isinstance(c, list):
            return False
        (et,) = T.get_args(t) or (T.Any,)
        return all(conforms(x, et, _opt(et)) for x in c)
    if org in (dict, T.Dict):
        if not isinstance(c, dict):
            return False
        kt, et = T.get_args(t) or (T.Any, T.Any)
        return all(key_conforms(k, kt) for k in c) and all(conforms(x, et, _opt(et)) for x in c.values())
    if isinstance(t, type) and (__import__("dataclasses").is_dataclass(t) or hasattr(t, "__attrs_attrs__")):
        if isinstance(v, DictConfig):
            ot = v._metadata.object_type
            return isinstance(ot, type) and issubclass(ot, t)
        return isinstance(c, t)
    if t in (int, float, bool, str, bytes):
        return type(c) is t
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return isinstance(c, t)
    if t is pathlib.Path:
        return isinstance(c, pathlib.Path)
    raise KeyError(t)


def _opt(t):
    import typing as T
    return t is T.Any or (T.get_origin(t) is T.Union and type(None) in T.get_args(t))


def key_conforms(k, kt):
    import typing as T
    if kt is T.Any:
        return True
    return isinstance(k, kt)


def check_typed(root):
    """C04: every container's elements conform to its declared types, every node to its own ref type"""
    import typing as T
    for p, n in walk(root):
        m = n._metadata
        if isinstance(n, (DictConfig, ListConfig)) and isinstance(content(n), (dict, list)):
            et = getattr(m, "element_type", T.Any)
            kt = getattr(m, "key_type", T.Any)
            for k, c in children(n):
                if isinstance(n, DictConfig):
                    check(key_conforms(k, kt), "key %r at %s is not of the declared key type %s", k, p, kt)
                if not (isinstance(n, DictConfig) and isinstance(m.object_type, type) and m.object_type not in (dict,) and
                        (__import__("dataclasses").is_dataclass(m.object_type) or hasattr(m.object_type, "__attrs_attrs__"))):
                    check(conforms(c, et, _opt(et)), "element %r of %s is %r, declared element type %s", k, p, plain(c), et)
        rt = m.ref_type
        check(conforms(n, rt, m.optional), "node at %s holds %r, declared type %s optional %s", p, plain(n), rt, m.optional)


def declared(root):
    """declared types per path"""
    out = {}
    for p, n in walk(root):
        if p not in out:
            out[p] = (repr(n._metadata.ref_type), n._metadata.optional, repr(getattr(n._metadata, "key_type", None)),
                      repr(getattr(n._metadata, "element_type", None)))
    return out
