"""C03 value nodes: independent conversion oracle"""
from lib import *
import math


def conv(cls, v, enum_type=None):
    """('ok', value) or ('bad',): documented conversion of a value that is not None / special"""
    t = type(v)
    if cls == "AnyNode":
        return ("ok", v)
    if cls == "IntegerNode":
        if t is int:
            return ("ok", v)
        if t is str:
            try:
                return ("ok", int(v))
            except ValueError:
                return ("bad",)
        return ("bad",)
    if cls == "FloatNode":
        if t is float:
            return ("ok", v)
        if t in (int, str):
            try:
                return ("ok", float(v))
            except (ValueError, OverflowError):
                return ("bad",)
        return ("bad",)
    if cls == "BooleanNode":
        if t is bool:
            return ("ok", v)
        if t is int:
            return ("ok", v != 0)
        if t is str:
            try:
                return ("ok", int(v) != 0)
            except ValueError:
                if v.lower() in ("yes", "y", "on", "true"):
                    return ("ok", True)
                if v.lower() in ("no", "n", "off", "false"):
                    return ("ok", False)
        return ("bad",)
    if cls == "StringNode":
        if t is bytes or isinstance(v, (list, tuple, dict, Container)):
            return ("bad",)
        return ("ok", str(v))
    if cls == "BytesNode":
        return ("ok", v) if t is bytes else ("bad",)
    if cls == "PathNode":
        if t is str or isinstance(v, pathlib.PurePath):
            return ("ok", pathlib.Path(v))
        return ("bad",)
    if cls == "EnumNode":
        if isinstance(v, enum_type):
            return ("ok", v)
        if t is int:
            for m in enum_type:
                if type(m.value) is int and m.value == v:
                    return ("ok", m)
            return ("bad",)
        if t is str:
            n = v[len(enum_type.__name__) + 1:] if v.startswith(enum_type.__name__ + ".") else v
            return ("ok", enum_type.__members__[n]) if n in enum_type.__members__ else ("bad",)
        return ("bad",)
    raise KeyError(cls)


KIND = {"IntegerNode": int, "FloatNode": float, "BooleanNode": bool, "StringNode": str, "BytesNode": bytes, "PathNode": pathlib.Path}
CLS = ["IntegerNode", "FloatNode", "BooleanNode", "StringNode", "BytesNode", "PathNode", "EnumNode", "AnyNode"]
MORE = ["Yes", "YES", "y", "Y", "N", "TRUE", "tRuE", "oN", "OFF", "Off", "f", "t", "2", "-0", "00", "1 ", " 1", "+1", "1.0", "1e2", "١", "1__0", "_1", "0b1", "True ",
        "GREEN", "Color.GREEN", "Color.", "color.RED", "Height.TALL", "TALL", "tall", "Color.Color.RED", "nan", "-inf", "infinity", "1e999", "9" * 400, "a/b", "", "/",
        10 ** 400, 1e22, -3e16, 2.0 ** 53, -1.0, 1e300, 5e-324, 7.0, 2 ** 63, 2 ** 64, -(10 ** 400), 2, 3, 4, -1, 0, 1, 1.0, 0.0, 2.0, float("nan"), float("-inf"), True, False, b"", b"1", b"yes", sc.Color.RED, sc.Color.GREEN, sc.Height.TALL,
        pathlib.Path("x/y"), pathlib.Path("."), [], [1], {}, {"a": 1}, (), (1,), object(), int, sc.Color, sc.Inner, len, 1j, frozenset()]


class IntSub(int):
    pass


def special(v):
    return isinstance(v, str) and (v == "???")


def val(g):
    k = g.r.randrange(10)
    if k < 4:
        return g.pick(MORE)
    if k < 5 and g.atoms:
        return g.pick(g.atoms)
    if k < 8:
        return g.scalar()
    return "".join(g.pick(list("0123456789+-._eEinfatruyso ")) for _ in range(g.r.randrange(0, 6)))


def mknode(g, c, opt, flags):
    if c == "EnumNode":
        et = g.pick([sc.Color, sc.Height])
        return EnumNode(et, is_optional=True, flags=flags), et
    if c == "AnyNode":
        return AnyNode(flags=flags), None
    return globals()[c](is_optional=True, flags=flags), None


def c_node(g):
    c = g.pick(CLS)
    conv_off = g.p(0.15) and c != "AnyNode"
    n, et = mknode(g, c, True, {"convert": False} if conv_off else None)
    if g.p(0.3):
        n = copy.deepcopy(n)
    first = {"IntegerNode": 5, "FloatNode": 5.5, "BooleanNode": True, "StringNode": "five", "BytesNode": b"5", "PathNode": pathlib.Path("five"),
             "EnumNode": list(et)[0] if et else None, "AnyNode": "any"}[c]
    n._set_value(first)
    opt = g.p(0.5)
    n._metadata.optional = opt or c == "AnyNode"
    opt = n._metadata.optional
    for _ in range(10):
        v = val(g)
        prev = n._value()
        g.log.append("%s(%r) optional=%s convert=%s := %r" % (c, prev, opt, not conv_off, v if not isinstance(v, int) else str(v)[:30]))
        if c == "AnyNode" and isinstance(v, (list, dict, tuple, type)):
            continue
        if isinstance(v, str) and "${" in v:
            continue
        o = outcome(lambda: n._set_value(v))
        now = n._value()
        if v is None:
            exp = ("ok", None) if opt else ("bad",)
        elif special(v):
            exp = ("ok", v)
        elif conv_off and c != "AnyNode":
            k = KIND.get(c) or et
            if c == "PathNode":
                okt = isinstance(v, pathlib.Path)
            elif c == "EnumNode":
                okt = isinstance(v, et)
            else:
                okt = type(v) is k
            exp = ("ok", v) if okt else ("bad",)
        else:
            exp = conv(c, v, et)
            if c == "AnyNode" and not (v is None or type(v) in (int, float, bool, str, bytes) or isinstance(v, (enum.Enum, pathlib.Path))):
                exp = ("bad",)
        if exp[0] == "bad":
            check(o[0] == "exc", "%s accepted %r (now %r)", c, v, now)
            check(isinstance(o[1], oe.ValidationError), "%s := %r raised %s, not a validation error", c, v, okind(o))
            check(tv(now) == tv(prev), "rejected assignment of %r to %s changed its value from %r to %r", v, c, prev, now)
        else:
            check(o[0] == "ret", "%s rejected %r: %s", c, v, o[1])
            check(tv(now) == tv(exp[1]), "%s := %r stored %r, expected %r", c, v, now, exp[1])
            # idempotent
            n._set_value(now)
            check(tv(n._value()) == tv(now), "re-assigning the stored value %r of %s changed it to %r", now, c, n._value())
        # what can be constructed is what can be assigned
        if c != "EnumNode" and not conv_off:
            oc = outcome(lambda: globals()[c](value=v, is_optional=opt) if c != "AnyNode" else AnyNode(v))
            check((oc[0] == "ret") == (exp[0] == "ok"), "constructor of %s with %r: %s", c, v, okind(oc))
            if oc[0] == "ret":
                check(tv(oc[1]._value()) == tv(exp[1]), "constructor of %s with %r stores %r", c, v, oc[1]._value())


FIELDS = {"i": ("IntegerNode", None, False), "f": ("FloatNode", None, False), "b": ("BooleanNode", None, False), "s": ("StringNode", None, False),
          "by": ("BytesNode", None, False), "p": ("PathNode", None, False), "c": ("EnumNode", sc.Color, False), "oi": ("IntegerNode", None, True),
          "os": ("StringNode", None, True), "oc": ("EnumNode", sc.Color, True)}


def c_field(g):
    """the same through a structured config: item, attribute, update, merge"""
    cfg = OmegaConf.structured(sc.Typed)
    for _ in range(8):
        f = g.pick(list(FIELDS))
        c, et, opt = FIELDS[f]
        v = val(g)
        if isinstance(v, str) and "${" in v or isinstance(v, (list, dict, tuple)) or isinstance(v, type):
            continue
        if not (v is None or type(v) in (int, float, bool, str, bytes) or isinstance(v, (enum.Enum, pathlib.Path))):
            continue
        how, fn = g.pick([("item", lambda: cfg.__setitem__(f, v)), ("attr", lambda: setattr(cfg, f, v)), ("update", lambda: OmegaConf.update(cfg, f, v)),
                          ("merge", lambda: cfg.merge_with({f: v}))])
        prev = cfg._get_node(f)._value()
        g.log.append("%s(%s) := %r by %s" % (f, c, v if not isinstance(v, int) else str(v)[:30], how))
        o = outcome(fn)
        now = cfg._get_node(f)._value()
        exp = (("ok", None) if opt else ("bad",)) if v is None else ("ok", v) if special(v) else conv(c, v, et)
        if special(v) and how == "merge":
            exp = ("ok", prev)
        if exp[0] == "bad":
            check(o[0] == "exc" and isinstance(o[1], oe.ValidationError), "%s := %r by %s gave %s", f, v, how, okind(o))
            check(tv(now) == tv(prev), "rejected assignment changed %s from %r to %r", f, prev, now)
        else:
            check(o[0] == "ret", "%s := %r by %s rejected: %s", f, v, how, o[1])
            check(tv(now) == tv(exp[1]), "%s := %r by %s stored %r", f, v, how, now)


def c_union(g):
    cfg = OmegaConf.structured(sc.Typed)
    for _ in range(8):
        f, types, opt = g.pick([("u", (int, str), False), ("ou", (float, bool), True)])
        v = g.pick([1, 0, 1.5, True, False, "s", "5", None, b"x", sc.Color.RED, [1], "???", 10 ** 5, float("inf")])
        prev = plain(cfg._get_node(f))
        g.log.append("%s := %r" % (f, v))
        o = outcome(lambda: cfg.__setitem__(f, v))
        now = plain(cfg._get_node(f))
        good = type(v) in types or (v is None and opt) or v == "???"
        if good:
            check(o[0] == "ret" and tv(now) == tv(v), "union field %s := %r gave %s, %r", f, v, okind(o), now)
        else:
            check(o[0] == "exc" and isinstance(o[1], oe.ValidationError), "union field %s := %r gave %s (now %r)", f, v, okind(o), now)
            check(tv(now) == tv(prev), "rejected assignment changed the union field %s from %r to %r", f, prev, now)


CASES = [("node", 12000, c_node), ("field", 3000, c_field), ("union", 500, c_union)]
