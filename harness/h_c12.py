"""C12 YAML round trip"""
from iw import *
import itertools
import os
import shutil
import tempfile
import yaml

ALPH = ["01.eE+-_", "019:._-", "0xXbBoO_1f", "infINF.+-nan", "truefalsTRUE"[:8] + "yno", "~nulNUL", " #:-?,[]{}", "\"'\\ \n\ta", "!&*|>%@`=<", "0128-: T", "${}\\a?. "]
WORDS = ["y", "Y", "n", "N", "yes", "Yes", "YES", "no", "No", "NO", "true", "True", "TRUE", "false", "False", "FALSE", "on", "On", "ON", "off", "Off", "OFF", "null", "Null", "NULL", "~", "", "none", "None",
         ".inf", ".Inf", ".INF", "-.inf", "+.inf", ".nan", ".NaN", ".NAN", "inf", "nan", "-inf", "NaN", "1e3", "1e+3", "1E-3", "1.e3", ".5e1", "1_0", "1_0.5", "0x1F", "0b101", "0o17", "017", "1:30", "1:30:45",
         "1:30.5", "190:20:30.15", "2020-01-01", "2020-01-01T00:00:00Z", "2020-1-1 1:1:1", "<<", "=", "???", "? a", "- a", "a: b", "a:", ":a", "a #b", "#a", "%TAG", "---", "...", "--- a", "!!int 5", "!tag", "&a", "*a",
         "|", ">", "'", "\"", "''", "\"\"", "\\n", "\n", "\n\n", "a\n", "\na", " a", "a ", "\ta", "a\t", "\x00", "\x07", "\x1b", "\x7f", "\x85", "\u2028", "\u2029", "\ufeff", "\ufffe", "\U0001f600", "é", "\r", "\r\n", "a\rb",
         "a" * 200, ("word " * 60).strip(), "x\n" * 5, "a\n  b\n c", "${a}", "${a.b}", "${oc.env:HOME,x}", "x${a}y", "\\${a}", "$a", "$", "{a}", "[a]", "[1,2]", "{a: 1}", "@a", "`a`", "a,b", "a\\", "\\", "0.", ".0", "-", "+", ".", "_", "1_", "_1", "__",
         "1e", "e1", "0e0", "00", "01", "08", "0_8", "-0", "+0", "1__0", "1e1_0", "1._e3", "._5", "1_.5", "0x", "0x_", "0b", "0b_1", "-0x1", "+.5", "-.5e-5", "12e03", "0.1e", "!!binary x", "!!python/object:x", "key: |\n  x"]


def loads(y):
    return OmegaConf.create(y)


def rt(g, cfg, how="create"):
    y = OmegaConf.to_yaml(cfg)
    if how == "create":
        return y, loads(y)
    d = tempfile.mkdtemp(prefix="vf12")
    try:
        f = os.path.join(d, "c.yaml")
        if how == "file":
            OmegaConf.save(cfg, f)
            return y, OmegaConf.load(f)
        if how == "path":
            OmegaConf.save(cfg, pathlib.Path(f))
            return y, OmegaConf.load(pathlib.Path(f))
        import io
        b = io.StringIO()
        OmegaConf.save(cfg, b)
        return y, OmegaConf.load(io.StringIO(b.getvalue()))
    finally:
        shutil.rmtree(d)


def check_strings(g, ss, keys=True):
    ss = list(ss)
    try:
        cfg = OmegaConf.create({"v": ss})
    except oe.GrammarParseError:
        good = []
        for s in ss:
            try:
                OmegaConf.create([s])
                good.append(s)
            except oe.GrammarParseError:
                pass
        ss = good
        cfg = OmegaConf.create({"v": ss})
    try:
        y = OmegaConf.to_yaml(cfg)
        back = plain(loads(y))
    except Exception as e:
        bad = [s for s in ss if outcome(lambda: loads(OmegaConf.to_yaml(OmegaConf.create({"v": [s]}))))[0] == "exc"]
        raise Violation("the YAML dump of %r cannot be loaded: %s %s" % (bad[:5] or ss[:5], type(e).__name__, str(e)[:200]))
    if tv(back) != tv({"v": ss}):
        for s in ss:
            y = OmegaConf.to_yaml(OmegaConf.create({"v": s}))
            b = plain(loads(y))
            check(tv(b) == tv({"v": s}), "the string %r is dumped as %r and comes back as %r", s, y, b)
        raise Violation("strings do not come back: %r" % (ss[:5],))
    if keys:
        ks = [s for s in ss]
        d = {k: i for i, k in enumerate(dict.fromkeys(ks))}
        try:
            back = plain(loads(OmegaConf.to_yaml(OmegaConf.create(d))))
        except Exception as e:
            for k in d:
                o = outcome(lambda: plain(loads(OmegaConf.to_yaml(OmegaConf.create({k: 1})))))
                check(o[0] == "ret", "the YAML dump with the key %r cannot be loaded: %s", k, o[1])
            raise Violation("dump with string keys cannot be loaded: %s" % e)
        if tv(back) != tv(d):
            for k in d:
                b = plain(loads(OmegaConf.to_yaml(OmegaConf.create({k: 1}))))
                check(tv(b) == tv({k: 1}), "the key %r comes back as %r", k, b)
            raise Violation("keys do not come back")


from omegaconf._utils import get_yaml_loader
OCL = get_yaml_loader()
N_SHORT = {}


def c_enum(g):
    """all strings up to a length over alphabets of the characters that matter, in blocks"""
    block = 400
    L = 5 if g.tier == "thorough" else 4
    i = g.i
    for a in ALPH:
        a = "".join(dict.fromkeys(a))
        l = L if len(a) <= 9 else L - 1
        total = sum(len(a) ** k for k in range(1, l + 1))
        nb = (total + block - 1) // block
        if i < nb:
            it = itertools.chain.from_iterable((map("".join, itertools.product(a, repeat=k)) for k in range(1, l + 1)))
            ss = list(itertools.islice(it, i * block, (i + 1) * block))
            g.log.append("%r %s..%s" % (a, ss[0], ss[-1]))
            check_strings(g, [s for s in ss if "${" not in s or "}" in s], keys=i % 4 == 0)
            return
        i -= nb


def n_enum(tier):
    L = 5 if tier == "thorough" else 4
    n = 0
    for a in ALPH:
        a = "".join(dict.fromkeys(a))
        l = L if len(a) <= 9 else L - 1
        n += (sum(len(a) ** k for k in range(1, l + 1)) + 399) // 400
    return n


def c_words(g):
    w = WORDS[g.i % len(WORDS)]
    check_strings(g, [w])
    for pre in ["", " ", "a", "-", "+", "1", "\n", "'", "_", "."]:
        for post in ["", " ", "a", ":", ": b", "1", "\n", "_", "."]:
            s = pre + w + post
            o = outcome(lambda: OmegaConf.create([s]))
            if o[0] == "ret":
                check_strings(g, [s])


def number_like(g):
    digits = lambda n=4: "".join(g.pick(list("0123456789_")) for _ in range(g.r.randrange(1, n)))
    k = g.r.randrange(8)
    s = g.pick(["", "+", "-"])
    if k == 0:
        return s + digits() + "." + digits()
    if k == 1:
        return s + digits() + g.pick("eE") + g.pick(["", "+", "-"]) + digits()
    if k == 2:
        return s + digits() + "." + g.pick(["", digits()]) + g.pick("eE") + g.pick(["", "+", "-"]) + digits()
    if k == 3:
        return s + ":".join(digits(3) for _ in range(g.r.randrange(2, 4))) + g.pick(["", ".", "." + digits()])
    if k == 4:
        return s + g.pick(["0x", "0b", "0o", "0", "0X"]) + "".join(g.pick(list("01234567_abcdefABCDEF")) for _ in range(g.r.randrange(1, 5)))
    if k == 5:
        return s + "." + digits() + g.pick(["", "e" + digits()])
    if k == 6:
        return "%s-%s-%s" % (digits(5), digits(3), digits(3)) + g.pick(["", "T1:2:3", " 01:02:03.5", "t01:02:03Z"])
    return s + g.pick([".inf", ".Inf", ".nan", "inf", "nan", ".INF", ".NaN"])


def c_random(g):
    ss = [number_like(g) for _ in range(60)]
    ss += ["".join(g.pick(list("ab01 \n\t'\"\\#:-?{}[],&*!|>%@`=~<.é\u2028\x85\x00\x7f\ufeff😀")) for _ in range(g.r.randrange(0, 14))) for _ in range(60)]
    if g.atoms:
        ss += [a for a in (g.pick(g.atoms) for _ in range(20)) if isinstance(a, str)]
    check_strings(g, [s for s in ss if "${" not in s])


def num(g):
    k = g.r.randrange(6)
    if k == 0:
        return g.r.randrange(-10 ** 20, 10 ** 20)
    if k == 1:
        return g.pick(INTS)
    if k == 2:
        import struct
        return struct.unpack("<d", bytes(g.r.randrange(256) for _ in range(8)))[0]
    if k == 3:
        return g.pick(FLTS + [float("nan"), 1e300, 5e-324, 1e16, 1e17, 123456789.123, 1e22, -1e-5, 0.1, 100.0])
    if k == 4:
        return g.r.uniform(-1, 1) * 10 ** g.r.randrange(-30, 30)
    return g.p(0.5)


def c_data(g):
    def leaf():
        k = g.r.randrange(8)
        if k < 2:
            return num(g)
        if k == 2:
            return None
        if k == 3:
            return "???"
        if k == 4:
            return g.pick([b"", b"x", b"\x00\xff\n", bytes(range(60))])
        if k == 5:
            return g.pick(["${a}", "${a.b}", "x-${b}", "${oc.env:A,b}"])
        if k == 6:
            return g.pick(WORDS)
        return number_like(g)
    keys = [1, 0, -3, 2.5, 1e20, float("inf"), True, False, b"kb", "1", "true", "null", "2.5", "a", "b", "", " ", "~", "???", "x: y", "<<", "=", "- a", "1e3", "on", "0x1"]

    def go(d):
        k = g.r.randrange(4) if d else 0
        if k <= 1:
            return leaf()
        if k == 2:
            return {g.pick(keys): go(d - 1) for _ in range(g.r.randrange(0, 5))}
        return [go(d - 1) for _ in range(g.r.randrange(0, 4))]
    d = {g.pick(keys): go(3) for _ in range(g.r.randrange(0, 5))}
    try:
        cfg = OmegaConf.create(copy.deepcopy(d))
    except oe.GrammarParseError:
        raise Skip()
    g.log.append(repr(d))
    y, back = rt(g, cfg, g.pick(["create", "create", "file", "path", "io"]))
    g.log.append(y)
    check(tv(plain(back)) == tv(plain(cfg)), "%r comes back from YAML as %r; dump: %s", plain(cfg), plain(back), y)
    check(OmegaConf.to_yaml(back) == y, "dumping the loaded config gives a different text")


def c_top(g):
    """other roots, and resolve / sort_keys"""
    for d in ([], {}, [1, "1", None, "null", True, "true", [[]], {}], {"a": {"b": {}}, "c": []}, [[], [[]]], {"p": pathlib.Path("a/b")}):
        cfg = OmegaConf.create(d)
        y, b = rt(g, cfg, g.pick(["create", "file"]))
        if d != [] and d != {}:
            check(tv(plain(b)) == tv(plain(cfg)), "%r comes back from YAML as %r", plain(cfg), plain(b))
    t = add_refs(g, gen_tree(g), 0.25, 0, 0, cats=False)
    try:
        exp = value_of(t, ("cont", ()))
    except Err:
        raise Skip()
    cfg = OmegaConf.create(render(t))
    y = OmegaConf.to_yaml(cfg, resolve=True)
    exp = denum(exp)
    b = plain(loads(y))
    check(tv(b) == tv(exp), "the resolved dump of %r reads back as %r, expected %r", plain(cfg), b, exp)
    y2 = OmegaConf.to_yaml(cfg, sort_keys=True)
    check(plain(loads(y2)) == denum(plain(cfg)), "the sorted dump reads back differently")


def denum(x):
    if isinstance(x, dict):
        return {denum(k): denum(v) for k, v in x.items()}
    if isinstance(x, list):
        return [denum(v) for v in x]
    return x.name if isinstance(x, enum.Enum) else x


def c_struct(g):
    """structured configs: the dump of a structured config, merged into its type, gives it back"""
    for cls in (sc.Typed, sc.Small, sc.Nested, sc.WithInter):
        cfg = OmegaConf.structured(cls)
        if cls is sc.Typed:
            w = g.pick(WORDS)
            cfg.s = w if w != "???" else "x"
            cfg.os = g.pick([x for x in WORDS if x != "???" and "${" not in x] + [None])
            v = num(g)
            cfg.f = v if not isinstance(v, bool) else 0.5
            cfg.by = g.pick([b"", b"\xff"])
            cfg.ls = [number_like(g), g.pick(WORDS)]
            cfg.a = g.pick([1, "1", None, "null", True])
            cfg.u = g.pick([7, "7", "x"])
            g.log.append(repr(cfg))
        y = OmegaConf.to_yaml(cfg)
        if "'???'" in y.replace("m: '???'", "") or cfg.get("os", 1) == "???":
            continue
        back = OmegaConf.merge(OmegaConf.structured(cls), OmegaConf.create(y))
        check(tv(plain(back)) == tv(plain(cfg)), "%s comes back from YAML as %r; dump %s", plain(cfg), plain(back), y)


CASES = [("enum", n_enum, c_enum), ("words", len(WORDS), c_words), ("random", 400, c_random), ("data", 2500, c_data), ("top", 300, c_top), ("struct", 300, c_struct)]
