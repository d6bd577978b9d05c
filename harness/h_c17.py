"""C17 the interpolation grammar: expressions rendered from a structure whose value is known"""
from lib import *
import re
import warnings

SEEN = []
REFS = {"r": 5, "s": "str", "n": None, "f": 1.5, "t_": True, "e": "", "sp": "a b", "bsl": "x\\", "q": "it's", "cat": "${s}-${r}", "dollar": "\\${r}"}
RVAL = dict(REFS, cat="str-5", dollar="${r}")
INT = re.compile(r"[+-]?(0|[1-9](_?[0-9])*)")
FLOAT = re.compile(r"[+-]?(((0|[1-9](_?[0-9])*)\.|((0|[1-9](_?[0-9])*)?\.[0-9](_?[0-9])*))|((0|[1-9](_?[0-9])*)|((0|[1-9](_?[0-9])*)\.|((0|[1-9](_?[0-9])*)?\.[0-9](_?[0-9])*)))[eE][+-]?[0-9](_?[0-9])*|[iI][nN][fF]|[nN][aA][nN])")


def case(g, s):
    return "".join(g.pick([c.lower(), c.upper()]) for c in s)


def typed(raw):
    """the value of one unquoted token sequence without escapes"""
    low = raw.lower()
    if low == "null":
        return None
    if low in ("true", "false"):
        return low == "true"
    if INT.fullmatch(raw):
        return int(raw.replace("_", ""))
    if FLOAT.fullmatch(raw):
        return float(raw.replace("_", ""))
    return raw


def num(g):
    k = g.r.randrange(10)
    d = lambda: g.pick("0123456789")
    ds = lambda: "".join(d() + g.pick(["", "", "", "_"]) for _ in range(g.pick([0, 1, 2, 2, 25]))) + d()
    i = g.pick(["0", g.pick("123456789") + g.pick(["", ds(), "_" + ds()]), ds(), "00", "1__0", "1_"])
    sg = g.pick(["", "", "-", "+", "--", "- "])
    if k < 4:
        return sg + i
    if k < 8:
        m = g.pick([i + ".", i + "." + ds(), "." + ds(), i])
        return sg + m + g.pick(["", "", "e5", "E-3", "e+1_0", "e", "e5.", "e_5"])
    return sg + case(g, g.pick(["inf", "nan", "infx", "na"]))


PLAINCH = "abzAZ019_-+./%*@?|"


def ref(g):
    k = g.pick(list(REFS))
    sp = lambda: g.pick(["", "", " ", "\t"])
    return "${" + sp() + g.pick([k, "[%s]" % k, k]) + sp() + "}", RVAL[k]


def prim(g, key=False, inter=True):
    """(text, value) of an unquoted primitive"""
    k = g.r.randrange(12)
    if k < 3:
        t = num(g)
        return t, typed(t)
    if k == 3:
        t = case(g, g.pick(["null", "true", "false", "none", "nul", "yes"])) + g.pick(["", "", "", "1", "-", ".", "_x"])
        return t, typed(t)
    if k == 4 and inter:
        return ref(g)
    if k == 5:
        t = g.pick(["foo", "foo_bar", "hello-world", "_x", "a1", "None", "x.y", "a/b", "C"])
        return t, t
    units = []
    for _ in range(g.r.randrange(1, 7)):
        j = g.r.randrange(12)
        if j < 5:
            c = g.pick(PLAINCH)
            units.append((c, c))
        elif j == 5 and not key:
            units.append((":", ":"))
        elif j == 6:
            units.append(("$", "$"))
        elif j == 7:
            c = g.pick(" \t")
            units.append((c, c, "ws"))
        elif j in (8, 9):
            c = g.pick(["\\", "(", ")", "[", "]", "{", "}", ":", "=", ",", " ", "\t"])
            units.append(("\\" + c, c, "esc"))
        elif j == 10:
            c = "\\" + g.pick("abz1.-")
            units.append((c, c))
        elif inter:
            t, v = ref(g)
            units.append((t, str(v), "ref"))
    # a colon keeps the whitespace around it: not at the ends
    edge = lambda u: u[0] == ":" or len(u) == 3 and u[2] == "ws"
    while units and edge(units[0]):
        units.pop(0)
    while units and edge(units[-1]):
        units.pop()
    if not units:
        return "w", "w"
    text, val = "".join(u[0] for u in units), "".join(u[1] for u in units)
    special = [u for u in units if len(u) == 3 and u[2] != "ws"]
    if not special:
        return text, typed(text)
    if len(units) == 1 and units[0][2] == "ref":
        return g.pick([("${r}", 5), ("${s}", "str")])
    return text, val


def quoted(g):
    q = g.pick("'\"")
    other = '"' if q == "'" else "'"
    text, val = [], []
    for _ in range(g.r.randrange(0, 5)):
        j = g.r.randrange(8)
        if j < 4:
            s = "".join(g.pick(["a", "1", " ", "\t", "\n", "\\", "$", "{", "}", "[", ",", ":", "é", other, "x", "null", "#", "="]) for _ in range(g.r.randrange(1, 6)))
            s = s.replace("${", "$x")
            while s.endswith("\\") or s.endswith("$"):
                s = s[:-1]
            text.append(s)
            val.append(s)
        elif j == 4:
            n = g.r.randrange(0, 3)
            text.append("\\" * (2 * n + 1) + q)
            val.append("\\" * n + q)
        elif j == 5:
            n = g.r.randrange(0, 3)
            text.append("\\" * (2 * n + 1) + "${")
            val.append("\\" * n + "${")
        else:
            n = g.pick([0, 0, 1, 2])
            t, v = ref(g)
            text.append("\\" * (2 * n) + t)
            val.append("\\" * n + str(v))
    n = g.pick([0, 0, 0, 1, 2])
    # a run of backslashes at the end of the string
    if not any(text):
        pass
    text.append("\\" * (2 * n))
    val.append("\\" * n)
    return q + "".join(text) + q, "".join(val)


def ws(g):
    return g.pick(["", "", "", " ", "\t", "  "])


def elem(g, depth=2):
    k = g.r.randrange(12 if depth else 8)
    if k < 5:
        return prim(g)
    if k < 8:
        return quoted(g)
    if k < 10:
        es = [elem(g, depth - 1) for _ in range(g.r.randrange(0, 4))]
        return "[" + ws(g) + (ws(g) + "," + ws(g)).join(e[0] for e in es) + ws(g) + "]", [e[1] for e in es]
    if k == 10:
        ps = [(prim(g, True, False), elem(g, depth - 1)) for _ in range(g.r.randrange(0, 4))]
        ps = [p for p in ps if p[0][1] == p[0][1]]
        return "{" + ws(g) + (ws(g) + "," + ws(g)).join(a[0] + ws(g) + ":" + ws(g) + b[0] for a, b in ps) + ws(g) + "}", {a[1]: b[1] for a, b in ps}
    # a nested resolver call: first argument
    es = [elem(g, depth - 1) for _ in range(g.r.randrange(1, 4))]
    return "${first:" + ws(g) + (ws(g) + "," + ws(g)).join(e[0] for e in es) + ws(g) + "}", es[0][1]


def nanfree(v):
    return v


def setup():
    for n, f in (("rec", lambda *a: SEEN.append(a) or len(SEEN)), ("first", lambda *a: a[0]), ("id", lambda x: x), ("ns.a-b.c", lambda *a: SEEN.append(a) or 0)):
        OmegaConf.register_new_resolver(n, f, replace=True)


def mk(text):
    return OmegaConf.create(dict(REFS, x=text))


def c_args(g):
    setup()
    try:
        es = [elem(g) for _ in range(g.r.randrange(0, 4))]
        name = g.pick(["rec", "rec", "ns.a-b.c"])
        text = "${" + ws(g) + name + ws(g) + ":" + ws(g) + (ws(g) + "," + ws(g)).join(e[0] for e in es) + ws(g) + "}"
        g.log.append(repr(text))
        del SEEN[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = outcome(lambda: mk(text).x)
        check(got[0] == "ret", "%r raises %s: %s", text, okind(got), str(got[1])[:200] if got[0] == "exc" else "")
        check(len(SEEN) == 1, "the resolver of %r was called %d times", text, len(SEEN))
        args = tuple(plain(a) if isinstance(a, Node) else a for a in SEEN[0])
        exp = tuple(e[1] for e in es)
        check(tv(args) == tv(exp), "the resolver arguments of %r are %r, expected %r", text, args, exp)
    finally:
        OmegaConf.clear_resolvers()


def c_top(g):
    """text with interpolations and escapes"""
    text, val, n_ref, parts = [], [], 0, 0
    last = None
    for _ in range(g.r.randrange(1, 6)):
        j = g.r.randrange(8)
        if j < 3:
            s = "".join(g.pick(["a", "1", " ", "\n", "\\", "$", "{", "}", "[", ",", ":", "é", "'", '"', "x", "null", "#", "."]) for _ in range(g.r.randrange(1, 6)))
            s = s.replace("${", "$x")
            while s.endswith("\\") or s.endswith("$"):
                s = s[:-1]
            if last == "$" and s.startswith("{"):
                s = "y" + s
            text.append(s)
            val.append(s)
            parts += bool(s)
            last = s[-1:] or last
        elif j == 3:
            n = g.r.randrange(0, 3)
            text.append("\\" * (2 * n + 1) + "${")
            val.append("\\" * n + "${")
            parts += 1
            last = "{"
        elif j == 4 and text:
            if last in ("$",):
                continue
            text.append("$")
            val.append("$")
            parts += 1
            last = "$"
        else:
            n = g.pick([0, 0, 0, 1, 2])
            t, v = ref(g)
            text.append("\\" * (2 * n) + t)
            val.append(("\\" * n) + str(v))
            parts += 1 + bool(n)
            n_ref += 1
            single = v
            last = "}"
    s = "".join(text)
    if s.strip() == "???" or not s:
        return
    exp = "".join(val)
    if parts == 1 and n_ref == 1:
        exp = single
    if "${" not in s:
        exp = s
    g.log.append(repr(s))
    got = outcome(lambda: mk(s).x)
    check(got[0] == "ret", "the value of %r raises %s: %s", s, okind(got), str(got[1])[:200] if got[0] == "exc" else "")
    check(tv(got[1]) == tv(exp), "the value of %r is %r, expected %r", s, got[1], exp)


SIMPLE = re.compile(r"\$\{[ \t]*([rsnfe])[ \t]*\}")


def scan(s):
    """value of a text whose interpolations are all references to single letter nodes; None if not of this kind"""
    out, i, parts, val = [], 0, 0, None
    for m in iter(lambda: re.compile(r"(\\*)\$\{").search(s, i), None):
        lit = s[i:m.start()]
        n = len(m.group(1))
        out.append(lit)
        parts += bool(lit)
        if n % 2:
            out.append("\\" * (n // 2) + "${")
            parts += 1
            i = m.end()
            continue
        mm = SIMPLE.match(s, m.end() - 2)
        if not mm:
            return None
        out.append("\\" * (n // 2) + str(RVAL[mm.group(1)]))
        parts += 1 + bool(n)
        val = (RVAL[mm.group(1)],)
        i = mm.end()
    out.append(s[i:])
    parts += bool(s[i:])
    return (val[0],) if parts == 1 and val else ("".join(out),)


def c_soup(g):
    s = "".join(g.pick(["\\", "\\", "\\\\", "$", "{", "}", "a", "${r}", "${s}", "${ n }", "${", " ", "'", "r", "??", "\n"]) for _ in range(g.r.randrange(1, 9)))
    if s == "???" or not s:
        return
    g.log.append(repr(s))
    if "${" not in s:
        check(mk(s).x == s, "the value of %r is %r", s, mk(s).x)
        return
    exp = scan(s)
    c = outcome(lambda: mk(s))
    if exp is None:
        if c[0] == "exc":
            check(isinstance(c[1], oe.GrammarParseError), "%r raises %s", s, okind(c))
        return
    check(c[0] == "ret", "creating %r raises %s", s, okind(c))
    got = outcome(lambda: c[1].x)
    check(got[0] == "ret" and tv(got[1]) == tv(exp[0]), "the value of %r is %s, expected %r", s, got, exp[0])


def c_mutate(g):
    """a malformed expression raises a grammar error when the value is set, nothing else, and never later"""
    setup()
    try:
        es = [elem(g) for _ in range(g.r.randrange(0, 3))]
        k = g.r.randrange(4)
        if k == 0:
            text = "${rec:" + ",".join(e[0] for e in es) + "}"
        elif k == 1:
            text = "${" + g.pick(["r", "a.b", "..s", "[a].b[c]", "${s}.x", "a[0]", "x-y", "$a", "a b", "0", "é", "foo:", "oc.env:X,y", "rec:a,\nb", "\nr", "rec:\n1", "r\r", "rec\n:1", ":1", ": ", "rec:a ,b", "r\f", "r.", "a..b", "a[b]c", ""]) + "}"
        elif k == 2:
            text = "a${r}" + g.pick(["", "${s}", "${rec:1}"]) + g.pick(["", "b", "}"])
        else:
            text = "${" + "".join(g.pick(["a", ".", "[", "]", ":", ",", " ", "$", "1", "-", "{", "}", "'", "\\", "\t", "é", "_", "=", "(", "\n", "${", "@", "*", "?", "&", "!", "|"]) for _ in range(g.r.randrange(0, 7))) + "}"
        t = list(text)
        for _ in range(g.r.randrange(0, 3)):
            i = g.r.randrange(len(t) + 1)
            j = g.r.randrange(4)
            if j == 0 and i < len(t):
                del t[i]
            elif j == 1:
                t.insert(i, g.pick(["$", "{", "}", "[", "]", ":", ",", ".", "'", '"', "\\", " ", "a", "1", "${", "\n", "é", "&", "="]))
            elif j == 2 and i < len(t):
                t[i] = g.pick(["}", "{", "'", " ", ":", ".", "x"])
            elif j == 3 and i < len(t):
                t.insert(i, t[i])
        text = "".join(t)
        if text == "???":
            return
        g.log.append(repr(text))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = outcome(lambda: mk(text))
            if c[0] == "exc":
                check(isinstance(c[1], oe.GrammarParseError), "creating %r raises %s: %s", text, okind(c), str(c[1])[:300])
                # the parser still works
                check(mk("${r}").x == 5, "after the malformed %r", text)
                return
            got = outcome(lambda: c[1].x)
            if got[0] == "exc":
                check(not isinstance(got[1], oe.GrammarParseError), "%r was accepted, but reading it raises %s", text, okind(got))
                check(isinstance(got[1], oe.OmegaConfBaseException), "reading %r raises %s: %s", text, okind(got), str(got[1])[:300])
            elif "${" not in text:
                check(got[1] == text, "the value of %r is %r", text, got[1])
            # the same through every way of setting
            d = OmegaConf.create({"x": 1})
            d.x = text
            check(d._get_node("x")._value() == text, "assigned %r, stored %r", text, d._get_node("x")._value())
    finally:
        OmegaConf.clear_resolvers()


def c_seq(g):
    """parsing does not depend on what was parsed before"""
    setup()
    try:
        es = [elem(g) for _ in range(4)]
        bad = ["${", "${a", "${rec:'}", "${rec:[1}", "${rec:{a:}}", "${a.}", "${:}", "${rec:\"x}"]
        for t, v in es:
            if g.p(0.5):
                outcome(lambda: mk(g.pick(bad)))
            del SEEN[:]
            text = "${rec:" + t + "}"
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = outcome(lambda: mk(text).x)
            check(got[0] == "ret" and len(SEEN) == 1, "%r: %s", text, got)
            a = SEEN[0][0]
            check(tv(plain(a) if isinstance(a, Node) else a) == tv(v), "the argument of %r is %r, expected %r", text, a, v)
            pt = outcome(lambda: OmegaConf.create({"k": "${ " + "s" + " }", "s": 3}).k)
            check(pt == ("ret", 3), "%s", pt)
    finally:
        OmegaConf.clear_resolvers()


from h_c10 import c_twice


CASES = [("args", 5000, c_args), ("top", 5000, c_top), ("soup", 6000, c_soup), ("mutate", 5000, c_mutate), ("seq", 600, c_seq), ("nested", 500, c_twice)]
