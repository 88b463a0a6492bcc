"""Path-sensitive dataflow over the functions that turn texts into numbers,
times and truth values.  A text is a tape: reading a number at a position
gives a number and the position behind it, so that what each path returns is
a term over the tape, which is evaluated for texts of each shape."""
import math
import re

import own
import pp
import terms
import trans
from absint import Engine, State, ZERO, mentions
from prog import AnchorGone

S = ("o", "text")
OUT = ("o", "result")
START = ("op", "fn", "start")
READ = {"g_strtod", "g_ascii_strtod", "strtod", "g_ascii_strtoll",
        "g_ascii_strtoull", "strtoll", "strtoull"}
SECOND = 10 ** 9
M63, M64 = 2 ** 63, 2 ** 64


class Pol(own.Fill):
    strips = False

    def call(self, eng, st, c):
        v = [eng.rv(st, a) for a in c.args]
        name = c.name
        if "strip" in name:
            self.strips = True
        if name in ("c_str", "data") and len(v) == 0:
            return [(START, st)]
        if name in ("g_strdup", "strdup", "g_strchomp", "g_strchug",
                    "g_strstrip"):
            if "dup" not in name:
                st.emit("strip", name)
            return [(v[0], st)]
        if name in READ:
            kind = "integer" if "ll" in name else "number"
            if kind == "integer":
                n = ("op", "fn", kind, v[0], v[2],
                     ("int", int("ull" in name)))
            else:
                n = ("op", "fn", kind, v[0])
            end = ("op", "fn", "end of " + kind, v[0]) + \
                ((v[2],) if kind == "integer" else ())
            if v[1] != ZERO:
                if v[1][0] not in ("ptr", "loc"):
                    raise AnchorGone("the end of a number")
                eng.store(st, v[1][1], end)
            return [(n, st)]
        if name in ("g_str_equal", "strcmp", "g_strcmp0",
                    "g_ascii_strcasecmp", "strcasecmp") and \
                not (c.recv is not None and c.cls):
            return [(("op", "fn", name) + tuple(v), st)]
        if c.q in ("ginga::xstrcaseeq", "ginga::xstrcasecmp"):
            return None
        if name in ("lround", "round", "floor", "ceil", "lrint", "llround",
                    "rint", "trunc"):
            return [(("op", "fn", name) + tuple(v), st)]
        return own.Fill.call(self, eng, st, c)


# -- the tape ---------------------------------------------------------------

BASE = 4096         # where the text lies
NUM = re.compile(r"\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?")
INT = {10: re.compile(r"\s*[-+]?\d+"),
       16: re.compile(r"\s*[-+]?(0[xX](?=[0-9a-fA-F]))?[0-9a-fA-F]+")}


def away(d):
    """Rounding half away from zero."""
    return int(math.floor(abs(d) + .5)) * (1 if d >= 0 else -1)


def tape(text, extra=()):
    def at(i):
        if isinstance(i, float) or not BASE <= i <= BASE + len(text):
            raise terms.Opaque(("outside of the text", i))
        return text[i - BASE:]

    def m(r, i):
        x = r.match(at(i))
        return x.group() if x else ""

    def base(b):
        if b not in INT:
            raise terms.Opaque(("base", b))
        return INT[b]

    def integer(i, b, unsigned):
        x = int(m(base(b), i) or "0", b)
        return min(max(x, 0), M64 - 1) if unsigned else \
            min(max(x, -M63), M63 - 1)

    def txt(x):
        return x if isinstance(x, str) else at(x)

    def cmp(f):
        def g(a, b):
            a, b = f(txt(a)), f(txt(b))
            return (a > b) - (a < b)
        return g

    def even(d):
        return float(round(d))

    def div(a, b):
        if isinstance(a, float) or isinstance(b, float):
            return a / b
        return int(a / b)
    same, low = lambda x: x, str.lower
    return {**dict(extra), **{
        ("fn", "start"): lambda: BASE, ("fn", "rest"): txt,
        ("ptr", S): text, ("at", S): text, S: text,
        ("op", "size", ("ptr", S)): len(text),
        ("fn", "number"): lambda i: float(m(NUM, i) or 0),
        ("fn", "integer"): integer,
        ("fn", "end of number"): lambda i: i + len(m(NUM, i)),
        ("fn", "end of integer"): lambda i, b: i + len(m(base(b), i)),
        ("fn", "char"): lambda i: ord(at(i)[0]) if at(i) else 0,
        ("fn", "g_str_equal"): lambda a, b: int(txt(a) == txt(b)),
        ("fn", "strcmp"): cmp(same), ("fn", "g_strcmp0"): cmp(same),
        ("fn", "g_ascii_strcasecmp"): cmp(low),
        ("fn", "strcasecmp"): cmp(low),
        ("fn", "lower"): lambda x: txt(x).lower(),
        ("fn", "/"): div,
        ("fn", "lround"): away, ("fn", "llround"): away,
        ("fn", "round"): lambda d: float(away(d)),
        ("fn", "floor"): lambda d: float(math.floor(d)),
        ("fn", "ceil"): lambda d: float(math.ceil(d)),
        ("fn", "trunc"): lambda d: int(d),
        ("fn", "lrint"): even, ("fn", "rint"): even,
    }}


def conv(t):
    """The term with what lies in the text as functions of the position."""
    if isinstance(t, frozenset):
        return frozenset(conv(x) for x in t)
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("at",) and len(t) == 2 and t[1][0] == "d":
        return ("op", "fn", "char", conv(t[1][1]))
    if t[:1] == ("at",) and len(t) == 2 and t[1][0] == "e" and \
            t[1][1][0] == "d":
        return ("op", "fn", "char", ("op", "+", conv(t[1][1][1]),
                                     conv(t[1][2])))
    if t[:1] == ("op",) and t[1] in ("/", "trunc", "lower"):
        return ("op", "fn") + tuple(conv(x) for x in t[1:])
    return tuple(conv(x) for x in t)


def equal(a, b, env):
    if isinstance(a, str) != isinstance(b, str):    # a position stands for
        a, b = (env[("fn", "rest")](x) for x in (a, b))     # what follows it
    return a == b


def holds(facts, env):
    """As terms.holds, but a fact that is not understood is an error."""
    for k, v in facts.items():
        if k[0] == "val":
            if not equal(terms.ev(k[1], env), v[1], env):
                return False
        elif k[0] == "ne":
            x = terms.ev(k[1], env)
            if any(equal(x, y[1], env) for y in v
                   if y[0] in ("int", "flt", "str")):
                return False
        elif k[0] in ("eq", "lt"):
            a, b = terms.ev(k[1], env), terms.ev(k[2], env)
            if (equal(a, b, env) if k[0] == "eq" else a < b) != v:
                return False
    return True


def differ(got, want):
    if isinstance(want, float):
        return abs(got - want) > abs(want) * 1e-9
    return got != want


# -- the functions ------------------------------------------------------------

class Fun:
    """The paths of one function."""

    def __init__(self, ctx, q, *args):
        self.ctx, self.q = ctx, q
        self.pol = pol = Pol(ctx.p, None)
        eng = Engine(ctx.p, pol)
        self.fn = ctx.p.fn1(q, len(args))
        res = eng.run(self.fn, list(args), State(), None)
        ctx.saw(eng.analysed)
        ctx.count("functions")
        ctx.count("paths", len(res))
        self.paths = []
        for v, st in res:
            strip = {e[1] for e in st.trace if e[0] == "strip"}
            self.paths.append((conv(v), conv(eng.load(st, OUT)),
                               {conv(k): conv(x) for k, x in
                                st.facts.items()}, strip, st))

    def at(self, text, env=()):
        """[(result, what was stored)] for a text; None when not decided."""
        got = []
        for v, out, facts, strip, st in self.paths:
            t = text
            if strip & {"g_strchomp", "g_strstrip"}:
                t = t.rstrip()
            if strip & {"g_strchug", "g_strstrip"}:
                t = t.lstrip()
            e = tape(t, env)
            try:
                if not holds(facts, e):
                    continue
                r = terms.ev(v, e)
                o = None if out == ("at", OUT) else terms.ev(out, e)
            except (terms.Opaque, TypeError, ValueError, OverflowError):
                self.ctx.count("undecided")
                return None
            got.append((r, o, st))
        return got

    def must(self, text, want, env=(), stored=None, what="", aborts=False):
        """For the text the result is want and stored is stored."""
        ctx = self.ctx
        ctx.count("obligations")
        got = self.at(text, env)
        if got is None:
            return
        lab = "%s: for the text '%s'%s" % (self.fn.where(), text, what)
        key = "%s '%s'%s" % (self.q, text, what)
        if not got and not aborts:
            ctx.violation(key, lab + " there is no result", "")
        for r, o, st in got:
            if aborts:
                ctx.violation(key, "%s there is a result, %s" % (lab, r), "")
            elif want is not None and differ(r, want):
                ctx.violation(key, "%s the result is %s, not %s" % (
                    lab, r, want), "facts: " + "; ".join(pp.facts(st.facts)))
            elif stored is not None and (
                    o is None or differ(o, stored)):
                ctx.violation(key, "%s what is stored is %s, not %s" % (
                    lab, o, stored),
                    "facts: " + "; ".join(pp.facts(st.facts)))


NUMBERS = [("0", 0), ("7", 7), ("12.4", 12.4), ("12.5", 12.5),
           ("-2.5", -2.5), ("99", 99), ("100", 100), ("1e2", 100),
           ("640px", 640),
           (" 5", 5), ("-40", -40), ("3000", 3000), ("", 0), ("abc", 0)]


def percents(ctx):
    b, lo, hi = ("sym", "base"), ("sym", "min"), ("sym", "max")
    f = Fun(ctx, "ginga::parse_percent", ("ptr", S), b, lo, hi)
    g = Fun(ctx, "ginga::parse_pixel", ("ptr", S))
    h = Fun(ctx, "ginga::xstrtodorpercent", ("ptr", S), ("ptr", OUT))
    n = Fun(ctx, "ginga::xstrtodorpercent", ("ptr", S), ZERO)
    k = Fun(ctx, "ginga::xstrispercent", ("ptr", S))
    d = Fun(ctx, "ginga::xstrtod", ("ptr", S))
    for text, x in NUMBERS:
        for pc in (False, True):
            if pc and (not text or text.endswith(("px", "abc"))):
                continue
            t = text + "%" * pc
            y = x / 100. if pc else x
            h.must(t, y, stored=int(pc))
            n.must(t, y)
            for base, mn, mx in ((5, -100, 2000), (640, 0, 1000),
                                 (255, 0, 255), (100, -50, 50)):
                z = min(max(away(y * base if pc else y), mn), mx)
                f.must(t, z, {b: base, lo: mn, hi: mx},
                       what=" of %d within %d and %d" % (base, mn, mx))
            g.must(t, min(max(away(y * 255 if pc else y), 0), 255))
            if text not in ("", "abc"):
                k.must(t, int(pc))
                d.must(t, x)
    for t in ("%", "", "abc", "50"):
        k.must(t, 0)
    for t in ("abc", ""):
        d.must(t, None, aborts=True)


def integers(ctx):
    p = ctx.p
    for name, lo, hi in (
            ("int", -2 ** 31, 2 ** 31 - 1), ("int8", -128, 127),
            ("int64", -M63, M63 - 1), ("uint", 0, 2 ** 32 - 1),
            ("uint8", 0, 255), ("uint64", 0, M64 - 1)):
        for base in (10, 16):
            f = Fun(ctx, "ginga::xstrto" + name, ("ptr", S), ("int", base))
            for t in ("0", "7", "12", "99", "127", "128", "255", "256",
                      "300", "2147483648", "4294967296", "12 apples",
                      "99999999999999999999"):
                f.must(t, min(max(int(t.split()[0], base), lo), hi),
                       what=" in base %d" % base)
            if not name.startswith("u"):
                for t in ("-1", "-129", "-2147483649"):
                    f.must(t, min(max(int(t, base), lo), hi),
                           what=" in base %d" % base)
            for t in ("", "zzz"):
                f.must(t, None, aborts=True, what=" in base %d" % base)


TIMES = [("0", 0), ("5", 5), ("5s", 5), ("1.5s", 1.5), ("90", 90), ("5s ", 5),
         ("5 ", 5), (" 5s", 5), ("1:2:3", 3723), ("0:0:1.5", 1.5),
         ("10:0:0", 36000), ("0:90:0", 5400), ("1:2:3\n", 3723),
         ("2000s", 2000), ("0.25", .25)]
WRONG = ["abc", "5m", "1:2", "1:2:", "1:2:3s", "1:2:3:4", "5ss", "5s5",
         "1;2;3", "1:2;3"]


def times(ctx):
    f = Fun(ctx, "ginga::try_parse_time", ("ptr", S), ("ptr", OUT))
    n = Fun(ctx, "ginga::try_parse_time", ("ptr", S), ZERO)
    g = Fun(ctx, "ginga::parse_time", ("ptr", S))
    for t, x in TIMES:
        f.must(t, 1, stored=float(x * SECOND))
        n.must(t, 1)
        g.must(t, float(x * SECOND))
    for t in WRONG:
        if t != "1:2:":
            f.must(t, 0)
            n.must(t, 0)
            g.must(t, None, aborts=True)


def truths(ctx):
    f = Fun(ctx, "ginga::try_parse_bool", ("ptr", S), ("ptr", OUT))
    n = Fun(ctx, "ginga::try_parse_bool", ("ptr", S), ZERO)
    g = Fun(ctx, "ginga::parse_bool", ("ptr", S))
    for t, x in (("true", 1), ("false", 0), ("TRUE", 1), ("False", 0),
                 ("tRuE", 1), ("FALSE", 0)):
        f.must(t, 1, stored=x)
        n.must(t, 1)
        g.must(t, x)
    for t in ("", "0", "1", "yes", "tru", "trues", "truefalse", "f"):
        f.must(t, 0)
        n.must(t, 0)
        g.must(t, None, aborts=True)


def sizes(t):
    """The containers whose size occurs in a term."""
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t[:2] == ("op", "size") and \
                t[2][0] == "v":
            return {t[2]}
        return set().union(*(sizes(x) for x in t)) if t else set()
    return set()


def lists(ctx):
    """A list has between min and max items, each of them stripped."""
    sep, lo, hi = ("sym", "sep"), ("sym", "min"), ("sym", "max")
    for out in (("ptr", OUT), ZERO):
        f = Fun(ctx, "ginga::try_parse_list", ("ptr", S), sep, lo, hi, out)
        cases = [(v, facts, st, sizes(tuple(facts.items())) | sizes(v))
                 for v, o, facts, strip, st in f.paths]
        if not any(c[3] for c in cases):    # counted in some other way
            ctx.count("undecided")
            if not any(mentions((v, tuple(facts.items())), x)
                       for v, facts, st, ids in cases for x in (lo, hi)):
                ctx.violation("list limits", "%s: the number of items is of "
                              "no concern%s" % (f.fn.where(), "" if out != ZERO
                              else " when the items are not wanted"), "")
            continue
        for n in range(7):
            for mn, mx in ((0, 9), (2, 2), (4, 4), (1, 3), (0, 0), (2, 9)):
                ctx.count("obligations")
                want = int(mn <= n <= mx)
                lab = "%d items where %d to %d are wanted" % (n, mn, mx)
                for v, facts, st, ids in cases:
                    if bool(ids) != (n > 0):
                        continue
                    env = {lo: mn, hi: mx, sep: 44}
                    env.update({("op", "size", i): n for i in ids})
                    # what the caller's list holds does not matter
                    fs = {k: x for k, x in facts.items()
                          if k[0] != "empty" and not mentions(k, OUT)}
                    try:
                        if not holds(fs, env):
                            continue
                        r = int(terms.ev(v, env))
                    except (terms.Opaque, TypeError, KeyError):
                        ctx.count("undecided")
                        continue
                    if r != want:
                        ctx.violation("list count", "%s: %s: the result is "
                                      "%d" % (f.fn.where(), lab, r),
                                      "facts: " + "; ".join(pp.facts(facts)))
                    elif r and n and out != ZERO:
                        items(ctx, f, st, lab)


def items(ctx, f, st, lab):
    for e in st.trace:
        if e[0] != "each" or e[1][0] != "v":
            continue
        passes = [[x for x, _ in trans.flat(g) if x[0] == "put"]
                  for g in e[3]]
        for puts in passes if any(passes) else ():
            if len(puts) != 1 or not e[4]:
                ctx.violation("list items", "%s: %s: items are left out or "
                              "taken twice" % (f.fn.where(), lab),
                              pp.trace(st.trace))
            elif puts[0][3][0] in ("at", "elem") and not f.pol.strips:
                ctx.violation("list strip", "%s: %s: the space around items "
                              "is kept" % (f.fn.where(), lab),
                              pp.trace(st.trace))
            elif puts[0][1] in ("push_front", "emplace_front"):
                ctx.violation("list order", "%s: %s: items are reversed" % (
                    f.fn.where(), lab), pp.trace(st.trace))


def check(ctx):
    lists(ctx)
    percents(ctx)
    integers(ctx)
    times(ctx)
    truths(ctx)
    ctx.rule("over a text that is a tape of numbers and characters, the term "
             "that each path returns or stores is the number, the share of "
             "the base, the time or the truth value that the text denotes")
