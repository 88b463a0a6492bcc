"""Path-sensitive dataflow over the handlers of regions, descriptors,
transitions and descriptor parameters: what becomes of their attributes is
compared, as strings and rational functions, with what it should be."""
import services
import re
from fractions import Fraction
import nodes
import pp
import trans
from absint import ZERO, ONE
from nodes import ELT, PAR, ST, SCOPE, fnv, attr
from checks.P04 import truth, of, complete

E = ("ptr", ELT)
DEFAULTS = {"subtype": "", "dur": "0", "startProgress": "0",
            "endProgress": "0", "direction": "forward", "fadeColor": "",
            "horzRepeat": "0", "vertRepeat": "0", "borderWidth": "0",
            "borderColor": ""}


# -- texts

def parts(v):
    """A text as a sequence of literals and values."""
    if v[0] == "str":
        return [v[1]] if v[1] else []
    if v[0] == "op" and v[1] in ("cat", "append"):
        out = []
        for x in v[2:]:
            out += parts(x)
        return out
    if v[:2] == ("op", "fn") and v[2].endswith("xstrbuild"):
        if v[3][0] == "str":
            fs = re.split(r"(%%|%s)", v[3][1])
            if not any("%" in x for x in fs if x not in ("%%", "%s")) and \
                    len([x for x in fs if x == "%s"]) == len(v) - 4:
                out, i = [], 4
                for x in fs:
                    if x == "%s":
                        out += parts(v[i])
                        i += 1
                    elif x:
                        out.append("%" if x == "%%" else x)
                return out
    if v[0] == "int":
        return [str(v[1])]
    return [v]


def record(v):
    """{name: value} of a text "{name='value',...}", or None."""
    text, vals = "", []
    for x in parts(v):
        if isinstance(x, str):
            text += x
        else:
            text += "\0%d\1" % len(vals)
            vals.append(x)
    m = re.match(r"\s*\{(.*)\}\s*$", text, re.S)
    if not m:
        return None
    out = {}
    rest = m.group(1)
    while rest.strip():
        m = re.match(r"\s*(\w+)\s*=\s*(?:'([^']*)'|\"([^\"]*)\")\s*(,|$)",
                     rest, re.S)
        if not m or m.group(1) in out:
            return None
        t = m.group(2) if m.group(2) is not None else m.group(3)
        k = re.match("\0(\\d+)\1$", t)
        out[m.group(1)] = vals[int(k.group(1))] if k else ("str", t)
        rest = rest[m.end():]
    return out


# -- numbers

class Num:
    """Rational functions, compared by their value at a few points."""

    def __init__(self, salt):
        self.salt, self.vals = salt, {}

    def leaf(self, v):
        if v not in self.vals:
            import hashlib
            h = hashlib.sha256((self.salt + repr(v)).encode()).hexdigest()
            self.vals[v] = Fraction(int(h[:10], 16) % 99991 + 1,
                                    int(h[10:20], 16) % 97 + 1)
        return self.vals[v]

    def ev(self, v):
        if v[0] == "int":
            return Fraction(v[1])
        if v[0] == "flt":
            return Fraction(v[1]).limit_denominator(10 ** 6)
        if v[0] == "op" and v[1] in ("+", "-", "*", "/") and len(v) == 4:
            a, b = self.ev(v[2]), self.ev(v[3])
            if v[1] == "+":
                return a + b
            if v[1] == "-":
                return a - b
            if v[1] == "*":
                return a * b
            return a / b if b else None
        if v[0] == "op" and v[1] in ("neg", "u-") and len(v) == 3:
            return -self.ev(v[2])
        if v[0] == "op" and v[1] == "cast":
            return self.ev(v[-1])
        return self.leaf(v)


def same(a, b):
    for salt in ("a", "b", "c"):
        n = Num(salt)
        try:
            if n.ev(a) != n.ev(b):
                return False
        except (TypeError, ZeroDivisionError):
            return False
    return True


def op(o, a, b):
    return ("op", o, a, b)


# -- regions

PEEK = fnv("rect")


def side(r, n):
    return ("fld", r, n)


def percent(name, base):
    return fnv("parse_percent", attr(E, name), base, ZERO,
               ("int", 2 ** 31 - 1))


def isscreen(v):
    """The first rectangle of the stack."""
    return v[0] == "at" and v[1][0] == "elem" and \
        trans.norm(v[1][1])[0] == "fld" and v[1][2][0] == "cur" and \
        v[1][2][2] == ("pop", "front") and \
        trans.norm(v[1][1])[2] == "_rectStack"


def rewrite(v):
    """The screen is named; a percentage is of a string and a number."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "at" and isscreen(v):
        return ("sym", "screen")
    if v[:2] == ("op", "fn") and v[2].endswith("parse_percent"):
        return ("op", "fn", "parse_percent") + tuple(
            rewrite(x) for x in v[3:])
    return tuple(rewrite(x) for x in v)


SCREEN = ("sym", "screen")


def region(pol, eng, st):
    has = {}
    for n in ("left", "right", "top", "bottom", "width", "height"):
        k = ("attr", E, ("str", n))
        b = has[n] = st.facts.get(("at first",) + k, st.facts.get(k))
        if b not in (True, False):
            return "the attribute %s is not regarded" % n
    sets = [e for e, i in trans.flat(st.trace) if e[0] == "setattr"]
    got = {}
    for e in sets:
        if e[1] != E or e[2][0] != "str" or e[2][1] in got:
            return "it sets %s of %s" % (pp.val(e[2]), pp.val(e[1]))
        got[e[2][1]] = e[3]
    push = [e for e, i in trans.flat(st.trace)
            if e[0] == "rectStackPush"]
    if len(push) != 1:
        return "%d rectangles are pushed" % len(push)
    want = {}
    for x, size, a, b in (("x", "width", "left", "right"),
                          ("y", "height", "top", "bottom")):
        full = side(PEEK, size)
        w = percent(size, full) if has[size] else full
        p = side(PEEK, x)
        if has[a] and has[b]:
            p = None        # over-determined
        elif has[a]:
            p = op("+", p, percent(a, full))
        elif has[b]:
            p = op("+", p, op("-", op("-", full, w), percent(b, full)))
        total = side(SCREEN, size)
        want[size] = op("*", op("/", w, total), ("int", 100))
        if p is None:
            p = rewrite(nodes.field(push[0][1], x))
        else:
            want[a] = op("*", op("/", p, total), ("int", 100))
        if has[b]:
            want[b] = op("*", op("/", op("-", op("-", total, p), w), total),
                         ("int", 100))
        for n, v in ((x, p), (size, w)):
            if not same(rewrite(nodes.field(push[0][1], n)), v):
                return "the %s of the rectangle is %s" % (
                    n, pp.val(nodes.field(push[0][1], n)))
    for n, v in want.items():
        x = got.get(n)
        if x is None:
            return "%s is not set" % n
        y = number(x)
        if y is None or not same(rewrite(y), v):
            return "%s becomes %s" % (n, pp.val(x))
    z = got.get("zOrder")
    n = number(z, "") if z is not None else None
    if n is None:
        return "zOrder becomes %s" % (pp.val(z) if z else "nothing")
    # the next region is above this one
    if not any(counter(l) and same(v, op("+", n, ONE))
               for l, v in st.mem.items()):
        return "zOrder does not grow from region to region"
    return None


def counter(l):
    while l[0] == "f":
        if l[1] == ST:
            return True
        l = l[1]
    return l[0] == "g"


def number(v, unit="%%"):
    """The number that the text v is, followed by the unit."""
    if v[:2] == ("op", "fn") and v[2].endswith("xstrbuild") and \
            len(v) == 5 and v[3][0] == "str" and re.match(
                r"%%[-0-9.l]*[dufg]%s$" % unit, v[3][1]):
        return v[4]
    if v[:2] == ("op", "fn") and v[2].endswith("to_string"):
        return v[3] if not unit else None
    if v[:2] == ("op", "cat") and v[3] == ("str", "%") and unit:
        return number(v[2], "")
    return v if v[0] == "int" and not unit else None


def popregion(pol, eng, st):
    n = len([e for e, i in trans.flat(st.trace) if e[0] == "rectStackPop"])
    return None if n == 1 else "%d rectangles are popped" % n


def param(pol, eng, st):
    s = [e for e, i in trans.flat(st.trace) if e[0] == "setattr"]
    if [e[1:4] for e in s] != [(("ptr", PAR), attr(E, "name"),
                                attr(E, "value"))]:
        return "the descriptor gets %s" % "; ".join(pp.event(e) for e in s)
    return None


# -- descriptors and media, when the document ends

def end(pol, eng, st, cur):
    """What is known about an element when an iteration leaves it."""
    i = trans.norm(cur[1])
    x = ("at", ("elem", cur[1], cur))
    if i[:3] == ("op", "fn", "elements"):
        return ("elt", x, frozenset((k, v) for k, v in st.facts.items()
                                    if k[0] in ("attr", "found",
                                                "at first")))
    if attrsof(i):
        name = ("fld", x, "first")
        return ("left", x) + tuple(
            truth(eng, st, name, ("str", n)) for n in ("id", "region")) + (
                frozenset(k[1][3] for k, v in st.facts.items()
                          if k[0] == "ne" and ZERO in v and
                          k[1][:3] == ("op", "fn", "getAttributionEvent")
                          and k[1][4] == name),)
    return None


def attrsof(i):
    """The element whose attributes i is."""
    i = trans.norm(i)
    if i[0] == "at" and i[1][0] == "d":
        i = i[1][1]
    if i[:3] == ("op", "fn", "attrs"):
        return i[3]
    return None


def note(pol, eng, st, n, a):
    """What is known when a media gets a property."""
    if n not in ("addAttributionEvent", "setProperty"):
        return None
    return ("had", a[0], a[1], truth(
        eng, st, fnv("getAttributionEvent", a[0], a[1]), ZERO))


def loops(st, tag):
    els = ("op", "fn", "elements", (tag,))
    return [e for e in st.trace if e[0] == "each" and
            trans.norm(e[1]) == els]


def unique(xs):
    return xs[0] if len(xs) == 1 else None


def fact(know, *key):
    know = dict(know)
    b = know.get(("at first",) + key, know.get(key))
    return None if b == "?" else b


def descriptors(pol, eng, st):
    """Descriptors get what the regions and transitions they refer to have."""
    els = ("op", "fn", "elements", ("descriptor",))
    if st.facts.get(("empty", els)):
        return None
    done = set()
    for lp in loops(st, "descriptor"):
        mine = set()
        for s in lp[3]:
            k = [e for e in s if e[0] == "know" and e[1] == "elt"]
            if len(k) != 1 or not complete(lp):
                return "not all descriptors are gone through"
            r = descriptor(pol, eng, st, s, k[0][2], k[0][3], els)
            if isinstance(r, str):
                return r
            mine |= r
        if mine & done:
            return "descriptors get their attributes twice"
        done |= mine
    for n in ("region", "transIn", "transOut"):
        if n not in done:
            return "descriptors get nothing from their %s" % n
    return None


def descriptor(pol, eng, st, s, d, know, els):
    done = set()
    sets = []
    for e in s:
        if e[0] == "setattr":
            sets.append(e)
        elif e[0] == "do":
            return "something else is done: %s" % pp.event(e)
    # the region
    has = fact(know, "attr", d, ("str", "region"))
    owner = fnv("byid", attr(d, "region"), ("region",))
    each = [e for e in s if e[0] == "each" and any(
        x[0] == "setattr" for y in e[3] for x in y)]
    if has is not None or each:
        done.add("region")
        mine = [e for e in s if e[0] == "each" and attrsof(e[1]) == owner]
        if has is None:
            return "attributes are copied without regard to the region"
        if each and (not has or each != mine):
            return "attributes of %s are copied" % pp.val(
                attrsof(each[0][1]) or each[0][1])
        if has:
            if fact(know, "found", owner) is not True:
                return "the region may not be there"
            if len(mine) > 1 or mine and not complete(mine[0]):
                return "not all attributes of the region are copied, once"
            if not mine and st.facts.get(("empty", owner)) is False:
                return "the attributes of the region are not copied"
            for seg in mine[0][3] if mine else ():
                w = copied(seg, d)
                if w:
                    return w
    # the transitions
    for n in ("transIn", "transOut"):
        has = fact(know, "attr", d, ("str", n))
        mine = [e for e in sets if e[2] == ("str", n)]
        sets = [e for e in sets if e not in mine]
        if has is None and not mine:
            continue
        done.add(n)
        if has is None:
            return "%s is set without regard to whether there is one" % n
        if not has:
            if mine:
                return "%s is set though there is none" % n
            continue
        t = fnv("byid", attr(d, n), ("transition",))
        if fact(know, "found", t) is not True:
            return "the transition may not be there"
        if len(mine) != 1 or mine[0][1] != d:
            return "%s is set %d times" % (n, len(mine))
        got = record(mine[0][3])
        if got is None:
            return "%s becomes %s" % (n, pp.val(mine[0][3])[:300])
        want = {"type": attr(t, "type")}
        given = pol.present["transition"]
        for a, v in DEFAULTS.items():
            want[a] = attr(t, a) if a in given else ("str", v)
        for a in sorted(set(got) | set(want)):
            if got.get(a) != want.get(a):
                return "the %s of %s becomes %s, not %s" % (
                    a, n, pp.val(got[a]) if a in got else "nothing",
                    pp.val(want[a]) if a in want else "nothing")
    if sets:
        return "it sets %s" % "; ".join(pp.event(e) for e in sets)[:300]
    return done


def copied(seg, d):
    k = unique([e for e in seg if e[0] == "know" and e[1] == "left"])
    do = [e for e in seg if e[0] in ("setattr", "do", "each")]
    if k is None:
        return "not all attributes of the region are copied"
    x, isid = k[2], k[3]
    if not do:
        if isid is not True:
            return "an attribute other than the id is not copied"
        return None
    if isid is not False:
        return "the id of the region is copied"
    if [e[:4] for e in do] != [("setattr", d, ("fld", x, "first"),
                                ("fld", x, "second"))]:
        return "an attribute of the region becomes %s" % "; ".join(
            pp.event(e) for e in do)[:300]
    return None


def medias(pol, eng, st):
    els = ("op", "fn", "elements", ("media",))
    if st.facts.get(("empty", els)):
        return None
    done = set()
    for lp in loops(st, "media"):
        mine = set()
        for s in lp[3]:
            k = [e for e in s if e[0] == "know" and e[1] == "elt"]
            if len(k) != 1 or not complete(lp):
                return "not all media are gone through"
            r = media(pol, eng, st, s, k[0][2], k[0][3])
            if isinstance(r, str):
                return r
            mine |= r
        if mine & done:
            return "media get their descriptors twice"
        done |= mine
    for n in ("refer", "descriptor"):
        if n not in done:
            return "the %s of media is not used" % n
    return None


def media(pol, eng, st, s, m, know):
    done = set()
    r = fact(know, "attr", m, ("str", "refer"))
    if r is not None:
        done.add("refer")
        if r:
            x = fnv("byid", attr(m, "refer"), ("media",))
            if fact(know, "found", x) is not True:
                return "a media may refer to what is not there"
            if fact(know, "attr", x, ("str", "refer")) is not False:
                return "a media may refer to a reference"
    has = fact(know, "attr", m, ("str", "descriptor"))
    do = [e for e in s if e[0] in ("do", "setattr")]
    if do:
        return "a media gets %s" % pp.event(do[0])
    each = [e for e in s if e[0] == "each" and any(
        x[0] in ("do", "setattr") for y in e[3] for x in y)]
    if has is None and not each:
        return done
    done.add("descriptor")
    if has is None:
        return "properties are set without regard to the descriptor"
    d = fnv("byid", attr(m, "descriptor"), ("descriptor",))
    mine = [e for e in s if e[0] == "each" and attrsof(e[1]) == d]
    if each and (not has or each != mine):
        return "a media gets the attributes of %s" % pp.val(
            attrsof(each[0][1]) or each[0][1])
    if has:
        if fact(know, "found", d) is not True:
            return "the descriptor may not be there"
        if len(mine) != 1 or not complete(mine[0]):
            # the descriptor has at least its id
            return "not all attributes of the descriptor are used, once"
        for seg in mine[0][3]:
            w = given(pol, seg, m)
            if w:
                return w
    return done


def given(pol, seg, m):
    k = unique([e for e in seg if e[0] == "know" and e[1] == "left"])
    do = [e for e in seg if e[0] in ("do", "setattr", "each")]
    if k is None:
        return "not all attributes of the descriptor are used"
    x = k[2]
    name, value = ("fld", x, "first"), ("fld", x, "second")
    skip = k[3] is True or k[4] is True
    had = [e for e in seg if e[0] == "know" and e[1] == "had"]
    if not do:
        if not skip and not any(ismedia(o, m) for o in k[5]):
            return "an attribute of the descriptor is not used"
        return None
    if k[3] is not False:
        return "the id of the descriptor becomes a property"
    obj = do[0][2]
    if not had or had[0][2:4] != (obj, name) or had[0][4] is not True:
        return "a property of the media is overridden by its descriptor"
    if not ismedia(obj, m):
        return "%s gets the attributes" % pp.val(obj)
    if sorted((e[1].split("::")[1],) + e[2:5] for e in do) != [
            ("addAttributionEvent", obj, name),
            ("setProperty", obj, name, value)]:
        return "an attribute becomes %s" % "; ".join(
            pp.event(e) for e in do)[:300]
    return None


def ismedia(obj, m):
    return obj[:4] == ("op", "fn", "object", "ginga::Media") and \
        obj[5] == attr(m, "id")


REFS = [("descriptor", "region", "region"),
        ("descriptor", "transIn", "transition"),
        ("descriptor", "transOut", "transition"),
        ("media", "refer", "media"), ("media", "descriptor", "descriptor")]


def refused(pol, eng, st):
    """Is there a reference that cannot be?"""
    for k, v in st.facts.items():
        for t, n, to in REFS:
            i = k[1]
            if k[0] == "found" and v is False or k[0] == "attr" and \
                    v is True and to == t and k[2] == ("str", n):
                if i[:3] != ("op", "fn", "byid") or i[4] != (to,):
                    continue
                r = i[3]
                if r[:3] == ("op", "fn", "attr") and r[4] == ("str", n) and \
                        of(r[3], ("op", "fn", "elements", (t,))):
                    return None
    return "it is refused though its references are all right"


ENDS = {"region push": [region], "region pop": [popregion],
        "descriptorParam push": [param], "ncl descriptor": [descriptors],
        "ncl media": [medias]}


def kind(j):
    tag, par, which, top, kw = j
    if tag == "ncl":
        return "ncl " + " ".join(kw.get("only", [])) if which == "pop" \
            else None
    return tag + " " + which


def view(fn, eng, pol, res, job):
    bad = []

    def put(what, text, st):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), what, text,
                    pp.trace(st.trace)[:400] + " | " +
                    "; ".join(pp.facts(st.facts))[:300]))
    for v, st in res:
        if v == ZERO:
            if job[0] == "ncl":
                w = refused(pol, eng, st)
                if w:
                    put("refused", w, st)
            else:
                put("refused", "it is refused", st)
            continue
        for f in ENDS[kind(job)]:
            w = f(pol, eng, st)
            if w:
                put(f.__name__, w, st)
    if not any(v != ZERO for v, st in res):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), "never",
                    "it never succeeds", ""))
    return bad[:6]


def check(ctx):
    services.verify(ctx, "cache rects elements data")
    g, c, out = nodes.sweep(ctx, view, lambda j: kind(j) in ENDS,
                            locals=True, note=note, end=end)
    for j, bad in out:
        for q, where, what, text, tr in bad:
            ctx.violation("%s %s %s" % (q, j[0], what), "%s: %s: %s" % (
                where, nodes.describe(j), text), tr)
    ctx.require(len({kind(j) for j, b in out}), 5, "handlers of regions, "
                "descriptors and media")
    ctx.rule("a region has the sides that its attributes and its parent "
             "call for; a descriptor gets the attributes of its region and "
             "the records of its transitions; a media gets each attribute "
             "of its descriptor that it does not define")
