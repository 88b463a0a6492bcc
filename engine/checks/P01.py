"""The grammar of documents: checkNode against a generic entry of the syntax
table (every combination of flags that the table has), processNode, the
table itself, and what parses a document as a whole."""


import services
import nodes
import pp
import trans
from absint import Engine, State, ZERO, ONE
from models import VOID
from nodes import fnv, ST

SYN, NODE = ("o", "syntax"), ("o", "node")
ATTRS, KIDS = ("o", "attrs"), ("o", "kids")
SYNV, NODEV = ("ptr", SYN), ("ptr", NODE)
G = {}


class Pol(nodes.ServPol):
    chains = ("children", "properties")

    def service(self, eng, st, c, n, a):
        if n == "isInUniqueSet":
            return [(ONE if b else ZERO, s)
                    for b, s in self.fork(st, ("unique", a[0]))]
        if n == "addToUniqueSet":
            st.emit("unique", a[0])
            return [(VOID, st)]
        if n == "eltCacheAdd":
            st.emit("cache", a[0])
            return [(ONE, st)]
        if n == "checkNode":
            for x, k in zip(a[1:], ("attrsof", "kidsof")):
                if x[0] == "ptr":
                    eng.store(st, x[1], fnv(k, a[0]))
        return nodes.ServPol.service(self, eng, st, c, n, a)

    def call(self, eng, st, c):
        n = c.q.split("::")[-1]
        if n not in ("xmlGetPropAsString", "xmlIsValidName",
                     "parser_syntax_table_index", "<indirect>",
                     "parser_syntax_table_get_possible_children"):
            return nodes.ServPol.call(self, eng, st, c)
        a = [eng.rv(st, x) for x in c.args]
        out = []
        if n == "<indirect>":
            f = eng.rv(st, c.recv) if c.recv else None
            bad = st.copy()
            for s, b in ((st, True), (bad, False)):
                s.emit("handler", getattr(c, "fnval", f), *a)
                s.facts[("handled", len(s.trace))] = b
                if not b:
                    self.err(eng, s, "handler")
                out.append((ONE if b else ZERO, s))
            return out
        if n == "parser_syntax_table_get_possible_children":
            return [(fnv("possible", a[0]), st)]
        key, at, v = {
            "xmlGetPropAsString": (("prop",) + tuple(a[:2]), 2,
                                   fnv("prop", *a[:2])),
            "xmlIsValidName": (("valid", a[0]), None, None),
            "parser_syntax_table_index": (("known", a[0]), 1, SYNV)}[n]
        for b, s in self.fork(st, key):
            if b and at is not None and len(a) > at:
                self.set(eng, s, a[at], v)
            out.append((ONE if b else ZERO, s))
        return out

    def element(self, eng, st, cur):
        nodes.ServPol.element(self, eng, st, cur)
        if self.attr and trans.norm(cur[1]) == LISTED:
            e = ("elem", cur[1], cur)
            st.mem[("f", e, "flags")] = ("int", self.attr[1])
            if self.attr[0]:
                st.mem[("f", e, "name")] = ("str", self.attr[0])
            # The names of an element's attributes differ.
            n = eng.load(st, ("f", e, "name"))
            for k in [k for k in st.facts if k[0] == "has" and
                      k[2] == n and trans.norm(k[1]) in HAS]:
                del st.facts[k]

    def decides(self, v):
        return any(isparent(x) for x in v[2:]) or \
            v[2][0] == "op" and self.decides(v[2])

    def leaving(self, eng, st, cur):
        i = trans.norm(cur[1])
        e = ("elem", cur[1], cur)
        if i == LISTED:
            n = eng.load(st, ("f", e, "name"))
            st.trace += (("know", "attr", n) + self.facts(eng, st, n),)
        elif i[0] == "chain":
            n = eng.load(st, ("f", e, "name"))
            ty = eng.load(st, ("f", e, "type"))
            st.trace += (("know", i[2], ("ptr", e), cur) + self.links(
                eng, st, n, ty),)
        elif i == PARENTS:
            v = eng.load(st, e)
            st.trace += (("know", "parent",
                          same(eng, st, v, PARENT)),)

    def facts(self, eng, st, n):
        f = st.facts
        p = fnv("prop", NODEV, n)
        v = whole(p, self.attr[1] if self.attr else 0)
        return (f.get(("prop", NODEV, n)), same(eng, st, p, ("str", "")),
                f.get(("valid", p)), f.get(("unique", v)))

    def links(self, eng, st, n, ty):
        b = None
        for k, x in st.facts.items():
            if k[0] == "has" and names(k[2], n):
                b = x if b is None else b
                which = trans.norm(k[1])
                return (same(eng, st, ty, ("int", 1)), which, x)
        return (same(eng, st, ty, ("int", 1)), None, None)

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ("str", "id") and x[0] == "fld" and x[2] == "name" and \
                    not self.attr[0]:
                return False
        return nodes.ServPol.assume_eq(self, eng, st, a, b)


LISTED = ("fld", ("at", SYN), "attributes")
PARENTS = ("fld", ("at", SYN), "parents")
PARENT = None


def names(x, n):
    return x == n


def whole(p, flags):
    """The value of an attribute of an element that may be imported."""
    if flags & (FLAGS["TYPE_ID"] | FLAGS["TYPE_IDREF"]):
        return ("op", "cat", fnv("aliasStackCombine"), p)
    return p


def same(eng, st, a, b):
    r = {x for x, s in eng.trutheq(st.copy(), a, b)}
    return r.pop() if len(r) == 1 else None


FLAGS = {}


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def errors(tr):
    return sum((len(errors(x)) and [1] or [] for e in tr if e[0] == "each"
                for x in e[3]), []) + [e for e in tr if e[0] == "err"]


def standing(st):
    """The iterations that a path ends in."""
    return [(e[3], e[1], e[2]) for e in st.trace if e[0] == "it"]


def attrrefused(absent, empty, valid, taken, flags, gen):
    if absent is None:
        return None
    if absent:
        return bool(flags & FLAGS["REQUIRED"]) and not gen
    for f, x, v in (("NONEMPTY", empty, True), ("TYPE_NAME", valid, False),
                    ("UNIQUE", taken, True)):
        if flags & FLAGS[f] and x == v:
            return True
    for f, x in (("NONEMPTY", empty), ("TYPE_NAME", valid),
                 ("UNIQUE", taken)):
        if flags & FLAGS[f] and x is None:
            return None
    return False


def neg(x):
    return None if x is None else not x


def checked(pol, eng, st, v, gen):
    """None, or what is wrong with a path of checkNode."""
    f = st.facts
    known = [b for k, b in f.items() if k[0] == "known"]
    tagv = eng.load(st, ("f", NODE, "name"))
    if [k for k in f if k[0] == "known" and k[1] != tagv]:
        return "looks up another tag"
    noparents = f.get(("empty", PARENTS))
    some = [e for e in st.trace if e[0] == "it" and
            trans.norm(e[1]) == PARENTS]
    elem = same(eng, st, PARENTTYPE, ONE)
    right = None
    segs = [s for e in st.trace if e[0] == "each" and
            trans.norm(e[1]) == PARENTS for s in e[3]]
    done = any(e[0] == "each" and trans.norm(e[1]) == PARENTS and e[4]
               for e in st.trace)
    for s in segs:
        for x in s:
            if x[:2] == ("know", "parent") and x[2] is True:
                right = True
    for a in some:
        e = ("elem", a[1], (a[3], a[1], a[2]))
        if same(eng, st, eng.load(st, e), PARENT):
            right = True
    if right is None and done and segs and all(
            x[2] is False for s in segs for x in s
            if x[:2] == ("know", "parent")):
        right = False
    for k, b in f.items():
        if k[0] == "has" and trans.norm(k[1]) == PARENTS and k[2] == PARENT:
            right = b
    later = [b for k, b in f.items() if k[0] == "eq" and PARENT in k[1:]
             and any(isparent(x) for x in k[1:])]
    if right is None and done and later:
        right = later[-1]
    if v == ZERO:
        if len(errors(st.trace)) != 1:
            return "refuses an element with %d errors" % len(
                errors(st.trace))
        if known == [False]:
            return None
        if noparents is False and (elem is False or right is False):
            return None
        for a in standing(st):
            e = ("elem", a[1], a)
            i = trans.norm(a[1])
            if i == LISTED:
                n = eng.load(st, ("f", e, "name"))
                has_, empty, valid, taken = pol.facts(eng, st, n)
                if attrrefused(neg(has_), empty, valid, taken, pol.attr[1],
                               gen and n == ("str", "id")):
                    return None
            elif i[0] == "chain":
                n = eng.load(st, ("f", e, "name"))
                t = eng.load(st, ("f", e, "type"))
                el, which, b = pol.links(eng, st, n, t)
                if b is False and i[2] == "properties" and which in HAS:
                    return None
                if b is False and i[2] == "children" and el and \
                        which == fnv("possible", tagv):
                    return None
        return "refuses an element for no reason"
    if v != SYNV:
        return "returns %s" % pp.val(v)
    if errors(st.trace):
        return "accepts an element with an error"
    if known != [True]:
        return "accepts an unknown element"
    if noparents is not True and not (noparents is False and elem and right):
        return "accepts an element wherever it is"
    got = {}
    for e in st.trace:
        if e[0] == "each":
            i = trans.norm(e[1])
            got[i if i == LISTED or i[0] != "chain" else i[2]] = e
    w = listed(pol, got.get(LISTED), f.get(("empty", LISTED)), gen)
    if w:
        return w
    for k in ("properties", "children"):
        e = got.get(k)
        if e is None or e[4] is not True:
            return "does not look at all %s" % k
        for s in e[3]:
            w = linked(s, k, tagv)
            if w:
                return w
    for e in st.trace:
        if e[0] in ("put", "unique", "setmap", "store"):
            return "outside of the iterations: %s" % pp.event(e)
    return None


def isparent(x):
    while isinstance(x, tuple) and x and x[0] in ("at", "fld"):
        x = x[1]
    return isinstance(x, tuple) and len(x) > 1 and x[0] == "elem" and \
        trans.norm(x[1]) == PARENTS


HAS = (ATTRS, ("at", ATTRS))


def listed(pol, e, empty, gen):
    if empty is True:
        return None
    if e is None or e[4] is not True:
        return "does not look at all attributes"
    for s in e[3]:
        k = [x for x in s if x[:2] == ("know", "attr")]
        if len(k) != 1:
            return "an attribute is left in the middle"
        n, has_, em, valid, taken = k[0][2:]
        fl = pol.attr[1]
        g = gen and n == ("str", "id")
        r = attrrefused(neg(has_), em, valid, taken, fl, g)
        if r is None and has_ is not False:
            return "does not look whether an attribute is as it must be"
        if r:
            return "accepts an attribute that is missing or wrong"
        p = whole(fnv("prop", NODEV, n), fl)
        want = []
        if has_ is False:
            if g:
                want.append(fnv("genid"))
        else:
            want.append(p)
        u = [x[1] for x in s if x[0] == "unique"]
        if u != ([p] if has_ and fl & FLAGS["UNIQUE"] else []):
            return "the ids that are taken become %s" % ", ".join(
                map(pp.val, u))
        sets = [x for x in s if x[0] not in ("know", "unique")]
        if [x for x in sets if setof(x, n) is None] or \
                [setof(x, n) for x in sets] != want:
            return "an attribute becomes " + "; ".join(map(pp.event, sets))
    return None


def setof(e, n):
    if e[0] in ("store", "set") and len(e) >= 3:
        l = e[1]
        if l[0] in ("elem", "e", "f") and trans.norm(l[1]) in HAS and \
                (l[2] == n or l[2] == ("find", l[1], n)):
            return e[2]
    if e[0] == "put" and e[1] in ("insert", "emplace") and \
            trans.norm(e[2]) in HAS:
        k, v = e[3:5] if len(e) == 5 else [
            Engine.field(None, e[3], x) for x in ("first", "second")]
        if k == n:
            return v
    return None


def linked(s, k, tagv):
    n = [x for x in s if x[:2] == ("know", k)]
    if len(n) != 1:
        return "one of the %s is left in the middle" % k
    _, _, at, cur, el, which, b = n[0]
    rest = [x for x in s if x[0] != "know"]
    if k == "properties":
        if which not in HAS or b is not True:
            return "an attribute is accepted that is not of the grammar"
        return "changes: %s" % pp.event(rest[0]) if rest else None
    if el is None:
        return "children are taken whatever they are"
    if el is False:
        return "what is not an element is a child" if rest else None
    if which != fnv("possible", tagv) or b is not True:
        return "a child is accepted that is not of the grammar"
    if len(rest) != 1 or rest[0][0] != "put" or rest[0][1] not in (
            "push_back", "emplace_back") or trans.norm(rest[0][2]) not in (
                KIDS, ("at", KIDS)) or rest[0][3] not in (cur, at):
        return "a child becomes " + "; ".join(map(pp.event, rest))
    return None


def checking(ctx, gen, name, flags):
    p = ctx.p
    global PARENT, PARENTTYPE
    par = ("ptr", ("o", "parentnode"))
    PARENT = ("fld", ("at", par[1]), "name")
    PARENTTYPE = ("fld", ("at", par[1]), "type")

    def tw(pol, st):
        st.mem[("f", NODE, "parent")] = par
        st.mem[("f", SYN, "flags")] = ("int", gen)
    fn, eng, pol, res = nodes.runserv(
        p, G["g"], G["c"], "checkNode",
        [NODEV, ("ptr", ATTRS), ("ptr", KIDS)], tweak=tw, policy=Pol,
        attr=(name, flags), locals=True)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of checkNode")
    for f, n, what, s in pol.aborts:
        bad(ctx, fn, "check aborts", "aborts (%s)" % what, s)
    for v, st in res:
        w = checked(pol, eng, st, v, bool(gen & GENID))
        if w:
            bad(ctx, fn, "check", w, st)


# -- processNode

PUSH, POP = ("sym", "pushhandler"), ("sym", "pophandler")
ELTS = ("setattr", "handler", "cache", "processNode", "delete",
        "checkNode", "each", "err")


def processing(ctx, cache, push, pop):
    p = ctx.p

    def tw(pol, st):
        st.mem[("f", SYN, "flags")] = ("int", CACHE if cache else 0)
        for n, b, v in (("push", push, PUSH), ("pop", pop, POP)):
            st.mem[("f", SYN, n)] = v if b else ZERO
            if b:
                st.facts[("ne", v)] = frozenset({ZERO})
    fn, eng, pol, res = nodes.runserv(
        p, G["g"], G["c"], "processNode", [NODEV], tweak=tw, policy=Pol,
        attr=None, locals=True)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 3, "paths of processNode")
    for f, n, what, s in pol.aborts:
        bad(ctx, fn, "process aborts", "aborts (%s)" % what, s)
    for v, st in res:
        w = processed(st, v, cache, push, pop)
        if w:
            bad(ctx, fn, "process", w, st)


def processed(st, v, cache, push, pop):
    ev = [e for e in st.trace if e[0] in ELTS and not (
        e[0] == "each" and not any(x[0] in ELTS for s in e[3] for x in s))]
    if not ev or ev[0][0] != "checkNode" or ev[0][1] != NODEV:
        return "the node is not checked first"
    if any(e[0] == "checkNode" for e in ev[1:]):
        return "the node is checked twice"
    if len(errors(st.trace)) > 1:
        return "goes on after an error"
    if errors(st.trace) and v != ZERO:
        return "accepts an element that it refuses"
    if v == ZERO and not errors(st.trace):
        return "refuses an element for no reason"
    if ev[1:] and ev[1][0] == "err":
        return "goes on with a wrong node" if ev[2:] else None
    new = {("ptr", e[1][1]) for e in st.trace if e[0] == "store" and
           e[1][0] == "f" and e[2] == NODEV}
    if len(new) != 1:
        return "there is no wrapper of the node"
    x = new.pop()
    steps, cached, gone, fail, failed = [], False, 0, False, None
    for e in ev[1:]:
        if e[0] == "delete":
            if e[1] != x:
                return "deletes %s" % pp.val(e[1])
            gone += 1
        elif gone:
            return "uses a wrapper that is deleted"
        elif fail:
            return "goes on after an error"
        elif e[0] == "err":
            fail = True
        elif e[0] == "cache":
            if e[1] != x or cached:
                return "caches %s" % pp.event(e)
            cached = True
            steps.append("cache")
        elif e[0] == "handler":
            if e[2:] != (("ptr", ST), x):
                return "a handler is given %s" % pp.event(e)
            steps.append("push" if e[1] == PUSH else "pop")
        elif e[0] == "each":
            i = trans.norm(e[1])
            if i == fnv("attrsof", NODEV):
                w = alltaken(e, x)
                if w:
                    return w
                steps.append("attrs")
            elif i == fnv("kidsof", NODEV):
                w, failed = allprocessed(e)
                if w:
                    return w
                steps.append("kids")
            else:
                return "goes through %s" % pp.ident(i)
        elif e[0] == "processNode":
            # the child at which it stops
            if "kids" not in steps:
                steps.append("kids")
        else:
            return pp.event(e)
    if gone != (0 if cached else 1):
        return "the wrapper is %s" % (
            "deleted but cached" if gone else "lost")
    f = st.facts
    want = ["attrs", "push", "cache", "kids", "pop"]
    none = {"push": not push, "pop": not pop, "cache": not cache,
            "attrs": f.get(("empty", fnv("attrsof", NODEV))) is True,
            "kids": f.get(("empty", fnv("kidsof", NODEV))) is True}
    want = [w for w in want if not none[w]]
    alt = [w for w in ("attrs", "cache", "push", "kids", "pop")
           if not none[w]]
    if fail:
        if not steps or steps not in (want[:len(steps)], alt[:len(steps)]) \
                or steps[-1] not in ("push", "kids", "pop"):
            return "the steps of an element are %s" % ", ".join(steps)
    elif steps not in (want, alt):
        return "the steps of an element are %s" % ", ".join(steps)
    return None


def alltaken(e, x):
    if e[4] is not True:
        return "not all attributes are taken"
    for s in e[3]:
        d = [y for y in s if y[0] != "know"]
        if len(d) != 1 or d[0][0] != "setattr" or d[0][1] != x or \
                not of(d[0][2], e[1], "first") or \
                not of(d[0][3], e[1], "second"):
            return "an attribute becomes %s" % "; ".join(map(pp.event, d))
    return None


def of(v, i, n):
    if v[0] == "at" and v[1][0] == "f":
        v = ("fld", ("at", v[1][1]), v[1][2])
    return v[0] == "fld" and v[2] == n and v[1][0] == "at" and \
        v[1][1][0] == "elem" and trans.norm(v[1][1][1]) == trans.norm(i)


def allprocessed(e):
    for s in e[3]:
        d = [y for y in s if y[0] != "know"]
        if len(d) != 1 or d[0][0] != "processNode" or not at(d[0][1], e[1]):
            return "a child is %s" % ("; ".join(map(pp.event, d))
                                      or "left out"), None
    return None, None


def at(v, i):
    return v[0] == "at" and v[1][0] == "elem" and trans.norm(
        v[1][1]) == trans.norm(i)


# -- documents

EM = ("ptr", ("o", "errmsg"))


class Top(Pol):
    """What makes documents of files and buffers."""

    def call(self, eng, st, c):
        a = [eng.rv(st, x) for x in c.args]
        n = c.q.split("::")[-1]
        if c.q == "ginga::ParserState::process":
            b = st.copy()
            for s in (st, b):
                s.emit("process", *a)
            self.err(eng, b, "process")
            return [(("ptr", nodes.DOC), st), (ZERO, b)]
        if c.q == "ginga::ParserState::getError":
            if a[0][0] == "ptr":
                self.set(eng, st, a[0], fnv("message"))
            return [(ONE, st)]
        if n in ("xmlReadMemory", "xmlReadFile"):
            b = st.copy()
            for s in (st, b):
                s.emit("read", n, *a)
            b.facts[("unread",)] = True
            return [(("ptr", nodes.XML), st), (ZERO, b)]
        return Pol.call(self, eng, st, c)


def top(ctx, name, args, want):
    p = ctx.p
    pol = Top(p, G["g"], None, None)
    pol.__dict__.update(ctx=G["c"], attr=None, locals=True)
    eng = Engine(p, pol)
    eng.domain = lambda v: pol.domain(eng, v)
    fn = p.fn1("ginga::Parser::" + name)
    res = eng.run(fn, args, State())
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 3, "paths of " + name)
    for f, n, what, s in pol.aborts:
        bad(ctx, fn, name + " aborts", "aborts (%s)" % what, s)
    for v, st in res:
        w = topped(eng, st, v, want)
        if w:
            bad(ctx, fn, name, w, st)


def topped(eng, st, v, want):
    ev = [e for e in st.trace if e[0] in (
        "read", "process", "xmlfree", "rectStackPush", "delete")]
    xml = ("ptr", nodes.XML)
    if not ev or ev[0][0] != "read" or not want(st, ev[0]):
        return "reads %s" % (pp.event(ev[0]) if ev else "nothing")
    msg = eng.load(st, EM[1])
    if st.facts.get(("unread",)):
        if v != ZERO or len(ev) > 1:
            return "goes on with a document that cannot be read"
        if msg != fnv("xmlGetLastErrorAsString"):
            return "there is no message of the error"
        return None
    rect = [e for e in ev if e[0] == "rectStackPush"]
    if len(rect) != 1 or [eng.field(rect[0][1], k) for k in (
            "x", "y", "width", "height")] != [
                ZERO, ZERO, ("sym", "w"), ("sym", "h")]:
        return "the screen is %s" % "; ".join(map(pp.event, rect))
    if [e[0] for e in ev if e not in rect] != [
            "read", "process", "xmlfree"] or [
                e[1] for e in ev if e[0] in ("process", "xmlfree")] != [
                    xml, xml]:
        return "the document is not processed, and freed, once"
    if errors(st.trace):
        if v != ZERO:
            return "returns a document with an error"
        if msg != fnv("message"):
            return "there is no message of the error"
    elif v != ("ptr", nodes.DOC):
        return "returns %s" % pp.val(v)
    return None


def files(st, e):
    path = ("sym", "path")
    u = e[2]
    if e[1] != "xmlReadFile" or e[3] != ZERO:
        return False
    if u[:3] != ("op", "fn", "xurifromsrc"):
        return False
    isabs = st.facts.get(("val", fnv("xpathisabs", path)))
    if isabs is None and ZERO in st.facts.get(
            ("ne", fnv("xpathisabs", path)), ()):
        isabs = ONE
    if u[3] == path:
        return isabs not in (None, ZERO)
    return u[3] == fnv("xpathmakeabs", path) and isabs in (None, ZERO)


def rooted(ctx):
    p = ctx.p
    fn, eng, pol, res = nodes.runserv(
        p, G["g"], G["c"], "process", [("ptr", nodes.XML)], policy=Pol,
        attr=None, locals=True)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 2, "paths of process")
    for f, n, what, s in pol.aborts:
        bad(ctx, fn, "root aborts", "aborts (%s)" % what, s)
    root = fnv("xmlDocGetRootElement", ("ptr", nodes.XML))
    for v, st in res:
        new = [e[2] for e in st.trace if e[0] == "new"]
        gone = [e[-1] for e in st.trace if e[0] == "delete" or
                e[0] == "do" and e[1].endswith("::delete")]
        done = [e for e in st.trace if e[0] == "processNode"]
        w = None
        if len(new) != 1 or not any(
                e[0] == "store" and e[2] == new[0] and e[1][:2] == (
                    "f", ST) and st.trace.index(e) < st.trace.index(
                        done[0]) for e in st.trace if done):
            w = "there is no document to fill"
        elif [e[1] for e in done] != [root]:
            w = "processes %s" % "; ".join(map(pp.event, done))
        elif errors(st.trace):
            if v != ZERO:
                w = "returns a document with an error"
            elif gone != new:
                w = "a document with an error is not deleted, once"
        elif v != new[0] or gone:
            w = "returns %s" % pp.val(v)
        if w:
            bad(ctx, fn, "root", w, st)


# -- the table, as of the NCL standard, as far as it is supported: element,
# the elements in which it may be, its attributes (! required, u unique,
# i an id, r the id of another element, n a name, e not empty).  + has an id
# made up if it has none.

NCL = """
area < media : begin/ end/ id/!uine label/
assessmentStatement < compoundCondition compoundStatement : comparator/!
attributeAssessment < assessmentStatement : attributeType/ eventType/ key/
   offset/ role/!ne
bind < link : component/!rne interface/rne role/!ne
bindParam < bind : name/!ne value/!
bindRule < switch : constituent/!rne rule/!rne
body < ncl : id/uine
causalConnector < connectorBase : id/!uine
compositeRule < compositeRule ruleBase : id/!uine operator/!
compoundAction < causalConnector compoundAction : delay/ operator/
compoundCondition < causalConnector compoundCondition : delay/ operator/
compoundStatement < compoundCondition compoundStatement : isNegated/
   operator/!
connectorBase < head : id/uine
connectorParam < causalConnector : name/ne type/
context < body context switch : id/!uine refer/rne
defaultComponent < switch : component/!rne
descriptor < descriptorBase : bottom/ explicitDur/ focusBorderColor/
   focusBorderTransparency/ focusBorderWidth/ focusIndex/ focusSelSrc/
   focusSrc/ freeze/ height/ id/!uine left/ moveDown/ moveLeft/ moveRight/
   moveUp/ player/ region/rne right/ selBorderColor/ top/ transIn/rne
   transOut/rne width/ zIndex/
descriptorBase < head : id/uine
descriptorParam < descriptor : name/!ne value/!
font < fontBase : fontFamily/! fontStyle/ fontWeight/ src/!
fontBase < head :
head < ncl :
importBase < connectorBase descriptorBase fontBase regionBase ruleBase
   transitionBase : alias/!ne baseId/ documentURI/! region/
link+ < body context : id/uine xconnector/!rne
linkParam < link : name/!ne value/!
mapping < switchPort : component/!rne interface/rne
media < body context switch : descriptor/rne id/!uine instance/ refer/rne
   src/ type/
ncl <  : id/uine schemaLocation/ title/ xmlns/
port < body context : component/!rne id/!uine interface/rne
property < body context media : name/!ne value/
region < region regionBase : bottom/ height/ id/!uine left/ right/ title/
   top/ width/ zIndex/
regionBase < head : device/ id/uine region/
rule < compositeRule ruleBase : comparator/! id/!uine value/! var/!ne
ruleBase < head : id/uine
simpleAction < causalConnector compoundAction : actionType/ by/ delay/
   duration/ eventType/ max/ min/ qualifier/ repeat/ repeatDelay/ role/!ne
   value/
simpleCondition < causalConnector compoundCondition : delay/ eventType/ key/
   max/ min/ qualifier/ role/!ne transition/
switch < body context switch : id/!uine refer/rne
switchPort < switch : id/!uine
transition < transitionBase : borderColor/ borderWidth/ direction/ dur/
   endProgress/ fadeColor/ horzRepeat/ id/!uine startProgress/ subtype/ne
   type/!ne vertRepeat/
transitionBase < head : id/uine
valueAssessment < assessmentStatement : value/!
"""


def syntax(ctx):
    g = G["g"]
    rows = {}
    for l in NCL.replace("\n   ", " ").strip().split("\n"):
        h, r = l.split(" <", 1)
        ps, at_ = r.split(":", 1)
        rows[h.strip("+")] = (h.endswith("+"), set(ps.split()), dict(
            a.split("/") for a in at_.split()))
    letters = (("REQUIRED", "!"), ("UNIQUE", "u"), ("TYPE_ID", "i"),
               ("TYPE_IDREF", "r"), ("TYPE_NAME", "n"), ("NONEMPTY", "e"))
    for t in g.dup:
        ctx.violation("twice " + t, "%s: <%s> is there twice" % (
            g.where, t), "")
    for t in sorted(set(rows) | set(g.tags)):
        ctx.count("obligations")
        w = None
        if t not in g.tags:
            w = "<%s> is not accepted" % t
        elif t not in rows:
            w = "<%s> is accepted" % t
        else:
            gen, ps, at_ = rows[t]
            e = g.tags[t]
            have = {a: "".join(c for n, c in letters if f & FLAGS[n])
                    for a, f in e["attrs"].items()}
            odd = sorted(a for a in set(have) | set(at_)
                         if have.get(a) != at_.get(a))
            if set(e["parents"]) != ps:
                w = "<%s> is accepted in %s instead of %s" % (
                    t, sorted(e["parents"]), sorted(ps))
            elif odd:
                w = "the attribute %s of <%s> is %s instead of %s" % (
                    odd[0], t, describe(have.get(odd[0])),
                    describe(at_.get(odd[0])))
            elif e["genid"] != gen:
                w = "the id of <%s> is %smade up" % (
                    t, "" if e["genid"] else "not ")
        if w:
            ctx.violation("table " + t, "%s: %s" % (g.where, w), "")


def describe(f):
    if f is None:
        return "unknown"
    return ", ".join({"!": "required", "u": "unique", "i": "an id", "r":
                      "a reference", "n": "a name", "e": "not empty"}[c]
                     for c in f) or "optional"


GENID = CACHE = None


def check(ctx):
    services.verify(ctx, "unique aliases elements errors libxml")
    global GENID, CACHE
    g, c = nodes.context(ctx)
    G.update(g=g, c=c)
    p = ctx.p
    FLAGS.update({n[5:]: v for n, v in g.flag.items()
                  if n.startswith("ATTR_")})
    GENID, CACHE = g.flag["ELT_GEN_ID"], g.flag["ELT_CACHE"]
    kinds = sorted({f for t in g.tags.values()
                    for a, f in t["attrs"].items()})
    for gen in (0, GENID):
        for fl in kinds:
            for name in ("id", None):
                checking(ctx, gen, name, fl)
    for cache in (0, 1):
        for push in (0, 1):
            for pop in (0, 1):
                processing(ctx, cache, push, pop)
    rooted(ctx)
    sym = [("sym", x) for x in ("buf", "size", "path", "w", "h")]
    top(ctx, "parseBuffer", sym[:2] + sym[3:] + [EM], lambda st, e: e[1:5] ==
        ("xmlReadMemory", sym[0], sym[1], ZERO))
    top(ctx, "parseFile", sym[2:] + [EM], files)
    syntax(ctx)
