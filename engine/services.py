"""What the services of the parser (its caches, sets, stacks and maps, and the
data of elements) are: each function is analysed with what it looks up present
or absent, and compared with the abstract data type it implements."""
import own
import pp
import trans
from nodes import ST
from absint import Engine, State, ZERO, ONE

OUT, OUT2 = ("o", "out"), ("o", "out2")
ELT, NODE = ("o", "elt"), ("o", "node")
P = "ginga::ParserState::"
UD = "_udata"


def F(name, o=ST):
    return ("fld", ("at", o), name)


class Pol(own.Fill):
    leave = None
    locals = False
    chains = ("children",)

    def put(self, eng, st, c, ident, args):
        if self.locals and trans.norm(ident)[0] == "v":
            st.emit("put", c.name, trans.norm(ident), *args)
        else:
            own.Fill.put(self, eng, st, c, ident, args)

    def call(self, eng, st, c):
        if c.q == "<indirect>":
            st.emit("clean", getattr(c, "fnval", None) or
                    eng.rv(st, c.recv), *[eng.rv(st, a) for a in c.args])
            return [(("sym", "void"), st)]
        return own.Fill.call(self, eng, st, c)

    def store(self, eng, st, loc, val, fn, nid):
        if loc != ("f", ST, "_genid"):
            own.Fill.store(self, eng, st, loc, val, fn, nid)

    def leaving(self, eng, st, cur):
        if self.leave:
            b = self.leave(eng, st, cur)
            if b is not None:
                st.trace += (("know", "left", b),)


def run(ctx, q, args, this=ST, tweak=None, n=None, leave=None,
        locals=False):
    pol = Pol(ctx.p, None)
    pol.locals = locals
    pol.classes = {}
    pol.leave = leave
    eng = Engine(ctx.p, pol)
    fn = ctx.p.fn1(q, n)
    st = State()
    if tweak:
        tweak(st)
    res = eng.run(fn, list(args), st, ("ptr", this))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    return fn, eng, pol, res


def bad(ctx, fn, what, st):
    ctx.violation(fn.q.split("::")[-1], "%s: %s: %s" % (
        fn.where(), fn.q, what), "facts: %s\npath: %s" % (
            "; ".join(pp.facts(st.facts)), pp.trace(st.trace)))


def effects(st):
    return [e for e in st.trace if e[0] in ("put", "take", "store")]


def find(cont, key, *path):
    l = ("elem", cont, ("find", cont, key))
    for p in path:
        l = ("f", l, p)
    return l


def out(eng, st, o=OUT):
    """What was stored through an out parameter, or None."""
    v = st.mem.get(o)
    return None if v is None else eng.subst(st, v)


def results(eng, res):
    """[(value, state)], comparisons decided."""
    r = []
    for v, st in res:
        if v is not None and v[0] == "op" and v[1] in ("!", "==", "<"):
            r += [(ONE if b else ZERO, s) for b, s in eng.truth(st, v)]
        else:
            r.append((v, st))
    return r


def canon(v):
    """References to the element found, in one form."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ("fld", "f") and len(v) == 3:
        x = canon(v[1])
        if v[2] == "second" and isinstance(x, tuple) and x[0] == "elem" and \
                x[2][0] == "find":
            return x
        return ("sel", x, v[2])
    if v and v[0] in ("at", "ptr", "loc", "d") and len(v) == 2 and \
            isinstance(v[1], tuple):
        return canon(v[1])
    if v and v[0] == "ver" and len(v) > 1:
        return canon(v[1])
    return tuple(canon(x) for x in v)


def eqv(a, b):
    return canon(trans.norm(a) if isinstance(a, tuple) else a) == \
        canon(trans.norm(b) if isinstance(b, tuple) else b)


def lookup(ctx, q, args, cont, key, value, this=ST, tweak=None, n=None):
    """True and the value of the key, or False and nothing changed."""
    for has, null in ((True, False), (False, False), (True, True),
                      (False, True)):
        def tw(st):
            st.facts[("has", cont, key)] = has
            if tweak:
                tweak(st)
        fn, eng, pol, res = run(ctx, q, [
            ZERO if null and a == ("ptr", OUT) else a for a in args], this,
            tw, n)
        res = results(eng, res)
        if not res:
            ctx.broken("no path of " + q)
        for v, st in res:
            o = out(eng, st)
            if v != (ONE if has else ZERO):
                bad(ctx, fn, "returns %s when the key is %s" % (
                    pp.val(v), "there" if has else "not there"), st)
            elif has and not null and (o is None or not eqv(o, value)):
                bad(ctx, fn, "gives %s" % (pp.val(o) if o else "nothing"),
                    st)
            elif not has and o is not None:
                bad(ctx, fn, "gives %s that is not there" % pp.val(o), st)
            elif effects(st):
                bad(ctx, fn, "changes: %s" % pp.event(effects(st)[0]), st)


def isput(e, cont, key, val):
    """Does the effect make val the value of key in a map?"""
    if e[0] == "store" and e[1][0] == "elem" and eqv(e[1][1], cont) and \
            e[1][2][0] == "find" and e[1][2][2] == key:
        return eqv(e[2], val)
    if e[0] == "put" and eqv(e[2], cont) and e[1] in (
            "insert", "emplace", "insert_or_assign"):
        a = e[3:] if len(e) == 5 else [
            Engine.field(None, e[3], x) for x in ("first", "second")]
        return len(a) == 2 and a[0] == key and eqv(a[1], val)
    return False


def addition(ctx, q, args, cont, key, checks, this=ST, result=True, n=None):
    """Puts once; nothing when the key is there."""
    for has in (True, False):
        def tw(st):
            st.facts[("has", cont, key)] = has
        fn, eng, pol, res = run(ctx, q, args, this, tw, n)
        for v, st in results(eng, res):
            e = effects(st)
            if result and v != (ZERO if has else ONE):
                bad(ctx, fn, "returns %s" % pp.val(v), st)
            elif has and e:
                bad(ctx, fn, "changes what is there: %s" % pp.event(e[0]), st)
            elif not has:
                w = matched(e, checks)
                if w:
                    bad(ctx, fn, w, st)


def matched(e, checks):
    """Each check by exactly one of the effects, in any order."""
    rest = list(e)
    for what, c in checks:
        m = [x for x in rest if c(x)]
        if len(m) != 1:
            return "%s %d times: %s" % (what, len(m), "; ".join(
                map(pp.event, e)))
        rest.remove(m[0])
    return "also: %s" % pp.event(rest[0]) if rest else None


def pushes(e, cont, val):
    return e[0] == "put" and e[1] in ("push_back", "emplace_back") and \
        eqv(e[2], cont) and e[3:] == (val,)


def pops(e, cont):
    return e[0] == "take" and e[1] == "pop_back" and eqv(e[2], cont)


def last(st, v, cont, *path):
    """Is v (the field of) the last element of the container?"""
    want = ("elem", cont, ("rcur", cont, ("pop", "back")))
    for x in path:
        want = ("f", want, x)
    return v is not None and eqv(v, want)


def stack(ctx, name, nullable, pushed=True):
    """Peek and Pop give the last pushed, Pop also removes it."""
    cont = F("_" + name)
    for op in ("Peek", "Pop"):
        for empty in (True, False) if nullable else (False,):
            def tw(st):
                st.facts[("empty", cont)] = empty
            fn, eng, pol, res = run(ctx, P + name + op, [], tweak=tw)
            for v, st in res:
                e = effects(st)
                if empty:
                    if v != ZERO or e:
                        bad(ctx, fn, "gives %s of an empty stack" %
                            pp.val(v), st)
                    continue
                if nullable and v == ZERO and not e:
                    continue    # nothing is never pushed
                if not last(st, v, cont):
                    bad(ctx, fn, "gives %s" % pp.val(v), st)
                n = [x for x in e if pops(x, cont)]
                if len(n) != (op == "Pop") or len(e) != len(n):
                    bad(ctx, fn, "changes: " + "; ".join(map(pp.event, e)),
                        st)
    val = ("ptr", ELT)
    fn, eng, pol, res = run(ctx, P + name + "Push", [val])
    for v, st in res:
        w = matched(effects(st), [("pushes", lambda e: pushes(
            e, cont, val))])
        if w:
            bad(ctx, fn, w, st)


def aliases(ctx):
    cont = F("_aliasStack")
    for op in ("Peek", "Pop"):
        for empty in (True, False):
            def tw(st):
                st.facts[("empty", cont)] = empty
            fn, eng, pol, res = run(
                ctx, P + "aliasStack" + op, [("ptr", OUT), ("ptr", OUT2)],
                tweak=tw)
            for v, st in results(eng, res):
                e = effects(st)
                e = [x for x in e if not (x[0] == "store" and x[1] in (
                    OUT, OUT2))]
                a, b = out(eng, st), out(eng, st, OUT2)
                if v != (ZERO if empty else ONE):
                    bad(ctx, fn, "returns %s" % pp.val(v), st)
                elif empty and (e or a or b):
                    bad(ctx, fn, "changes something on an empty stack", st)
                elif not empty and not (last(st, a, cont, "first") and
                                        last(st, b, cont, "second")):
                    bad(ctx, fn, "gives %s, %s" % (pp.val(a), pp.val(b)), st)
                elif not empty and ([x for x in e if not pops(x, cont)] or
                                    len(e) != (op == "Pop")):
                    bad(ctx, fn, "changes: " + "; ".join(map(pp.event, e)),
                        st)
    # Push: refused iff the path is there.
    a, b = ("sym", "alias"), ("sym", "path")

    def same(eng, st, e):
        v = eng.load(st, ("f", e, "second"))
        return eq(eng, st, v, b)

    def leave(eng, st, cur):
        return same(eng, st, ("elem", cur[1], cur)) \
            if eqv(cur[1], cont) else None
    fn, eng, pol, res = run(ctx, P + "aliasStackPush", [a, b], leave=leave)
    for v, st in results(eng, res):
        e = effects(st)
        if v == ZERO:
            if e or not any(same(eng, st, x) for x in standing(st, cont)):
                bad(ctx, fn, "refuses a path that is not there", st)
        elif v == ONE:
            if not searched(st, cont, False):
                bad(ctx, fn, "does not look whether the path is there", st)
            w = matched(e, [("pushes", lambda x: x[0] == "put" and eqv(
                x[2], cont) and x[1] in ("push_back", "emplace_back") and
                pair(eng, x) == (a, b))])
            if w:
                bad(ctx, fn, w, st)
        else:
            bad(ctx, fn, "returns %s" % pp.val(v), st)
    # Combine.
    fn, eng, pol, res = run(ctx, P + "aliasStackCombine", [])
    long = 0
    for v, st in res:
        if v[:2] == ("sym", "widen"):
            continue
        p = parts(v)
        long += len(p) > 4
        if st.facts.get(("empty", cont)) is True:
            if p:
                bad(ctx, fn, "gives %s of no aliases" % pp.val(v), st)
            continue
        es = [e for e in st.trace if e[0] == "each" and eqv(e[1], cont)]
        if len(es) != 1 or not es[0][4]:
            bad(ctx, fn, "does not look at all aliases", st)
            continue
        ok = p and len(p) % 2 == 0 and all(
            isfirst(x, cont) for x in p[::2]) and all(
                x == ("str", "#") for x in p[1::2])
        if not ok:
            bad(ctx, fn, "gives %s" % pp.val(v), st)
        elif len(p) > 4 and (spine(v, 2) < spine(v, 3)) != (
                es[0][2] == "rcur"):
            bad(ctx, fn, "combines the aliases in the wrong order", st)
    ctx.require(long, 1, "combinations of several aliases")


def spine(v, i):
    return 1 + spine(v[i], i) if v[0] == "op" and v[1] == "cat" else 0


def isfirst(x, cont):
    c = canon(x)
    return c[0] == "sel" and c[2] == "first" and c[1][0] == "elem" and \
        eqv(c[1][1], cont)


def parts(v):
    if v == ("str", ""):
        return []
    if v[0] == "op" and v[1] in ("cat", "+"):
        return [x for y in v[2:] for x in parts(y)]
    return [v]


def pair(eng, e):
    v = e[3:]
    return tuple(v) if len(v) == 2 else (
        Engine.field(None, v[0], "first"), Engine.field(None, v[0], "second"))


def eq(eng, st, a, b):
    v = eng.mkeq(st, eng.subst(st, a), eng.subst(st, b))
    if v in (ONE, ZERO):
        return v == ONE
    s = st.copy()
    r = {x for x, _ in eng.truth(s, v)}
    return r.pop() if len(r) == 1 else None


def standing(st, cont):
    """The elements of cont at which iterations stand at the end."""
    return [("elem", e[1], (e[3], e[1], e[2])) for e in st.trace
            if e[0] == "it" and eqv(e[1], cont)]


def searched(st, cont, want):
    """Was each element of cont looked at, with the answer want?"""
    if st.facts.get(("empty", cont)) is True or any(
            e[0] == "each" and eqv(e[1], cont) and e[4] and not e[3]
            for e in st.trace):
        return True
    for e in st.trace:
        if e[0] == "each" and eqv(e[1], cont) and e[4]:
            ks = [[x[2] for x in s if x[:2] == ("know", "left")]
                  for s in e[3]]
            if ks and all(k == [want] for k in ks):
                return True
    return False


def byid(ctx):
    """eltCacheIndexById: an element of one of the tags with the id."""
    tags, key = ("sym", "tags"), ("sym", "id")
    tagmap = F("_eltCacheByTag")

    def has(st, e):
        for k, b in st.facts.items():
            if k[0] == "has" and k[2] == ("str", "id") and "_attrs" in str(
                    k[1]) and str(canon(e)) in str(canon(k[1])):
                return b, k[1]
        return None, None

    def matches(eng, st, e):
        v = eng.load(st, e)
        h, c = has(st, v)
        if h is not True:
            return h
        return eq(eng, st, eng.load(st, find(c, ("str", "id"), "second")),
                  key)

    def leave(eng, st, cur):
        if cur[1] == tags:
            t = eng.load(st, ("elem", cur[1], cur))
            b = [x for k, x in st.facts.items() if k[0] == "has" and
                 eqv(k[1], tagmap) and eqv(k[2], t)]
            return ("tag", b[0] if b else None)
        if "_eltCacheByTag" in str(cur[1]):
            return ("elt", matches(eng, st, ("elem", cur[1], cur)))
        return None
    fn, eng, pol, res = run(ctx, P + "eltCacheIndexById",
                            [key, ("ptr", OUT), tags], leave=leave)
    for v, st in results(eng, res):
        o = out(eng, st)
        if v == ONE:
            es = [("elem", e[1], (e[3], e[1], e[2])) for e in st.trace
                  if e[0] == "it" and oftag(e[1], tags)]
            if not [e for e in es if eqv(o, e) and matches(eng, st, e)]:
                bad(ctx, fn, "finds %s" % (pp.val(o) if o else "nothing"),
                    st)
            continue
        if v != ZERO:
            bad(ctx, fn, "returns %s" % pp.val(v), st)
            continue
        if o is not None:
            bad(ctx, fn, "gives %s that is not there" % pp.val(o), st)
        if st.facts.get(("empty", tags)) is True:
            continue
        w = allsearched(st, tags, lambda s: all(
            x[2] == ("elt", False) for x in s if x[0] == "know") and
            any(x[0] == "know" for x in s))
        if w:
            bad(ctx, fn, w, st)


def oftag(i, tags):
    """The elements cached with one of the tags?"""
    c = str(canon(i))
    return "_eltCacheByTag" in c and "'sel'" in c and str(tags) in c


def allsearched(st, tags, good):
    es = [e for e in st.trace if e[0] == "each" and eqv(e[1], tags) and e[4]]
    if len(es) != 1:
        return "does not look at all tags"
    for s in es[0][3]:
        k = [x[2][1] for x in s if x[0] == "know" and x[2][0] == "tag"]
        inner = [x for x in s if x[0] == "each" and oftag(x[1], tags)]
        if k == [False]:
            continue
        if not inner and any(isrange(x, tags) for x in s):
            continue
        if len(inner) != 1 or not inner[0][4]:
            return "does not look at all elements with a tag"
        if not all(good(x) for x in inner[0][3]):
            return "passes over an element"
    return None


def isrange(e, tags):
    """All the elements with a tag, put at the end at once."""
    return e[0] == "put" and e[1] == "insert" and len(e) == 6 and \
        eqv(e[2], OUT) and e[3][0] == "end" and eqv(e[3][1], OUT) and \
        e[4][0] == "cur" and e[5] == ("end", e[4][1]) and \
        oftag(e[4][1], tags)


def bytag(ctx):
    tags = ("sym", "tags")
    tagmap = F("_eltCacheByTag")

    def leave(eng, st, cur):
        if cur[1] == tags:
            t = eng.load(st, ("elem", cur[1], cur))
            b = [x for k, x in st.facts.items() if k[0] == "has" and
                 eqv(k[1], tagmap) and eqv(k[2], t)]
            return ("tag", b[0] if b else None)
        return None
    fn, eng, pol, res = run(ctx, P + "eltCacheIndexByTag",
                            [tags, ("ptr", OUT)], leave=leave)

    def good(s):
        e = [x for x in s if x[0] in ("put", "take", "store")]
        return len(e) == 1 and e[0][0] == "put" and e[0][1] in (
            "push_back", "emplace_back") and eqv(e[0][2], OUT) and \
            canon(e[0][3])[0] == "elem" and oftag(e[0][3], tags)
    for v, st in res:
        if st.facts.get(("empty", tags)) is True:
            if effects(st) or v != ZERO:
                bad(ctx, fn, "finds something without tags", st)
            continue
        w = allsearched(st, tags, good)
        if w:
            bad(ctx, fn, w, st)


def genid(ctx):
    """A new id is not taken, and the counter only grows."""
    fn, eng, pol, res = run(ctx, P + "genId", [])
    cont = F("_unique")
    for f, n, what, st in pol.aborts:
        bad(ctx, fn, "aborts (%s)" % what, st)
    for v, st in res:
        h = [b for k, b in st.facts.items() if k[0] == "has" and
             eqv(k[1], cont) and k[2] == v]
        if h != [False]:
            bad(ctx, fn, "gives an id that may be taken", st)
        n = eng.load(st, ("f", ST, "_genid"))
        if "widen" in str(n):
            continue
        if n[:2] != ("op", "+") or n in v:
            bad(ctx, fn, "gives the same id again", st)


def userdata(ctx):
    o = ("o", "data")
    cont = F(UD, o)
    key, val, fun = ("sym", "key"), ("ptr", ELT), ("sym", "fn")
    for has, to in ((True, ("ptr", OUT)), (False, ("ptr", OUT)),
                    (True, ZERO), (False, ZERO)):
        def tw(st):
            st.facts[("has", cont, key)] = has
        fn, eng, pol, res = run(ctx, "ginga::UserData::getData",
                                [key, to], o, tw)
        for v, st in results(eng, res):
            if to == ZERO:
                if v != (ONE if has else ZERO) or effects(st):
                    bad(ctx, fn, "says %s" % pp.val(v), st)
                continue
            g = out(eng, st)
            want = ("f", ("f", find(cont, key), "second"), "first")
            if v != (ONE if has else ZERO) or effects(st) or \
                    (g is None) is has or has and not eqv(g, want):
                bad(ctx, fn, "gives %s" % (pp.val(g) if g else "nothing"),
                    st)


def cleans(ctx):
    """setData cleans what it replaces, once; the destructor what is left."""
    o = ("o", "data")
    cont = F(UD, o)
    key, fun = ("sym", "key"), ("ptr", ("o", "fn"))
    item = ("f", find(cont, key), "second")
    for has in (True, False):
        for val in (("ptr", ELT), ZERO):
            def tw(st):
                st.facts[("has", cont, key)] = has
            fn, eng, pol, res = run(ctx, "ginga::UserData::setData",
                                    [key, val, fun], o, tw)
            for f, n, what, st in pol.aborts:
                bad(ctx, fn, "aborts (%s)" % what, st)
            for v, st in results(eng, res):
                e = [x for x in st.trace if x[0] == "clean"]
                rest = effects(st)
                c = [b for k, b in st.facts.items() if k[0] in ("val", "ne")
                     and eqv(k[1], ("f", item, "second"))]
                some = None if not c else c[0] != ZERO
                if v != (ONE if val != ZERO and not has else ZERO):
                    bad(ctx, fn, "returns %s" % pp.val(v), st)
                elif has and some is None or not has and e or \
                        has and len(e) != some:
                    bad(ctx, fn, "cleans %d times" % len(e), st)
                elif e and not (eqv(e[0][1], ("f", item, "second")) and eqv(
                        e[0][2], ("f", item, "first"))):
                    bad(ctx, fn, "cleans " + pp.event(e[0]), st)
                elif e and rest and st.trace.index(e[0]) > st.trace.index(
                        rest[0]):
                    bad(ctx, fn, "cleans what it has replaced already", st)
                if not has and val == ZERO:
                    rest = [x for x in rest if x[:2] != ("take", "erase") or
                            x[3:] != (key,)]    # nothing to erase
                w = matched(rest, [("removes", lambda x: x[:2] == (
                    "take", "erase") and eqv(x[2], cont))] if has else []) \
                    if val == ZERO else matched(rest, [
                        ("keeps", lambda x: keeps(eng, x, cont, key, val,
                                                  fun))])
                if w:
                    bad(ctx, fn, w, st)

    def leave(eng, st, cur):
        e = ("f", ("elem", cur[1], cur), "second")
        v = eng.load(st, ("f", e, "second"))
        return eq(eng, st, v, ZERO)
    fn, eng, pol, res = run(ctx, "ginga::UserData::~UserData", [], o,
                            leave=leave)
    for v, st in res:
        if st.facts.get(("empty", cont)) is True:
            continue
        es = [e for e in st.trace if e[0] == "each" and eqv(e[1], cont)]
        if len(es) != 1 or not es[0][4]:
            bad(ctx, fn, "does not look at all data", st)
            continue
        for s in es[0][3]:
            k = [x[2] for x in s if x[0] == "know"]
            c = [x for x in s if x[0] == "clean"]
            if k not in ([True], [False]) or len(c) != (not k[0]):
                bad(ctx, fn, "cleans data %d times" % len(c), st)
            elif c and not (str(canon(c[0][1])).endswith("'second')") and
                            str(canon(c[0][2])).endswith("'first')")):
                bad(ctx, fn, "cleans " + pp.event(c[0]), st)


def keeps(eng, e, cont, key, val, fun):
    if e[0] == "store":
        if not eqv(e[1], find(cont, key)):
            return False
        x = e[2]
    elif e[0] == "put" and e[1] in ("insert", "emplace") and len(e) == 4 \
            and eqv(e[2], cont) and eng.field(e[3], "first") == key:
        x = eng.field(e[3], "second")
    elif e[0] == "put" and e[1] in ("insert_or_assign",) and len(e) == 5 and \
            eqv(e[2], cont) and e[3] == key:
        x = e[4]
    else:
        return False
    return (eng.field(x, "first"), eng.field(x, "second")) == (val, fun)


def elements(ctx):
    q = "ginga::ParserElt::"
    cont = F("_attrs", ELT)
    key, val = ("sym", "name"), ("sym", "value")
    lookup(ctx, q + "getAttribute", [key, ("ptr", OUT)], cont, key,
           find(cont, key, "second"), ELT)
    for has in (True, False):
        def tw(st):
            st.facts[("has", cont, key)] = has
        fn, eng, pol, res = run(ctx, q + "setAttribute", [key, val], ELT, tw)
        for v, st in results(eng, res):
            w = matched(effects(st), [("sets", lambda e: isput(
                e, cont, key, val) or e[0] == "store" and eqv(
                    e[1], find(cont, key, "second")) and e[2] == val)])
            if w:
                bad(ctx, fn, w, st)
    for name, want in (("getTag", F("_tag", ELT)),
                       ("getNode", F("_node", ELT)),
                       ("getParentNode", ("fld", ("at", F("_node", ELT)),
                                          "parent"))):
        fn, eng, pol, res = run(ctx, q + name, [], ELT)
        for v, st in res:
            if not eqv(v, want) or effects(st):
                bad(ctx, fn, "gives %s" % pp.val(v), st)


def unique(ctx):
    key = ("sym", "id")
    u = F("_unique")
    for has in (True, False):
        def tw(st):
            st.facts[("has", u, key)] = has
        fn, eng, pol, res = run(ctx, P + "isInUniqueSet", [key], tweak=tw)
        for v, st in results(eng, res):
            if v != (ONE if has else ZERO) or effects(st):
                bad(ctx, fn, "says %s" % pp.val(v), st)
    addition(ctx, P + "addToUniqueSet", [key], u, key, [
        ("inserts", lambda e: e[0] == "put" and eqv(e[2], u) and
         e[1] in ("insert", "emplace") and e[3:] == (key,))], result=False)
    genid(ctx)


def cache(ctx):
    node, elt = ("ptr", NODE), ("ptr", ELT)
    c, t = F("_eltCache"), F("_eltCacheByTag")
    lookup(ctx, P + "eltCacheIndex", [node, ("ptr", OUT)], c, node,
           find(c, node, "second"))
    par = ("fld", ("at", NODE), "parent")

    def some(st):
        st.facts[("ne", par)] = frozenset({ZERO})
    lookup(ctx, P + "eltCacheIndexParent", [node, ("ptr", OUT)], c, par,
           find(c, par, "second"), tweak=some)

    def none(st):
        st.mem[("f", NODE, "parent")] = ZERO
    fn, eng, pol, res = run(ctx, P + "eltCacheIndexParent",
                            [node, ("ptr", OUT)], tweak=none)
    for v, st in results(eng, res):
        if v != ZERO or out(eng, st) is not None or effects(st):
            bad(ctx, fn, "finds the parent of a root", st)
    n, tag = F("_node", ELT), F("_tag", ELT)
    addition(ctx, P + "eltCacheAdd", [elt], c, n, [
        ("caches", lambda e: isput(e, c, n, elt)),
        ("caches by tag", lambda e: e[0] == "put" and e[1] in (
            "push_back", "emplace_back") and e[3:] == (elt,) and eqv(
                e[2], find(t, tag, "second")))])
    byid(ctx)
    bytag(ctx)


def refers(ctx):
    key, r = ("sym", "id"), F("_referMap")
    lookup(ctx, P + "referMapIndex", [key, ("ptr", OUT)], r, key,
           find(r, key, "second"))
    addition(ctx, P + "referMapAdd", [key, ("ptr", ELT)], r, key, [
        ("adds", lambda e: isput(e, r, key, ("ptr", ELT)))])


def objects(ctx):
    stack(ctx, "objStack", True)


def rects(ctx):
    stack(ctx, "rectStack", False)


def data(ctx):
    userdata(ctx)
    cleans(ctx)


ALL = "unique cache refers objects rects aliases elements data errors libxml"


def verify(ctx, what=ALL):
    """Some of the services (the ones a property stands on)."""
    for w in what.split():
        globals()[w](ctx)


def errors(ctx):
    """Each of the error functions fails, and leaves an error and a text."""
    none = ctx.p.enum("ginga::ParserState::ERROR_NONE")
    for f in sorted((f for f in ctx.p.fns.values() if f.q.startswith(
            P + "errElt")), key=lambda f: f.q):
        args = [("sym", "%s" % i) for i, x in enumerate(f.params)]
        args[0] = ("ptr", NODE)
        fn, eng, pol, res = run(ctx, f.q, args)
        for v, st in res:
            e = eng.load(st, ("f", ST, "_error"))
            m = eng.load(st, ("f", ST, "_errorMsg"))
            if v != ZERO:
                bad(ctx, fn, "returns %s" % pp.val(v), st)
            elif e == ("int", none) or e[0] == "fld":
                bad(ctx, fn, "leaves no error", st)
            elif m[0] == "str" or m[0] == "fld":
                bad(ctx, fn, "leaves no text", st)
            elif f.q.endswith("::errElt") and parts(m)[-1] != args[2]:
                bad(ctx, fn, "leaves the text %s" % pp.val(m), st)


def libxml(ctx):
    name = ("sym", "name")
    fn, eng, pol, res = run(ctx, "ginga::xmlGetPropAsString",
                            [("ptr", NODE), name, ("ptr", OUT)])
    for v, st in results(eng, res):
        o = out(eng, st)
        has = [b for k, b in st.facts.items() if "xmlGetProp" in str(k)]
        if v == ONE and (o is None or "xmlGetProp" not in str(o)) or \
                v == ZERO and o is not None:
            bad(ctx, fn, "gives %s, %s" % (pp.val(v), o), st)
    ctx.require(len({v for v, _ in res}), 2, "answers of xmlGetPropAsString")
    cont = ("chain", NODE, "children")
    tag = ("sym", "tag")

    def leave(eng, st, cur):
        if trans.norm(cur[1]) != cont:
            return None
        e = ("elem", cur[1], cur)
        return (eq(eng, st, eng.load(st, ("f", e, "type")), ONE),
                eq(eng, st, eng.load(st, ("f", e, "name")), tag))
    fn, eng, pol, res = run(ctx, "ginga::xmlFindAllChildren",
                            [("ptr", NODE), tag], leave=leave, locals=True)
    for v, st in res:
        es = [e for e in st.trace if e[0] == "each" and
              trans.norm(e[1]) == cont]
        if len(es) != 1 or not es[0][4]:
            bad(ctx, fn, "does not look at all children", st)
            continue
        for s in es[0][3]:
            k = [x[2] for x in s if x[0] == "know"]
            e = [x for x in s if x[0] != "know"]
            want = len(k) == 1 and k[0] == (True, True)
            if len(k) != 1 or (not want and False not in k[0]):
                bad(ctx, fn, "a child is left in the middle", st)
            elif len(e) != want or e and e[0][:2] not in (
                    ("put", "push_back"), ("put", "emplace_back")):
                bad(ctx, fn, "a child becomes " + "; ".join(
                    map(pp.event, e)), st)
