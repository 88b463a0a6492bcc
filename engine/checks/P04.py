"""Path-sensitive dataflow over the handlers that make objects, anchors,
properties, ports and rules: what each path does to the document is compared
with what the facts of the path call for; what handlers leave for those of the
surrounding elements is followed through the lists that they share."""
import services
import nodes
import pp
import spec
import trans
from absint import ZERO, ONE, mentions
from nodes import ELT, PAR, SCOPE, XML, fnv, attr
from spec import E, ERROR

NONE = ("int", 2 ** 64 - 1)


def root(x):
    return fnv("object", "ginga::Context", "getRoot")


def norm(v):
    """Objects made here, by class; sources made absolute."""
    if v is None:
        return ("none",)
    if v[0] == "ptr" and v[1][:2] == ("o", "new"):
        return ("new", v[1][2])
    if mentions(v, fnv("xmlBuildURI", attr(E, "src"), fnv("uri"))):
        return ("abs", attr(E, "src"))
    return v


def canon(e, inside):
    if e[0] == "do":
        n = e[1].split("::")[1]
        a = [norm(x) for x in e[2:]]
        if n == "setProperty":
            a = a[:3]
        if n == "addAlias" and a[2:] == [ZERO]:
            a = a[:2]
        if n == "setData":
            return None
        return (n,) + tuple(a)
    if e[0] == "new":
        return ("new", ("new", e[1])) + tuple(e[3])
    if e[0] == "push":
        return ("push", norm(e[1]))
    if e[0] == "pop":
        return ("pop", norm(e[1]))
    return None


# -- what the handlers that start an element do

def ncl(q):
    out = [("push", root(q))]
    if q.attr("id"):
        out.append(("addAlias", root(q), attr(E, "id")))
    return out


def body(q):
    out = [("push", SCOPE)]
    if q.attr("id"):
        out.append(("addAlias", SCOPE, attr(E, "id")))
    return out


def composition(cls):
    def f(q):
        if q.fact(("getObjectById", attr(E, "id"))):
            return ERROR
        n = ("new", cls)
        return [("new", n, attr(E, "id")), ("addChild", SCOPE, n),
                ("push", n)]
    return f


def media(q):
    t, r, s = q.attr("type"), q.attr("refer"), q.attr("src")
    if r and (t or s):
        return ERROR
    i = attr(E, "id")
    new = ("new", "ginga::Media")
    settings = fnv("object", "ginga::MediaSettings", "getSettings")
    ty = attr(E, "type") if t else ("str", "")
    out = []
    if r:
        ref = attr(E, "refer")
        m = fnv("object", "ginga::Media", "getObjectByIdOrAlias", ref)
        there = False
        if q.fact(("getObjectByIdOrAlias", ref)):
            there = any(("ne", fnv("object", c, "getObjectByIdOrAlias", ref))
                        in q.st.facts and c == "ginga::Media"
                        for c in ("ginga::Context", "ginga::Switch",
                                  "ginga::Media"))
        if not there:
            if q.fact(("refer at first", ref)):
                m = fnv("object", "ginga::Media", "refer", ref)
            elif q.fact(("fn", "xmlHasSettings", (
                    fnv("xmlDocGetRootElement", ("ptr", XML)), ref))):
                m = settings
            else:
                m = new
                out += [("new", new, ref), ("refer", ref, new)]
    elif q.eq(ty, ("str", "application/x-ginga-settings")) or \
            q.eq(ty, ("str", "application/x-ncl-settings")):
        m = settings
    else:
        src = ("str", "")
        if s and not q.eq(attr(E, "src"), ("str", "")):
            if q.null(fnv("xmlBuildURI", attr(E, "src"), fnv("uri"))):
                return ERROR
            src = ("abs", attr(E, "src"))
        if q.fact(("getObjectById", i)):
            return ERROR
        if q.fact(("refer at first", i)):
            m = fnv("object", "ginga::Media", "refer", i)
        else:
            m = new
            out.append(("new", m, i))
        return out + [("setProperty", m, ("str", "uri"), src),
                      ("setProperty", m, ("str", "type"), ty),
                      ("addChild", SCOPE, m), ("push", m)]
    return out + [("addAlias", m, i, SCOPE), ("refer", i, m), ("push", m)]


def area(q):
    i, n = attr(E, "id"), "addPresentationEvent"
    label = attr(E, "label")
    b, e = q.attr("begin"), q.attr("end")
    if q.attr("label") and not q.eq(label, ("str", "")):
        if b or e:
            return ERROR
        return [(n, SCOPE, i, label)]
    t = []
    for has, name, default in ((b, "begin", ZERO), (e, "end", NONE)):
        if not has:
            t.append(default)
        elif q.fact(("time", attr(E, name))):
            t.append(fnv("time", attr(E, name)))
        else:
            return ERROR
    return [(n, SCOPE, i) + tuple(t)]


def prop(q):
    n, v = attr(E, "name"), attr(E, "value")
    out = [("addAttributionEvent", SCOPE, n)]
    if q.attr("value") and not q.eq(v, ("str", "")):
        out.append(("setProperty", SCOPE, n, v))
    return out


STARTS = {"ncl": ncl, "body": body, "context": composition("ginga::Context"),
          "switch": composition("ginga::Switch"), "media": media,
          "area": area, "property": prop}


def canon_push(pol, st):
    out = []
    refs = []
    for e, i in trans.flat(st.trace):
        x = canon(e, i)
        if x is not None:
            out.append(x)
        if e[0] == "referadd":
            refs.append(("refer", e[1], norm(e[2])))
    for x in refs:
        # adding what is there already, or what is found anyway, is nothing
        if x[2] == fnv("object", "ginga::Media", "refer", x[1]):
            continue
        if x[1] != attr(E, "id") and x[2][0] != "new":
            continue
        out.append(x)
    ne = ("str", "")
    out = [tuple(("str", "") if st.facts.get(("val", y)) == ne else y
                 for y in x) if x[0] == "setProperty" else x for x in out]
    return out


# -- what they leave to others

LEFT = {"port": 1, "switchPort": 1, "mapping": 1, "bindRule": 1,
        "defaultComponent": 1, "bind": 1}


def denotes(x):
    """Does what was put into a list tell which element it is about?"""
    return x == E or idof(x) or x[0] == "struct" and any(
        denotes(y) for p, y in x[2]) or x == ("ptr", ("o", "node", E))


def idof(x):
    return nodes.idof(x) == E


def left(pol, st, tag):
    puts = [e for e, i in trans.flat(st.trace) if e[0] == "put" and
            nodes.keyof(trans.norm(e[2])) and
            nodes.keyof(trans.norm(e[2]))[0] == ("ptr", PAR)]
    if len(puts) != 1:
        return "%d notes are left for the surrounding element" % len(puts)
    if puts[0][1] not in ("push_back", "emplace_back"):
        return "the notes are not in the order of the document"
    if not any(denotes(x) for x in puts[0][3:]):
        return "the note does not tell the element"
    return None


# -- what the handlers that finish an element make of it

def mine(pol, v):
    """The tags of the elements that left v in a list of the element."""
    s = pol.ctx.stored(pol, None, v)
    return {t for t, x in s}, [x for t, x in s]


def loops(trace, pol, tags, owner=None):
    """The passes over the list that the tags elements left notes in."""
    out = []
    for e in trace:
        if e[0] != "each":
            continue
        k = nodes.keyof(trans.norm(e[1]))
        if k is None or owner is not None and k[0] != owner:
            continue
        at = (pol.tagof(pol.last, k[0]), k[1])
        if {t for t, x, q in pol.ctx.prov.get(at, [])} & set(tags):
            out.append(e)
    return out


def element(pol, v, tags):
    """The value in a list that the element v stands for, or None."""
    if v[:3] == ("op", "fn", "byid") and set(tags) <= set(v[4]):
        i = v[3]
        t, xs = mine(pol, i)
        if t and t <= set(tags) and all(idof(x) for x in xs):
            return i
        return None
    t, xs = mine(pol, v)
    if t and t <= set(tags) and all(x == E for x in xs):
        return v
    return None


def base(v):
    while v[0] == "fld" or v[0] == "at" and v[1][0] == "f":
        v = v[1] if v[0] == "fld" else ("at", v[1][1])
    return v


def of(v, ident):
    """Is v (part of) the element of an iteration over ident?"""
    v = base(v)
    return v[0] == "at" and v[1][0] == "elem" and \
        trans.norm(v[1][1]) == trans.norm(ident)


def complete(e):
    return e[4] is True and e[2] == "cur"


def ports(pol, eng, st):
    ls = [e for e in loops(st.trace, pol, ["port"], E)
          if any(x[0] == "do" for s in e[3] for x in s)]
    if st.facts.get(("empty", ls[0][1])) if ls else False:
        return None
    all_ = loops(st.trace, pol, ["port"], E)
    if not all_:
        return "its ports are not gone through"
    if not ls:
        if any(st.facts.get(("empty", e[1])) for e in all_):
            return None
        return "its ports are not added"
    if len(ls) != 1 or not complete(ls[0]):
        return "not all ports are added, in order, once"
    for s in ls[0][3]:
        d = [x for x in s if x[0] == "do"]
        if len(d) != 1 or d[0][1].split("::")[1] != "addPort" or \
                d[0][2] != SCOPE:
            return "a port adds %s" % "; ".join(pp.event(x) for x in d)
        ev = d[0][3]
        if ev[:3] != ("op", "fn", "resolveInterface") or ev[3] != SCOPE:
            return "a port becomes %s" % pp.val(ev)
        x = element(pol, ev[4], ["port"])
        if x is None or not of(x, ls[0][1]):
            return "a port becomes %s" % pp.val(ev)
    return None


def switchports(pol, eng, st):
    all_ = loops(st.trace, pol, ["switchPort"], E)
    if not all_:
        return "its ports are not gone through"
    ls = [e for e in all_ if e[3]]
    if not ls:
        return None if any(st.facts.get(("empty", e[1])) for e in all_) \
            else "its ports are not added"
    if len(ls) != 1 or not complete(ls[0]):
        return "not all ports are added, once"
    for s in ls[0][3]:
        d = [x for x in s if x[0] == "do"]
        if len(d) != 1 or d[0][1].split("::")[1] != "addSwitchPort" or \
                d[0][2] != SCOPE or d[0] in s and s[-1] != d[0] and False:
            return "a port adds %s" % "; ".join(pp.event(x) for x in d)
        name, evs = d[0][3], d[0][4]
        t, xs = mine(pol, name)
        own = name
        if name[:3] == ("op", "fn", "attr") and name[4] == ("str", "id"):
            own = element(pol, name[3], ["switchPort"])
            ok = own is not None
        else:
            ok = t == {"switchPort"} and all(idof(x) for x in xs)
        if not ok or not of(own, ls[0][1]):
            return "a port is named %s" % pp.val(name)
        ms = loops(s, pol, ["mapping"])
        if not ms:
            return "the mappings of a port are not gone through"
        for m in ms:
            k = nodes.keyof(trans.norm(m[1]))
            x = element(pol, k[0], ["switchPort"])
            if x is None or not of(x, ls[0][1]):
                return "a port gets the mappings of another"
        fs = [m for m in ms if m[3]]
        if not fs:
            if evs[:2] == ("cont", "empty"):
                continue
            return "the mappings of a port are not used"
        if len(fs) != 1 or not complete(fs[0]):
            return "not all mappings of a port are used, in order, once"
        for ms in fs[0][3]:
            p = [x for x in ms if x[0] == "put"]
            if len(p) != 1 or p[0][1] not in ("push_back", "emplace_back"):
                return "a mapping adds %d events" % len(p)
            v = p[0][3]
            if v[:3] != ("op", "fn", "resolveInterface") or v[3] != SCOPE:
                return "a mapping becomes %s" % pp.val(v)
            x = element(pol, v[4], ["mapping"])
            if x is None or not of(x, fs[0][1]):
                return "a mapping becomes %s" % pp.val(v)
            if evs[0] == "cont" and evs[2] != p[0][2] or evs[0] != "cont":
                return "a port is mapped to %s" % pp.val(evs)
    return None


def pops(pol, eng, st):
    ps = [e for e, i in trans.flat(st.trace) if e[0] == "pop"]
    if [e[1] for e in ps] != [SCOPE]:
        return "the object is left %d times" % len(ps)
    return None


def note(pol, eng, st, n, a):
    """What is known about a rule when it is added or set aside."""
    if n not in ("addRule", "put") or len(a) < 2:
        return None
    v = a[1]
    if v[0] != "fld" and v[0] != "at":
        return None
    b = base(v)
    if b[0] != "at" or b[1][0] != "elem":
        return None
    elt = None
    for f in ("first", "second"):
        x = ("fld", b, f) if v[0] == "fld" else ("at", ("f", b[1], f))
        t = pol.tagof(st, x)
        if t:
            elt = (x, t)
            break
    if elt is None:
        return ("rule", b, None, None, None, None)
    rule = fnv("byid", fnv("attr", elt[0], ("str", "rule")),
               ("rule", "compositeRule"))
    for k in st.facts:
        if k[0] == "found" and k[1][3] == fnv("attr", elt[0],
                                              ("str", "rule")):
            rule = k[1]
    pred = fnv("data", rule, ("str", "pred"))
    atom = truth(eng, st, fnv("getType", pred), ("int", eng.p.enum(
        "ginga::Predicate::ATOM")))
    kids = trans.norm(("at", ("d", fnv("getChildren", pred))))
    return ("rule", b, elt[1], pred, atom, truth(
        eng, st, ("op", "size", kids), ZERO))


def truth(eng, st, a, b):
    r = {x for x, s in eng.trutheq(st.copy(), a, b)}
    return r.pop() if len(r) == 1 else None


def rules(pol, eng, st):
    els = ("op", "fn", "elements", ("switch",))
    outer = [e for e in st.trace if e[0] == "each" and
             trans.norm(e[1]) == els]
    if st.facts.get(("empty", els)):
        return None
    if len(outer) != 1 or not complete(outer[0]):
        return "not all switches get their rules"
    for s in outer[0][3]:
        bad = switchrules(pol, eng, st, s, els)
        if bad:
            return bad
    return None


def switchrules(pol, eng, st, seg, els):
    aside = {}
    stage = 0           # 0: rules, 1: defaults
    done = set()
    skipped = set()
    seen = None         # kinds that all the loops go through
    for e in seg:
        if e[0] == "do":
            return "a switch gets %s" % pp.event(e)
        if e[0] != "each":
            continue
        i = trans.norm(e[1])
        k = nodes.keyof(i)
        ismain = False
        if k is not None:
            ts = {t for t, x, q in pol.ctx.prov.get(("switch", k[1]), [])}
            ismain = bool(ts & {"bindRule", "defaultComponent"})
            if ismain and not of(k[0], els):
                return "a switch gets the rules of another"
        if not ismain and i not in aside:
            continue
        kinds = set()
        for s in e[3]:
            if ismain:
                w = rule(pol, eng, s, i, k[0], aside, skipped)
            else:
                w = default(pol, s, i, aside, done)
            if isinstance(w, str):
                return w
            kinds |= w
        if not e[3]:
            if ismain:
                done |= {"bindRule", "defaultComponent"}
            continue
        if ismain:
            here = {x[2] if x[1] == "left" else x[3] for s in e[3]
                    for x in s if x[0] == "know" and
                    x[1] in ("left", "rule")}
            seen = here if seen is None else seen & here
        if not complete(e):
            return "not all rules of a switch are added in order"
        if "bindRule" in kinds and stage:
            return "rules come after the default components"
        if "defaultComponent" in kinds:
            if "bindRule" in kinds:
                return "default components come before rules"
            stage = 1
        if kinds & done:
            return "rules are added twice"
        done |= kinds
    if aside and "defaultComponent" not in done:
        return "default components are not added"
    for k in sorted((skipped - done) & (seen or set())):
        return "a %s of a switch is not used" % k
    return None


def resolvedto(pol, v, el):
    """Is v what the component of the element refers to?"""
    s = pol.ctx.stored(pol, None, v)
    return bool(s) and all(
        x[:3] == ("op", "fn", "resolveComponent") and x[3] == SCOPE and
        element(pol.ctx.popper("switch"), x[4],
                ["bindRule", "defaultComponent"]) is not None
        for t, x in s)


def end(pol, eng, st, cur):
    """What is known about a rule that an iteration leaves."""
    k = nodes.keyof(trans.norm(cur[1]))
    if k is None or k[1] != "rules":
        return None
    x = ("elem", cur[1], cur)
    for f in ("first", "second"):
        for v in (("fld", ("at", x), f), ("at", ("f", x, f))):
            t = pol.tagof(st, v)
            if t:
                return ("left", t)
    return ("left", None)


def rule(pol, eng, s, ident, owner, aside, skipped):
    """What a note about a rule or default component becomes."""
    know = [e for e in s if e[0] == "know" and e[1] == "rule"]
    does = [e for e in s if e[0] == "do"]
    puts = [e for e in s if e[0] == "put"]
    left = {e[2] for e in s if e[0] == "know" and e[1] == "left"}
    if not does and not puts and left in ({"defaultComponent"}, {"bindRule"}):
        skipped |= left
        return set()
    if len(know) != 1 or len(does) + len(puts) != 1:
        return "a rule of a switch is used %d times" % (
            len(does) + len(puts))
    _, _, b, tag, pred, atom, empty = know[0]
    if tag is None:
        return "rules and default components are not told apart"
    obj = (does or puts)[0][3]
    if not of(obj, ident) or not resolvedto(pol, obj, tag):
        return "a rule selects %s" % pp.val(obj)
    if puts:
        if tag != "defaultComponent" or puts[0][1] not in (
                "push_back", "emplace_back"):
            return "a rule is set aside"
        aside.setdefault(trans.norm(puts[0][2]), tag)
        return set()
    d = does[0]
    if d[1].split("::")[1] != "addRule":
        return "a switch gets %s" % pp.event(d)
    want = fnv("object", "ginga::Switch", "byid", fnv(
        "attr", owner, ("str", "id")))
    if d[2] != want:
        return "%s gets the rule" % pp.val(d[2])
    new = [e for e in s if e[0] == "new" and e[2] == d[4]]
    F, T = [("int", eng.p.enum("ginga::Predicate::" + n))
            for n in ("FALSUM", "VERUM")]
    if tag == "defaultComponent":
        if not new or new[0][3] != (T,):
            return "a default component needs %s" % pp.val(d[4])
        return {tag}
    isclone = d[4][:3] == ("op", "fn", "clone") and d[4][3] == pred
    isfalse = bool(new) and new[0][3] == (F,)
    if atom is not True and empty is not False:
        if atom is None or empty is None:
            return "a rule is used without regard to whether it has parts"
        if not isfalse:
            return "a rule without parts holds"
    elif not isclone:
        return "a rule needs %s" % pp.val(d[4])
    return {tag}


def default(pol, s, ident, aside, done):
    does = [e for e in s if e[0] == "do"]
    new = [e for e in s if e[0] == "new"]
    if len(does) != 1 or does[0][1].split("::")[1] != "addRule":
        return "a default component is used %d times" % len(does)
    d = does[0]
    if not of(d[3], ident):
        return "a default component is %s" % pp.val(d[3])
    T = ("int", pol.ctx.p.enum("ginga::Predicate::VERUM"))
    if not [e for e in new if e[2] == d[4] and e[3] == (T,)]:
        return "a default component needs %s" % pp.val(d[4])
    if d[2][:5] != ("op", "fn", "object", "ginga::Switch", "byid"):
        return "%s gets the default component" % pp.val(d[2])
    return {aside[ident]}


ENDS = {"body": [ports, pops], "context": [ports, pops],
        "switch": [switchports, pops], "ncl": [rules, pops]}


def view(fn, eng, pol, res, job):
    bad = []
    tag, par, which, top, kw = job

    def put(kind, text, st):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), kind, text,
                    pp.trace(st.trace)[:400] + " | " +
                    "; ".join(pp.facts(st.facts))[:300]))
    for v, st in res:
        pol.last = st
        if which == "push" and tag in STARTS:
            got = ERROR if v == ZERO else canon_push(pol, st)
            w = spec.compare(STARTS[tag], eng, pol, st, tag, got)
            if w:
                put("effect", w, st)
        if v == ZERO:
            continue
        if which == "push" and tag in LEFT:
            w = left(pol, st, tag)
            if w:
                put("note", w, st)
        if which == "pop":
            for f in ENDS.get(tag, []):
                w = f(pol, eng, st)
                if w:
                    put(f.__name__, w, st)
    if not any(v != ZERO for v, st in res):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), "never",
                    "it never succeeds", ""))
    return bad[:6]


def pick(j):
    tag, par, which, top, kw = j
    if which == "push":
        return tag in STARTS or tag in LEFT
    return tag in ENDS and (tag != "ncl" or kw.get("only") in (
        [], ["switch"]))


def check(ctx):
    services.verify(ctx, "cache refers objects elements data")
    g, c, out = nodes.sweep(ctx, view, pick, locals=True, note=note, end=end)
    for j, bad in out:
        for q, where, kind, text, tr in bad:
            ctx.violation("%s %s %s" % (q, j[0], kind), "%s: %s: %s" % (
                where, nodes.describe(j), text), tr)
    ctx.rule("every path of a handler does to the document exactly what the "
             "element calls for, given the facts of the path; what elements "
             "leave for the one around them is used completely, in order, "
             "once")
