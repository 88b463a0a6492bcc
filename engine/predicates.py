"""What copying a predicate, and putting one together, makes."""
import own
import trans
import pp
from absint import ZERO
from trans import OBJ

KIDS = trans.fld(OBJ, "_children")
ATOM = ("f", OBJ, "_atom")
L, R, T = ("sym", "left"), ("sym", "right"), ("sym", "test")
LEAVES = ("FALSUM", "VERUM", "ATOM")
TYPES = LEAVES + ("NEGATION", "CONJUNCTION", "DISJUNCTION")
CLONE = "ginga::Predicate::clone"


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def setup(p, ty):
    def tweak(p, st):
        st.mem[("f", OBJ, "_type")] = ("int", p.enum("ginga::Predicate::"
                                                     + ty))
        st.mem[("f", ATOM, "test")] = T
        st.mem[("f", ATOM, "left")] = L
        st.mem[("f", ATOM, "right")] = R
        if ty in LEAVES:
            st.facts[("empty", KIDS)] = True
    return tweak


def hook(eng, st, c):
    if c.q == CLONE and eng.stack:
        loc = ("o", "copy", c.recv)
        st.mem[("f", loc, "_parent")] = ZERO
        st.emit("copied", c.recv, ("ptr", loc))
        return [(("ptr", loc), st)]


def aborts(ctx, pol, ty):
    for f, n, what, s in pol.aborts:
        ctx.violation("clone %s aborts" % ty, "%s: copying a predicate of "
                      "type %s aborts (%s)" % (f.where(n), ty, what),
                      pp.trace(s.trace))


def root(l):
    while l[0] in ("f", "elem", "d"):
        l = l[1]
    return l


def shares(ctx):
    """No operand of the original becomes one of the copy."""
    for ty in TYPES:
        fn, eng, pol, res = own.perform(
            ctx.p, CLONE, OBJ, [], {OBJ: "ginga::Predicate"},
            setup(ctx.p, ty), None, hook)
        ctx.saw(eng.analysed)
        ctx.count("paths", len(res))
        ctx.require(len(res) + len(pol.aborts), 1, "paths of " + CLONE)
        for v, st in res:
            if v == ("ptr", OBJ):
                bad(ctx, fn, "clone %s new" % ty, "a predicate is given out "
                    "as a copy of itself", st)
            for e, i in own.effects(st.trace):
                if e[0] == "put" and any(own.isel(x, KIDS) for x in e[3:]) \
                        or e[0] == "store" and own.isel(e[2], KIDS):
                    bad(ctx, fn, "clone %s shared" % ty, "an operand of a "
                        "predicate is given to its copy", st)


def copies(ctx):
    """A copy has the type, the test and copies of the operands, in order;
    the original is as before."""
    for ty in TYPES:
        fn, eng, pol, res = own.perform(
            ctx.p, CLONE, OBJ, [], {OBJ: "ginga::Predicate"},
            setup(ctx.p, ty), None, hook)
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("paths", len(res))
        ctx.require(len(res) + len(pol.aborts), 1, "paths of " + CLONE)
        aborts(ctx, pol, ty)
        for v, st in res:
            one(ctx, fn, eng, ty, v, st)


def one(ctx, fn, eng, ty, v, st):
    if v[0] != "ptr" or v[1][:2] != ("o", "new") or \
            v[1][2] != "ginga::Predicate":
        bad(ctx, fn, "clone %s new" % ty, "a copy is not a new predicate "
            "(%s)" % pp.val(v), st)
        return
    new = v[1]
    kids = trans.fld(new, "_children")

    def is_(f, want, what):
        got = eng.rv(st, eng.load(st, f))
        if got != want:
            bad(ctx, fn, "clone %s %s" % (ty, what), "the %s of a copy is "
                "%s, not that of the original" % (what, pp.val(got)), st)
    is_(("f", new, "_type"), ("int", ctx.p.enum("ginga::Predicate::" + ty)),
        "type")
    if ty == "ATOM":
        a = ("f", new, "_atom")
        is_(("f", a, "test"), T, "comparator")
        is_(("f", a, "left"), L, "left side")
        is_(("f", a, "right"), R, "right side")
    if eng.rv(st, eng.load(st, ("f", new, "_parent"))) != ZERO:
        bad(ctx, fn, "clone %s parent" % ty, "a copy has a parent", st)
    for e, i in own.effects(st.trace):
        if e[0] in ("take", "delete") or e[0] == "put" and \
                trans.norm(e[2]) != kids or e[0] == "store" and \
                root(e[1])[:2] not in (("o", "new"), ("o", "copy")):
            bad(ctx, fn, "clone %s else" % ty, "copying changes something "
                "else: " + pp.event(e), st)
    if ty in LEAVES:
        return

    def puts(seg):
        return [e for e, i in trans.flat(seg) if e[0] == "put"]

    def ok(seg):
        w = puts(seg)
        return len(w) == 1 and w[0][1] in ("push_back", "emplace_back") and \
            trans.norm(w[0][2]) == kids and len(w[0]) == 4 and \
            iscopy(w[0][3]) and parents(seg, w[0][3]) == ("ptr", new)
    good, why = trans.foreach(eng, st, st.trace, KIDS, ok)
    if not good:
        bad(ctx, fn, "clone %s operands" % ty, "the operands of a copy are "
            "not copies of those of the original (%s)" % why, st)
    passes = [e for e in trans.eaches(st.trace, KIDS)
              if any(puts(s) for s in e[3])]
    out = [e for e in puts(st.trace) if not iscopy(e[3])]
    if len(passes) > 1 or out:
        bad(ctx, fn, "clone %s more" % ty, "a copy has other operands than "
            "copies of the original's", st)


def iscopy(v):
    return v[0] == "ptr" and v[1][:2] == ("o", "copy") and \
        own.isel(v[1][2], KIDS)


def parents(seg, v):
    r = None
    for e, i in trans.flat(seg):
        if e[0] == "store" and e[1] == ("f", v[1], "_parent"):
            r = e[2]
    return r


def filled(ctx):
    """addChild: appended, with its parent; setTest: all three parts."""
    x = ("o", "pred")
    q = "ginga::Predicate::addChild"
    for ty in TYPES:
        if ty in LEAVES:
            continue

        def tw(p, st, ty=ty):
            setup(p, ty)(p, st)
            st.mem[("f", x, "_parent")] = ZERO
        fn, eng, pol, res = own.perform(
            ctx.p, q, OBJ, [("ptr", x)],
            {OBJ: "ginga::Predicate", x: "ginga::Predicate"}, tw)
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("paths", len(res))
        ctx.require(len(res) + len(pol.aborts), 1, "paths of " + q)
        for f, n, what, s in pol.aborts:
            bad(ctx, fn, "add %s aborts" % ty, "aborts (%s)" % what, s)
        for v, st in res:
            w = [e for e, i in own.effects(st.trace)
                 if e[0] in ("put", "take")]
            if len(w) != 1 or w[0][1] not in ("push_back", "emplace_back") \
                    or trans.norm(w[0][2]) != KIDS or \
                    w[0][3:] != (("ptr", x),):
                bad(ctx, fn, "add " + ty, "an operand is not appended, once",
                    st)
            if st.mem.get(("f", x, "_parent")) != ("ptr", OBJ):
                bad(ctx, fn, "add %s parent" % ty, "the parent of an operand "
                    "is not set", st)
    q = "ginga::Predicate::setTest"
    a, b, t = ("sym", "a"), ("sym", "b"), ("sym", "t")
    fn, eng, pol, res = own.perform(
        ctx.p, q, OBJ, [a, t, b], {OBJ: "ginga::Predicate"},
        setup(ctx.p, "ATOM"))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    for v, st in res:
        for f, w in (("left", a), ("right", b), ("test", t)):
            if eng.rv(st, eng.load(st, ("f", ATOM, f))) != w:
                bad(ctx, fn, "test " + f, "the %s of a test is not set" % f,
                    st)
