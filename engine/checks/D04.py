"""Path-sensitive dataflow over the functions that build a document (children,
ports, links, rules, switch ports, aliases, properties), containers abstracted
to a generic element: what each puts where, with what was given present or
not."""
import own
import predicates
import trans
import pp
from absint import ZERO, ONE
from trans import OBJ, DOC

X, Y = ("o", "child"), ("o", "pred")
A, B = ("sym", "a"), ("sym", "b")


def f(name):
    return trans.fld(OBJ, name)


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def register(eng, st, c):
    if c.q == "ginga::Document::addObject":
        st.emit("register", c.recv, *[eng.rv(st, a) for a in c.args])
        return [(ONE, st)]
    if c.q.startswith("ginga::Object::addPresentationEvent"):
        st.emit("event", *[eng.rv(st, a) for a in c.args])
        return [(("sym", "void"), st)]


def run(ctx, q, args, cls, tweak=None, elem=None, eq=None):
    def tw(p, st):
        st.mem[("f", OBJ, "_doc")] = ("ptr", DOC)
        for k in (A, B):        # lists of conditions and actions
            st.facts[("empty", k)] = False
        if tweak:
            tweak(p, st)
    fn, eng, pol, res = own.perform(
        ctx.p, q, OBJ, args, {OBJ: "ginga::" + cls, DOC: "ginga::Document",
                              X: "ginga::Media"}, tw, elem, register, eq=eq)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    return fn, eng, res


def pair(eng, e):
    v = e[3:]
    if len(v) == 2:
        return v
    return (eng.field(v[0], "first"), eng.field(v[0], "second"))


def appended(e, ident):
    return e[0] == "put" and trans.norm(e[2]) == ident and \
        e[1] in ("push_back", "emplace_back")


def once(ctx, q, args, cls, field, item, ordered=True):
    """Put in once; nothing when it is there."""
    for there in (False, True):
        def tweak(p, st):
            st.facts[("has", f(field), item)] = there
            st.mem[("f", X, "_parent")] = ("ptr", OBJ) if there else ZERO
            if there:
                st.facts[("empty", f(field))] = False

        def elem(eng, st, cur):
            # it need not be the first or the last
            if there and trans.norm(cur[1]) == f(field) and \
                    cur[2][0] != "pop":
                st.mem[("elem", cur[1], cur)] = item

        def eq(eng, st, a, b):
            for x, y in ((a, b), (b, a)):
                if y == item and own.isel(x, f(field)):
                    return False
        fn, eng, res = run(ctx, q, args, cls, tweak, elem, eq)
        for v, st in res:
            puts = [e for e, i in own.effects(st.trace)
                    if e[0] in ("put", "take")]
            regs = [e for e, i in trans.flat(st.trace)
                    if e[0] == "register"]
            if there:
                if own.effects(st.trace) or regs:
                    bad(ctx, fn, q + " again", "what is there already is "
                        "added again", st)
                continue
            if len(puts) != 1 or trans.norm(puts[0][2]) != f(field) or \
                    puts[0][0] != "put" or puts[0][3:] != (item,) and \
                    pair(eng, puts[0]) != item:
                bad(ctx, fn, q, "does not put %s into %s, once" % (
                    pp.val(item), field), st)
                continue
            if ordered and not appended(puts[0], f(field)):
                bad(ctx, fn, q + " order", "not appended", st)
            if field == "_children":
                if st.mem.get(("f", X, "_parent")) != ("ptr", OBJ):
                    bad(ctx, fn, q + " parent", "the parent of the child is "
                        "not set", st)
                if [e[1:] for e in regs] != [(("ptr", DOC), ("ptr", X))]:
                    bad(ctx, fn, q + " document", "the child is not added "
                        "to the document", st)


def sequence(ctx, q, args, cls, field, want):
    fn, eng, res = run(ctx, q, args, cls)
    for v, st in res:
        puts = [e for e, i in own.effects(st.trace)
                if e[0] in ("put", "take")]
        if len(puts) != 1 or not appended(puts[0], f(field)) or \
                pair(eng, puts[0]) != want:
            bad(ctx, fn, q, "not appended to %s" % field, st)


def keyed(ctx, q, args, cls, field, key, value, more=()):
    """field[key] = value, whatever was there; nothing else."""
    for there in (False, True):
        def tweak(p, st):
            st.facts[("has", f(field), key)] = there
        fn, eng, res = run(ctx, q, args, cls, tweak)
        for v, st in res:
            n = 0
            for e, i in own.effects(st.trace):
                if e[0] == "store" and e[1][0] == "elem" and \
                        trans.norm(e[1][1]) == f(field) and \
                        e[1][2] == ("find", e[1][1], key) and e[2] == value:
                    n += 1
                elif e[0] == "store" and e[1][0] == "f" and \
                        e[1][2] == "second" and e[1][1][0] == "elem" and \
                        trans.norm(e[1][1][1]) == f(field) and \
                        e[1][1][2] == ("find", e[1][1][1], key) and \
                        e[2] == value:
                    n += 1
                elif e[0] == "put" and e[1] != "insert" and \
                        trans.norm(e[2]) == f(field) and \
                        pair(eng, e) == (key, value) and \
                        (e[1] == "insert_or_assign" or not there):
                    n += 1
                elif e[0] == "put" and e[1] == "insert" and not there and \
                        trans.norm(e[2]) == f(field) and \
                        pair(eng, e) == (key, value):
                    n += 1
                else:
                    bad(ctx, fn, q + " other", pp.event(e), st)
            if n != 1:
                bad(ctx, fn, q, "%s of the key is not set to the value" %
                    field, st)
            evs = [e[1:] for e, i in trans.flat(st.trace) if e[0] == "event"]
            if tuple(evs) != tuple(more):
                bad(ctx, fn, q + " event", "adds events %s" % (evs,), st)


def reads(ctx, q, field, missing, cls="Context", args=(A,)):
    for there in (False, True):
        def tweak(p, st):
            st.facts[("has", f(field), A)] = there
            st.facts[("empty", f(field))] = not there
            e = ("elem", f(field), ("find", f(field), A))
            st.mem[e] = B
            st.mem[("f", e, "second")] = B
        fn, eng, res = run(ctx, q, list(args), cls, tweak)
        for v, st in res:
            if own.effects(st.trace):
                bad(ctx, fn, q + " effect", "changes the object", st)
            w = B if there else missing
            if v != w:
                bad(ctx, fn, "%s %s" % (q, there), "returns %s, not %s" % (
                    pp.val(v), pp.val(w)), st)


def check(ctx):
    ctx.rule("addChild, addPort, addAlias: what is not there is put in, once; "
             "a child gets its parent and enters the document; what is there "
             "stays as it is")
    ctx.rule("addPort, addLink, addRule append, with the parts in their "
             "places")
    ctx.rule("addSwitchPort and setProperty replace what the name stood for, "
             "and only that; getProperty is the value last set, or empty")
    g = "ginga::"
    for cls in ("Context", "Switch"):
        once(ctx, g + "Composition::addChild", [("ptr", X)], cls, "_children",
             ("ptr", X), False)
    once(ctx, g + "Context::addPort", [("ptr", X)], "Context", "_ports",
         ("ptr", X))
    sequence(ctx, g + "Context::addLink", [A, B], "Context", "_links", (A, B))
    sequence(ctx, g + "Switch::addRule", [("ptr", X), ("ptr", Y)], "Switch",
             "_rules", (("ptr", X), ("ptr", Y)))
    keyed(ctx, g + "Switch::addSwitchPort", [A, B], "Switch", "_switchPorts",
          A, B, ((A, A),))
    keyed(ctx, g + "Object::setProperty", [A, B, ZERO], "Context",
          "_properties", A, B)
    reads(ctx, g + "Object::getProperty", "_properties", ("str", ""))
    alias(ctx, g + "Object::addAlias")
    ctx.rule("a copy of a predicate is new, with the type, the test, and "
             "copies of the operands, in order, whose parent it is; nothing "
             "else changes")
    predicates.copies(ctx)
    predicates.filled(ctx)


def alias(ctx, q):
    """A pair is compared as a whole."""
    fn, eng, res = run(ctx, q, [A, ("ptr", X)], "Media")
    want = (A, ("ptr", X))
    put = 0
    for v, st in res:
        puts = [e for e, i in own.effects(st.trace)
                if e[0] in ("put", "take")]
        has = [b for k, b in st.facts.items()
               if k[0] == "has" and trans.norm(k[1]) == f("_aliases")]
        if not puts:
            if True not in has:
                bad(ctx, fn, q, "an alias is not recorded", st)
            continue
        put += 1
        if len(puts) != 1 or not puts[0][0] == "put" or \
                trans.norm(puts[0][2]) != f("_aliases") or \
                pair(eng, puts[0]) != want:
            bad(ctx, fn, q, "an alias is not recorded as given", st)
    if not put:
        bad(ctx, fn, q, "no alias is ever recorded", res[0][1])
