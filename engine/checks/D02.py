"""Ownership analysis: path-sensitive dataflow over the destructors (and over
Formatter::stop), with containers abstracted to a generic element, plus a
type-hierarchy rule for every delete expression of the program."""
import own
import predicates
import trans
import pp
from absint import ZERO
from prog import AnchorGone

# class, owned containers (field, path to the owned pointer in an element)
ELEMENTS = [
    ("Context", "_children", ()),
    ("Switch", "_children", ()),
    ("Switch", "_rules", ("second",)),
    ("Object", "_events", ()),
    ("Predicate", "_children", ()),
]
POINTERS = [("Document", "_root"), ("Media", "_player")]


def report(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def tweak(p, st):
    st.mem[("f", trans.OBJ, "_lambda")] = ("ptr", trans.LAM)


def destructor(ctx, cls, nonnull=()):
    q = "ginga::%s::~%s" % (cls, cls)
    fn, eng, pol, res = own.run(ctx.p, q, "ginga::" + cls, nonnull, tweak)
    ctx.saw(eng.analysed)
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    return fn, eng, res


def check(ctx):
    p = ctx.p
    ctx.rule("a destructor deletes each element of a container its object "
             "owns exactly once, in a complete pass, and nothing that it does "
             "not own")
    ctx.rule("a context is stopped before its children are deleted")
    ctx.rule("formatter: a document is deleted exactly when it is stopped, "
             "and not referred to afterwards")
    ctx.rule("the static class of every delete expression has a virtual "
             "destructor, or no class derived from it")
    for cls, f, path in ELEMENTS:
        ident = trans.fld(trans.OBJ, f)
        fn, eng, res = destructor(ctx, cls, ("predicate", "second"))
        ctx.count("obligations")
        for v, st in res:
            w = own.all_deleted(eng, st, ident, path)
            if w:
                report(ctx, fn, "%s %s" % (cls, f), w, st)
    # the predicates of links
    fn, eng, res = destructor(ctx, "Context", ("predicate",))
    lk = trans.fld(trans.OBJ, "_links")
    for v, st in res:
        for part in ("first", "second"):
            ctx.count("obligations")

            def ok(seg):
                for e in seg:
                    if e[0] != "each":
                        continue
                    i = trans.norm(e[1])
                    if i[0] == "fld" and i[2] == part and \
                            own.isel(i, lk, (part,)) and e[4] and all(
                                len([d for d in own.deletes(s)
                                     if d[0] == "fld" and d[2] == "predicate"
                                     and own.isel(d[1], i)]) == 1
                                for s in e[3]):
                        return True
                return False
            good, why = trans.foreach(eng, st, st.trace, lk, ok)
            if not good:
                report(ctx, fn, "Context predicates " + part,
                       "predicates of %s of links are not released (%s)"
                       % ({"first": "conditions",
                           "second": "actions"}[part], why), st)
        # stopped first
        stop = trans.tconst(p, "STOP")
        seen = False
        for e in st.trace:
            if e[0] == "transition" and e[1] == ("ptr", trans.LAM) and \
                    e[2] == stop:
                seen = True
            if own.deletes((e,)) and not seen:
                report(ctx, fn, "Context stop", "not stopped before its "
                       "children are deleted", st)
                break
    for cls, f in POINTERS:
        ctx.count("obligations")
        fn, eng, res = destructor(ctx, cls)
        v0 = trans.fld(trans.OBJ, f)
        some = False
        for v, st in res:
            d = [x for x in own.deletes(st.trace) if x == v0]
            if st.facts.get(("val", v0)) == ZERO:
                continue
            if cls == "Media" and ("ne", v0) not in st.facts and not d:
                # only known when looked at; a media without player
                report(ctx, fn, cls + " " + f, "%s is not deleted" % f, st)
                continue
            some = True
            if len(d) != 1:
                report(ctx, fn, cls + " " + f, "%s is deleted %d times" % (
                    f, len(d)), st)
            if cls == "Media" and d and \
                    trans.final(st, trans.OBJ, f) != ZERO:
                report(ctx, fn, cls + " null", "%s is left dangling" % f, st)
        if not some:
            raise AnchorGone("%s::%s" % (cls, f))
    formatter(ctx)
    virtual(ctx)
    ctx.rule("a copy of a predicate shares no operand with it")
    predicates.shares(ctx)


def formatter(ctx):
    p = ctx.p
    playing = ("int", p.enum("GINGA_STATE_PLAYING"))
    stopped = ("int", p.enum("GINGA_STATE_STOPPED"))
    doc = ("f", trans.OBJ, "_doc")
    for q in ("ginga::Formatter::stop", "ginga::Formatter::~Formatter"):
        for state in (playing, stopped):
            def tw(p, st):
                st.mem[("f", trans.OBJ, "_state")] = state
                st.mem[doc] = ("ptr", trans.DOC) if state == playing else ZERO
            fn, eng, pol, res = own.run(p, q, "ginga::Formatter", (), tw)
            ctx.saw(eng.analysed)
            ctx.count("paths", len(res))
            ctx.count("obligations")
            ctx.require(len(res), 1, "paths of " + q)
            for v, st in res:
                d = [x for x in own.deletes(st.trace)
                     if x == ("ptr", trans.DOC)]
                if state == playing:
                    if len(d) != 1:
                        report(ctx, fn, q + " document",
                               "the document is deleted %d times" % len(d),
                               st)
                    if "~" not in q and st.mem.get(doc) != ZERO:
                        report(ctx, fn, q + " dangling",
                               "the document is left dangling", st)


def virtual(ctx):
    p = ctx.p
    for f in p.fns.values():
        for n, nd in enumerate(f.nodes):
            if nd["k"] != "CXXDeleteExpr":
                continue
            t = nd["dt"].replace("const ", "").replace("class ", "")
            t = t.rstrip("* &").strip()
            ctx.count("delete_expressions")
            if t not in p.classes:
                continue
            subs = [c for c in p.derived(t) if c != t]
            if not subs:
                continue
            ok = any(m.get("virt") for c in p.bases(t) if c in p.classes
                     for m in p.classes[c]["methods"]
                     if "::~" in m["key"])
            if not ok:
                ctx.violation("virtual %s" % t, "%s: %s: delete of a %s, "
                              "whose destructor is not virtual, though %s "
                              "derives from it" % (f.where(n), f.q, t,
                                                   subs[0]))
    ctx.require(ctx.counts.get("delete_expressions", 0), 10, "deletes")
