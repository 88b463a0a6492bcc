"""Path-sensitive dataflow over every transition of every type of event of
every class of object, in every state (transition function and hooks analysed
in place, assertions being branches): no path ends in a failed assertion, a
fatal error or the use of a null pointer."""
import trans
import pp


def digest(prog, c):
    out = []
    for fn, nid, what, st in c.aborts:
        out.append(("abort %s %s" % (fn.n, trans.label(c)),
                    "%s: %s aborts the process: %s" % (
                        fn.where(nid), trans.label(c), what),
                    "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                             pp.trace(st.trace))))
    for fn, nid, v, tr in c.nulls:
        out.append(("null %s %s" % (fn.n, trans.label(c)),
                    "%s: %s uses a null pointer" % (fn.where(nid),
                                                    trans.label(c)),
                    pp.trace(tr)))
    return out, len(c.results), trans.label(c)


def check(ctx):
    ctx.rule("no path of a transition, legal or not, reaches a failed "
             "assertion, a fatal error or a null pointer")
    trans.cases(ctx, digest, types=trans.TYPES, lams=(True, False),
                legal=False)
