"""Path-sensitive dataflow over the handlers of the parser and what they call:
what a path returns against whether it has set an error."""
import services
import nodes
import pp
from prog import AnchorGone
from absint import ZERO
from nodes import ST, ELT, OUT, SCOPE


def view(fn, eng, pol, res, job):
    bad = set()
    none = ("int", eng.p.enum("ginga::ParserState::ERROR_NONE"))
    for v, st in res:
        err = st.mem.get(("f", ST, "_error"), none) != none
        if err == (v == ZERO):
            continue
        bad.add((fn.q, "%s:%d" % (fn.file, fn.line), err,
                 pp.trace(st.trace)[-300:] + " | " +
                 "; ".join(pp.facts(st.facts))[:300]))
    return sorted(bad)[:4]


def check(ctx):
    services.verify(ctx, "errors")
    g, c, out = nodes.sweep(ctx, view)
    e = ("ptr", ELT)
    for name, tag, par, sc in nodes.resolvers(g):
        try:
            fn, eng, pol, res = nodes.runserv(
                ctx.p, g, c, name, [SCOPE, e, ("ptr", OUT)], tag, par, sc)
        except AnchorGone:
            continue
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("paths", len(res))
        out.append(((tag, par, name, None, {}),
                    view(fn, eng, pol, res, None)))
    for j, bad in out:
        for q, where, err, tr in bad:
            ctx.violation(
                "%s %s %s" % (q, j[0], "accepts" if err else "silent"),
                "%s: %s: a path %s" % (
                    where, nodes.describe(j), "succeeds after an error was "
                    "reported" if err else "fails without an error having "
                    "been reported"), tr)
    ctx.rule("a handler of the parser, and a service that resolves a "
             "reference, fails exactly on the paths on which an error of the "
             "document has been set")
