"""Reachability of aborts and null dereferences in the handlers of the parser,
in every context that the grammar admits."""
import nodes
import pp
from prog import AnchorGone
from nodes import ELT, OUT, SCOPE


def found(fn, pol):
    bad = set()
    for a in pol.aborts:
        bad.add((fn.q, "an aborting check", a[0].where(a[1]),
                 pp.trace(a[3].trace)[-400:]))
    for a in pol.nulls:
        bad.add((fn.q, "a null dereference", a[0].where(a[1]),
                 pp.trace(a[3])[-400:]))
    return sorted(bad)


def view(fn, eng, pol, res, job):
    return found(fn, pol)


def services(g):
    """What handlers call, with what they may be called with."""
    e, out = ("ptr", ELT), ("ptr", OUT)
    for name, tag, par, sc in nodes.resolvers(g):
        yield name, [SCOPE, e, out], tag, par, sc
    for par in g.tags.get("simpleCondition", {}).get("parents", []):
        yield "obtainPredicate", [("ptr", ("o", "node", e))], \
            "simpleCondition", par, None
    yield "resolveParameter", [("loc", ("o", "ref"))] + [
        ("ptr", ("o", x)) for x in ("bind", "link", "ghosts")], \
        "link", "body", None
    yield "solvePredicate", [("ptr", ("o", "pred")), ("ptr", ("o", "roles"))
                             ], "link", "body", None


def check(ctx):
    g, c, out = nodes.sweep(ctx, view)
    for j, bad in out:
        for q, kind, where, tr in bad:
            ctx.violation("%s %s %s" % (q, j[0], kind),
                          "%s: %s: a document leads to %s"
                          % (where, nodes.describe(j), kind), tr)
    for name, args, tag, par, sc in services(g):
        try:
            fn, eng, pol, res = nodes.runserv(ctx.p, g, c, name, args, tag,
                                              par, sc)
        except AnchorGone:
            continue        # what it does was seen in the handlers
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("paths", len(res))
        for q, kind, where, tr in found(fn, pol):
            ctx.violation("%s %s %s" % (q, tag, kind),
                          "%s: %s for <%s> in <%s>: a document leads to %s"
                          % (where, name, tag, par, kind), tr)
    for tag in c.balance():
        ctx.violation("balance " + tag, "the handlers of <%s> leave the "
                      "object stack unbalanced" % tag)
    ctx.rule("no handler of the parser, and no service that handlers use to "
             "resolve references, reaches an aborting check or a null "
             "dereference in a context that the grammar admits, given what "
             "the handlers of the surrounding elements have established")
