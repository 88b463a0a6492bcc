"""Path-sensitive dataflow over the transitions of contexts and switches
(transition function and hooks analysed in place): on every path on which the
transition of the composition succeeds, the presentation of every child (of
the selected child, for a switch) is asked to do the same transition."""
import trans

SELECTED = trans.fld(trans.OBJ, "_selected")


def islambda(v):
    return v[0] == "fld" and v[2] == "_lambda"


def digest(prog, c):
    out = []
    t = trans.tconst(prog, c.trans)

    def same(seg):
        return any(e[0] == "transition" and e[2] == t and islambda(e[1])
                   and trans.elemof(e[1], trans.CHILDREN) for e in seg)
    for st in trans.yes(c):
        if c.cls == "ginga::Context":
            ok, why = trans.foreach(c.eng, st, st.trace, trans.CHILDREN,
                                    same)
            if not ok:
                out.append(trans.report(prog, c, "not propagated to every "
                                        "child (%s)" % why, st, "children"))
        else:
            hit = [e for e, i in trans.flat(st.trace)
                   if e[0] == "transition" and e[2] == t
                   and trans.isfld(e[1], SELECTED, "_lambda")]
            if not hit and not trans.isnullptr(st, SELECTED):
                out.append(trans.report(prog, c, "not propagated to the "
                                        "selected component", st,
                                        "selected"))
        for e, i in trans.flat(st.trace):
            if e[0] == "transition" and e[2] != t:
                out.append(trans.report(prog, c, "a child gets another "
                                        "transition (%s)"
                                        % trans.tname(prog, e[2]), st,
                                        "other"))
    return out, len(trans.yes(c)), trans.label(c)


def check(ctx):
    ctx.rule("pause/resume/stop/abort of a context succeeds => a complete "
             "pass over its children asks each child's presentation for the "
             "same transition")
    ctx.rule("pause/resume/stop/abort of a switch succeeds => the selected "
             "component, if any, is asked for the same transition")
    trans.cases(ctx, digest, classes=("ginga::Context",),
                transs=("PAUSE", "RESUME", "STOP", "ABORT"))
    trans.cases(ctx, digest, classes=("ginga::Switch",), lams=(True, False),
                transs=("PAUSE", "RESUME", "STOP", "ABORT"))
