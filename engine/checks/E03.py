"""Path-sensitive dataflow over the stop and abort transitions of every class
of object (transition function and hooks analysed in place): on every path on
which the transition succeeds, the object is back in its initial state."""
import trans


def digest(prog, c):
    out = []
    sleeping = trans.tconst(prog, "SLEEPING")
    for st in trans.yes(c):
        t = trans.final(st, trans.OBJ, "_time")
        if t != trans.NONE:
            out.append(trans.report(prog, c, "the object's clock keeps "
                                    "running", st, "clock"))

        def reset(seg):
            return any(e[0] == "store" and e[1][0] == "f"
                       and e[1][2] == "_state" and e[2] == sleeping
                       and trans.elemof(e[1], trans.EVENTS) for e in seg)
        ok, why = trans.foreach(c.eng, st, st.trace, trans.EVENTS, reset)
        if not ok:
            out.append(trans.report(prog, c, "events of the object stay "
                                    "active (%s)" % why, st, "events"))
        if not trans.isempty(c.eng, st, trans.DELAYED):
            out.append(trans.report(prog, c, "scheduled actions of the "
                                    "object survive", st, "delayed"))
        if c.cls == "ginga::Switch":
            s = trans.final(st, trans.OBJ, "_selected")
            if s is None:
                s = trans.fld(trans.OBJ, "_selected")
            if not trans.isnullptr(st, s):
                out.append(trans.report(prog, c, "the switch keeps its "
                                        "selection", st, "selection"))
    return out, len(trans.yes(c)), trans.label(c)


def check(ctx):
    ctx.rule("stop/abort of an object succeeds => its clock is undefined, "
             "every event it owns is sleeping, no scheduled action is left; "
             "a switch has no selected component")
    trans.cases(ctx, digest, transs=("STOP", "ABORT"))
