"""Path-sensitive dataflow.  (1) Over every transition of every class of
object: the number of running children that the parent context keeps changes
by +1 exactly when the object leaves the sleeping state, by -1 exactly when it
returns to it.  (2) Over the tick of a context, for every such number 0..3:
the context is asked to stop exactly when nothing but the settings object is
running in it."""
import trans
from absint import Engine, Policy, State, ZERO, ONE
import pp

def offset(v):
    if v[0] == "op" and v[1] in ("+", "-") and v[3][0] == "int":
        return v[2], v[3][1] if v[1] == "+" else -v[3][1]
    return v, 0


def delta(st):
    """Change of the parent's counter on this path (None: not a count)."""
    n = 0
    base, k = None, 0
    for e, inside in trans.flat(st.trace):
        if e[0] == "store" and e[1][0] == "f" and \
                e[1][2] == "_awakeChildren":
            if e[1][1] != ("d", trans.PARENT):
                return None
            b, j = offset(e[2])
            if b[0] == "int" or inside:
                return None
            n += j - (k if b == base else 0)
            base, k = b, j
    return n


def digest(prog, c):
    out = []
    want = 0
    if c.etype == "PRESENTATION" and (c.lam or c.cls == "ginga::Switch"):
        if c.trans == "START" and c.state == "SLEEPING":
            want = 1
        elif c.trans in ("STOP", "ABORT"):
            want = -1
    for v, st in c.results:
        d = delta(st)
        if v == ZERO:
            if d != 0:
                out.append(trans.report(
                    prog, c, "a refused transition changes the number of "
                    "running children of the parent", st, "refused"))
            continue
        pc = trans.parent_ctx(st)
        exp = want if pc else 0
        if pc is None and want != 0 and d == 0:
            out.append(trans.report(
                prog, c, "the parent context is not told (its number of "
                "running children should change by %+d)" % want, st, "none"))
        elif d is None or (pc is None and d != 0 and d != want) or \
                (pc is not None and d != exp):
            out.append(trans.report(
                prog, c, "the number of running children of the parent "
                "changes by %s instead of %+d" % (d, exp), st, "count"))
    return out, len(c.results), trans.label(c)


class TickPol(trans.TransPolicy):
    def call(self, eng, st, c):
        if c.q == "ginga::Object::sendTick":
            return [(("sym", "void"), st)]
        if c.q == "ginga::Object::isOccurring" and c.recv == ("ptr",
                                                             trans.SET):
            r = st.mem[("f", trans.LAM, "settings")]
            return [(r, st)]
        return trans.TransPolicy.call(self, eng, st, c)


def check(ctx):
    p = ctx.p
    ctx.rule("counter of the parent context: +1 iff sleeping -> occurring, "
             "-1 iff occurring/paused -> sleeping, else unchanged; only for "
             "the object's own presentation and only if the parent is a "
             "context")
    ctx.rule("context tick: the context is stopped iff no child is running, "
             "or it is the body and only the settings object is running")
    trans.cases(ctx, digest, types=("PRESENTATION", "ATTRIBUTION"),
                lams=(True, False))
    # ticks
    fn = p.fn1("ginga::Context::sendTick", 3)
    n = 0
    for root in (True, False):
        for aw in range(4):
            for occ in (True, False):
                pol = TickPol(p, "ginga::Context")
                eng = Engine(p, pol)
                st = State()
                st.mem[("f", trans.OBJ, "_doc")] = ("ptr", trans.DOC)
                st.mem[("f", trans.OBJ, "_awakeChildren")] = ("int", aw)
                st.mem[("f", trans.OBJ, "_lambda")] = ("ptr", trans.LAM)
                st.mem[("f", trans.OBJ, "_parent")] = \
                    ZERO if root else ("ptr", ("o", "parent"))
                st.mem[("f", trans.LAM, "settings")] = ONE if occ else ZERO
                sl = ("ptr", ("o", "slam"))
                st.mem[("f", trans.SET, "_lambda")] = sl
                st.mem[("f", sl[1], "_state")] = trans.tconst(
                    p, "OCCURRING" if occ else "SLEEPING")
                res = eng.run(fn, [("sym", "total"), ("sym", "diff"),
                                   ("sym", "frame")], st,
                              ("ptr", trans.OBJ))
                ctx.saw(eng.analysed)
                what = "%s context with %d running children, settings %s" % (
                    "body" if root else "inner", aw,
                    "running" if occ else "not running")
                want = aw == 0 or (root and aw == 1 and occ)
                if pol.aborts:
                    ctx.violation("tick abort " + what, "%s: %s: the player "
                                  "aborts" % (pol.aborts[0][0].where(
                                      pol.aborts[0][1]), what))
                for v, s in res:
                    n += 1
                    stops = [e for e in s.trace if e[0] in
                             ("eval", "transition")]
                    good = [e for e in stops if e[1] == ("ptr", trans.LAM)
                            and e[2] == trans.tconst(p, "STOP")]
                    if want and len(good) != 1 or len(stops) != len(good) \
                            or (not want and stops):
                        ctx.violation(
                            "tick " + what, "%s: %s: %s" % (
                                fn.where(), what,
                                "does not end" if want else
                                "is stopped although something is running"),
                            pp.trace(s.trace))
    ctx.count("tick_paths", n)
    ctx.require(n, 8, "paths of Context::sendTick")
