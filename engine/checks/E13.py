"""Path-sensitive dataflow over the start transitions of contexts and of media
(transition function and hooks analysed in place), for every state of the
parent context and with or without the mark that a child left on the context:
which ports are scheduled, when, and what is asked of the parent."""
import links
import trans
import pp
from absint import ZERO, ONE
from links import PC, SW

PLAM = links.LAMOF[PC]
PORTS = trans.fld(trans.OBJ, "_ports")
PORT = links.PORT
FP = ("o", "fromport")


class Pol(trans.TransPolicy):
    porttype = None

    def __init__(self, prog, cls):
        trans.TransPolicy.__init__(self, prog, cls)

    def dyncls(self, eng, st, loc):
        if loc == PC:
            return "ginga::Context"
        if loc == SW:
            return "ginga::Switch"
        return trans.TransPolicy.dyncls(self, eng, st, loc)

    def watch(self, ident):
        return trans.norm(ident) == PORTS

    def element(self, eng, st, cur):
        if trans.norm(cur[1]) == PORTS:
            st.mem[("elem", cur[1], cur)] = ("ptr", PORT)
            st.mem[("f", PORT, "_type")] = st.mem[("f", FP, "type")]

    def call(self, eng, st, c):
        q = c.q
        if q == "ginga::Event::transition" and c.recv == ("ptr", PLAM):
            st.emit("transition", c.recv, eng.rv(st, c.args[0]))
            return [(ONE, st)]
        if q == "ginga::Event::setParameter":
            a = self.vals(eng, st, c)
            st.emit("param", c.recv, *a)
            if c.recv == ("ptr", trans.EVT) and a[0] == ("str", "fromport"):
                st.mem[("f", FP, "value")] = a[1]
            return [(ONE, st)]
        if q == "ginga::Event::getParameter" and c.recv == (
                "ptr", trans.EVT):
            a = self.vals(eng, st, c)
            if a[0] == ("str", "fromport"):
                v = st.mem[("f", FP, "value")]
                if v == ZERO:
                    return [(ZERO, st)]
                if a[1][0] == "ptr":
                    eng.store(st, a[1][1], v)
                return [(ONE, st)]
        return trans.TransPolicy.call(self, eng, st, c)


def digest(prog, job):
    cls, state, parent, mark, porttype = job
    pstate = parent if parent in trans.STATES else None

    def tweak(p, st):
        st.mem[("f", FP, "value")] = mark
        st.mem[("f", FP, "type")] = ("int", p.enum("ginga::Event::"
                                                   + porttype))
        if pstate:
            st.mem[("f", trans.OBJ, "_parent")] = ("ptr", PC)
            links.context(p, st, PC, ZERO, True)
            st.mem[("f", PLAM, "_state")] = trans.tconst(p, pstate)
        elif parent == "switch":
            st.mem[("f", trans.OBJ, "_parent")] = ("ptr", SW)
            links.context(p, st, SW, ZERO, True)
        else:
            st.mem[("f", trans.OBJ, "_parent")] = ZERO
    c = trans.run_case(prog, cls, "PRESENTATION", True, state, "START",
                       tweak=tweak, policy=Pol)
    lab = "%s in %s, %s%s" % (
        cls.split("::")[1], "a %s context" % pstate.lower() if pstate else
        parent, state.lower(), ", started by a child"
        if mark == ("str", "true") else "")
    out = []
    fn = trans.where(prog)

    def bad(key, what, st):
        out.append(("%s: %s" % (cls.split("::")[1], key),
                    "%s: start of a %s: %s" % (fn, lab, what),
                    "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                             pp.trace(st.trace))))
    start = trans.tconst(prog, "START")
    for v, st in c.results:
        evs = list(trans.flat(st.trace))
        par = [e for e, i in evs if e[0] == "transition"
               and e[1] == ("ptr", PLAM)]
        marks = [e for e, i in evs if e[0] == "param"
                 and e[1] == ("ptr", PLAM) and e[2] == ("str", "fromport")]
        for e in par:
            if e[2] != start:
                bad("parent", "the parent gets %s"
                    % trans.tname(prog, e[2]), st)
        if v == ONE or "Media" in cls:
            need = 1 if pstate == "SLEEPING" else 0
            if v == ONE and len(par) != need:
                bad("parent count", "the parent context is started %d times"
                    % len(par), st)
            if par and not marks:
                bad("mark", "the parent context is started with its ports",
                    st)
            for m in marks:
                if m[3] in (("str", ""), ZERO):
                    bad("mark", "the parent context is started with its "
                        "ports", st)
        if v != ONE or cls != "ginga::Context":
            continue
        delays = [(e, i) for e, i in evs if e[0] == "delay"
                  and e[2] == ("ptr", PORT)]
        if mark == ("str", "true"):
            if delays:
                bad("child", "its ports are started", st)
            if st.mem[("f", FP, "value")] not in (ZERO, ("str", "")):
                bad("mark kept", "the mark of the child is not removed", st)
            continue

        def ok(seg):
            if porttype != "PRESENTATION":
                return True
            d = [e for e, i in trans.flat(seg) if e[0] == "delay"]
            return len(d) == 1 and d[0][1] == ("ptr", trans.OBJ) and \
                d[0][2] == ("ptr", PORT) and d[0][3] == start and \
                d[0][4] == ZERO
        good, why = trans.foreach(c.eng, st, st.trace, PORTS, ok)
        if not good:
            bad("ports", "not every port is scheduled to start at once (%s)"
                % why, st)
    return out, len(c.results), c.eng, lab


def check(ctx):
    ctx.rule("start of a context succeeds, not on behalf of a child => each "
             "of its presentation ports is scheduled on it to start with "
             "delay 0, once")
    ctx.rule("start of a media or context in a sleeping context starts that "
             "context, once, marked so that its ports are not started; the "
             "mark is removed by that start; in any other context the parent "
             "is left alone")
    jobs = []
    for cls in ("ginga::Context", "ginga::Media"):
        for state in ("SLEEPING", "PAUSED"):
            for parent in trans.STATES + ["the document", "switch"]:
                if parent == "switch" and cls == "ginga::Context":
                    pass
                if cls == "ginga::Media":
                    jobs.append((cls, state, parent, ZERO, "PRESENTATION"))
                    continue
                for mark in (ZERO, ("str", ""), ("str", "true")):
                    for pt in ("PRESENTATION", "ATTRIBUTION"):
                        jobs.append((cls, state, parent, mark, pt))
    n = 0
    for out, k, _, lab in links.parallel(ctx, digest, jobs):
        ctx.count("cases")
        ctx.count("paths", k)
        n += k
        ctx.sample(lab)
        for v in out:
            ctx.violation(*v)
    ctx.require(n, len(jobs), "paths")
