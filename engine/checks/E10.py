"""Path-sensitive dataflow over the start and stop of attributions of every
class of object that has them (transition function, hooks and property setters
analysed in place), for immediate and for timed attributions: what is assigned,
what the player is told, and when the attribution ends."""
import trans
from absint import ONE, ZERO
import pp

PARAMS = trans.fld(trans.EVT, "_parameters")
VALUE, DURATION = ("sym", "value"), ("sym", "duration")
NAME = trans.fld(trans.EVT, "_id")


class Pol(trans.TransPolicy):
    dur = 0

    def call(self, eng, st, c):
        if c.q == "ginga::parse_time":
            st.emit("parse", eng.rv(st, c.args[0]))
            return [(("int", self.dur), st)]
        return trans.TransPolicy.call(self, eng, st, c)


class Timed(Pol):
    dur = 5


def tweak(prog, st):
    for n, v in (("value", VALUE), ("duration", DURATION)):
        k = ("str", n)
        for ident in (PARAMS,):
            st.facts[("has", ident, k)] = True
            st.mem[("f", ("elem", ident, ("find", ident, k)), "second")] = v
    st.facts[("ne", trans.fld(trans.OBJ, "_time"))] = \
        frozenset({trans.NONE})


def running(prog, st):
    """The object is active; a media then has its player."""
    tweak(prog, st)
    st.mem[("f", trans.OBJ, "_player")] = ("ptr", trans.PLY)


def idle(prog, st):
    tweak(prog, st)
    st.mem[("f", trans.OBJ, "_player")] = ZERO


def settled(c, st, x):
    """What x is on this path with references resolved, or None."""
    r = trans.resolved(st, x)
    if r is None:
        y = c.eng.subst(st, x)
        if y[0] == "str" and not y[1].startswith("$") or \
                ("int", ord("$")) in st.facts.get(
                    ("ne", ("op", "idx", x, ZERO)), ()):
            return y
    return r


def start(prog, c):
    out = []
    n = 0
    dur = ("int", c.eng.pol.dur)
    for st in trans.yes(c):
        n += 1
        evs = [e for e, i in trans.flat(st.trace)]
        val = settled(c, st, VALUE)
        d = settled(c, st, DURATION)
        for x, y in ((VALUE, val), (DURATION, d)):
            if y is None and not (x == DURATION and not any(
                    e[0] == "parse" for e in evs)):
                out.append(trans.report(
                    prog, c, "a reference in its %s is not resolved" % x[1],
                    st, "unresolved"))
        val = val or VALUE
        d = d or DURATION
        parsed = [e[1] for e in evs if e[0] == "parse"]
        for x in parsed:
            if x != d:
                out.append(trans.report(
                    prog, c, "its duration is %s instead of the one given, "
                    "with references resolved" % pp.val(x), st, "parsed"))
        want = dur if parsed else ZERO
        if not parsed and c.eng.subst(st, d) != ("str", ""):
            out.append(trans.report(prog, c, "its duration is ignored", st,
                                    "noduration"))
        props = [e for e in evs if e[0] == "objprop"]
        if [e[1:3] for e in props] != [(NAME, val)]:
            out.append(trans.report(
                prog, c, "sets [%s] instead of the property to the value, "
                "with references resolved" % pp.trace(props), st, "set"))
        delays = [e for e in evs if e[0] == "delay"]
        if [e[1:5] for e in delays] != [
                (("ptr", trans.OBJ), ("ptr", trans.EVT),
                 trans.tconst(prog, "STOP"), want)]:
            out.append(trans.report(
                prog, c, "schedules [%s] instead of its own end after its "
                "duration" % pp.trace(delays), st, "end"))
        pl = [e for e in evs if e[0] == "player" and e[1] in (
            "setProperty", "schedulePropertyAnimation")]
        if "Media" in c.cls:
            has = trans.final(st, trans.OBJ, "_player") != ZERO
            if not has and pl:
                out.append(trans.report(prog, c, "uses a player that is not "
                                        "there", st, "noplayer"))
            elif has and want == ZERO and [e[1:2] + e[3:] for e in pl] != [
                    ("setProperty", (NAME, val))]:
                out.append(trans.report(
                    prog, c, "the player gets [%s] instead of the property"
                    % pp.trace(pl), st, "player"))
            elif has and want != ZERO:
                ok = len(pl) == 1 and \
                    pl[0][1] == "schedulePropertyAnimation" and \
                    len(pl[0][3]) == 4 and \
                    (pl[0][3][0], pl[0][3][2], pl[0][3][3]) == \
                    (NAME, val, want) and pl[0][3][1] != val
                if not ok:
                    out.append(trans.report(
                        prog, c, "the player gets [%s] instead of an "
                        "animation from the old to the new value over the "
                        "duration" % pp.trace(pl), st, "animation"))
    return out, n, trans.label(c)


def stop(prog, c):
    out = []
    for st in trans.yes(c):
        if any(e[0] in ("objprop", "player", "delay", "eval", "transition")
               for e, i in trans.flat(st.trace)):
            out.append(trans.report(prog, c, "the end of an attribution has "
                                    "effects", st, "stop"))
    return out, len(trans.yes(c)), trans.label(c)


def check(ctx):
    ctx.rule("start of an attribution succeeds => the property named by the "
             "event is set once to the value (references resolved); the "
             "end of the same event is scheduled after the duration "
             "(references resolved)")
    ctx.rule("the player of a media gets the same property: at once without "
             "duration, as an animation from the old value otherwise")
    ctx.rule("end of an attribution => no effect on properties or events")
    kw = dict(classes=("ginga::Context", "ginga::Media",
                       "ginga::MediaSettings"), types=("ATTRIBUTION",))
    for pol in (Pol, Timed):
        for tw in (running, idle):
            trans.cases(ctx, start, states=("SLEEPING",), transs=("START",),
                        policy=pol, tweak=tw, **kw)
    trans.cases(ctx, stop, transs=("STOP",), states=("OCCURRING",),
                tweak=running, **kw)
