"""Path-sensitive dataflow over every transition of media objects (transition
function, hooks, and helpers analysed in place) with the operations on the
underlying player recorded: the player's life follows the object's."""
import trans
from absint import Policy, ZERO, ONE
import pp

CONTROL = ("createPlayer", "start", "stop", "pause", "resume")


class Pol(trans.TransPolicy):
    def call(self, eng, st, c):
        if c.name == "getState" and c.cls and \
                eng.p.isa(c.cls, "ginga::Player"):
            out = []
            for n in ("SLEEPING", "OCCURRING", "PAUSED"):
                s = st.copy()
                s.emit("pstate", n)
                out.append((("int", eng.p.enum("ginga::Player::" + n)), s))
            return out
        return trans.TransPolicy.call(self, eng, st, c)


def digest(prog, c):
    out = []

    def bad(what, st, key):
        out.append(trans.report(prog, c, what, st, key))
    own = c.etype == "PRESENTATION" and c.lam
    for v, st in c.results:
        evs = list(trans.flat(st.trace))
        ctl = [e for e, i in evs if e[0] == "player" and e[1] in CONTROL]
        dels = [e for e, i in evs if e[0] == "delete"]
        names = [e[1] for e in ctl]
        ply = trans.final(st, trans.OBJ, "_player")
        if any(i for e, i in evs if e in ctl):
            bad("the player is operated in a loop", st, "loop")
        if not own:
            if ctl or dels:
                bad("the player is operated (%s) although the object's own "
                    "presentation is not concerned"
                    % ", ".join(names + ["delete"] * len(dels)), st,
                    "foreign")
            continue
        if c.state == "SLEEPING":
            created = ("created", True) in st.trace
            if v == ONE:
                if names != ["createPlayer", "start"]:
                    bad("player operations are [%s] instead of creating and "
                        "starting it" % ", ".join(names), st, "start")
                if ply != ("ptr", trans.PLY):
                    bad("the started player is not the object's", st, "own")
                pos = [i for i, e in enumerate(st.trace)
                       if e[0] == "player" and e[1] == "start"]

                def isset(seg):
                    return any(e[0] == "player" and e[1] == "setProperty"
                               and len(e[3]) >= 2
                               and trans.elemof(e[3][0], trans.PROPS)
                               and last(e[3][0]) == "first"
                               and trans.elemof(e[3][1], trans.PROPS)
                               and last(e[3][1]) == "second"
                               for e in seg)
                ok, why = trans.foreach(c.eng, st,
                                        st.trace[:pos[0]] if pos else (),
                                        trans.PROPS, isset)
                if not ok:
                    bad("the player does not get every property before it "
                        "starts (%s)" % why, st, "props")
            else:
                if "start" in names:
                    bad("refused although the player was started", st,
                        "refused")
                if ply not in (None, ZERO):
                    bad("refused but the player is kept", st, "kept")
        elif c.trans in ("PAUSE", "RESUME"):
            if v == ONE and names != [c.trans.lower()]:
                bad("player operations are [%s]" % ", ".join(names), st,
                    "operation")
        elif c.trans in ("STOP", "ABORT"):
            if v != ONE:
                continue
            sleeping = ("pstate", "SLEEPING") in st.trace
            if names != ["stop"] and not (sleeping and names == []):
                bad("player operations are [%s] instead of stopping it"
                    % ", ".join(names), st, "operation")
            if len(dels) != 1:
                bad("the player is deleted %d times" % len(dels), st,
                    "delete")
            if ply != ZERO:
                bad("the deleted player is kept", st, "dangling")
            else:
                i = [k for k, e in enumerate(st.trace) if e in dels]
                j = [k for k, e in enumerate(st.trace) if e in ctl]
                if i and j and max(j) > min(i):
                    bad("the player is used after it is deleted", st, "uaf")
        elif c.trans == "START":
            if names and any(n != "resume" for n in names):
                bad("player operations are [%s]" % ", ".join(names), st,
                    "operation")
    return out, len(c.results), trans.label(c)


def last(v):
    return v[2] if v[0] == "fld" else ""


def check(ctx):
    ctx.rule("start of a sleeping media succeeds => its player is created, "
             "gets every property of the object, then is started, once each; "
             "refused => no player is kept")
    ctx.rule("pause/resume => the player is paused/resumed once; stop/abort "
             "=> stopped unless it is already, deleted once, not used after")
    ctx.rule("transitions of other events never start, stop, pause, resume "
             "or delete the player")
    m = ("ginga::Media", "ginga::MediaSettings")
    trans.cases(ctx, digest, classes=m, types=trans.TYPES,
                lams=(True, False), policy=Pol)
