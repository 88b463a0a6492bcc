"""Path-sensitive dataflow over the start of a media object and over the
transitions of its anchors, for one generic event of each kind (time anchor,
labelled anchor, the object's own presentation, attribution, selection): what
the start schedules for it, and what the player is told."""
import trans
from absint import ONE, ZERO
import pp

LABEL = ("str", "lab")


class Pol(trans.TransPolicy):
    kind = ("PRESENTATION", None, "")

    def element(self, eng, st, cur):
        if trans.norm(cur[1]) == trans.EVENTS:
            trans.assume_event(eng.p, st, cur, *self.kind)

    def watch(self, ident):
        return trans.norm(ident) == trans.EVENTS


class Labelled(Pol):
    kind = ("PRESENTATION", None, "lab")


class Own(Pol):
    kind = ("PRESENTATION", "@lambda", "")


class Attr(Pol):
    kind = ("ATTRIBUTION", None, "")


class Sel(Pol):
    kind = ("SELECTION", None, "")


A = ("ptr", trans.AEVT)


def anchor(prog, c):
    out = []
    start, stop = (trans.tconst(prog, x) for x in ("START", "STOP"))

    def ok(seg):
        d = [e for e in seg if e[0] == "delay" and e[2] == A]
        return [e[3] for e in d] == [start, stop] and \
            d[0][1] == d[1][1] == ("ptr", trans.OBJ) and \
            d[0][4] == ("sym", "begin") and d[1][4] == ("sym", "end")
    for st in trans.yes(c):
        good, why = trans.foreach(c.eng, st, st.trace, trans.EVENTS, ok)
        if not good:
            out.append(trans.report(
                prog, c, "its time anchors are not scheduled to begin and "
                "end (%s)" % why, st, "anchor"))
    return out, len(trans.yes(c)), trans.label(c)


def noanchor(prog, c):
    out = []
    for st in trans.yes(c):
        for e, i in trans.flat(st.trace):
            if e[0] == "delay" and e[2] == A:
                out.append(trans.report(
                    prog, c, "schedules an event that is not a time anchor",
                    st, "other"))
    return out, len(trans.yes(c)), trans.label(c)


def labelled(prog, st):
    st.mem[("f", trans.EVT, "_label")] = LABEL


def unlabelled(prog, st):
    st.mem[("f", trans.EVT, "_label")] = ("str", "")


def sent(st):
    return [e for e, i in trans.flat(st.trace)
            if e[0] == "player" and e[1] == "sendPresentationEvent"]


def forward(prog, c):
    out = []
    want = {"START": "start", "STOP": "stop", "ABORT": "stop"}.get(c.trans)
    for st in trans.yes(c):
        s = sent(st)
        if want is None:
            if s:
                out.append(trans.report(prog, c, "the player is told", st,
                                        "told"))
        elif len(s) != 1 or s[0][3] != (("str", want), LABEL):
            out.append(trans.report(
                prog, c, "the player of a labelled anchor is told %s instead "
                "of \"%s\" and the label" % (
                    [pp.event(e) for e in s] or "nothing", want), st,
                "label"))
    return out, len(trans.yes(c)), trans.label(c)


def noforward(prog, c):
    out = []
    for st in trans.yes(c):
        if sent(st):
            out.append(trans.report(
                prog, c, "the player is told about an anchor without label",
                st, "nolabel"))
    return out, len(trans.yes(c)), trans.label(c)


def check(ctx):
    ctx.rule("start of a media: every anchor without label is scheduled to "
             "start at its begin and to stop at its end; no other event is")
    ctx.rule("start (stop, abort) of a labelled anchor: its player gets the "
             "presentation event start (stop) with the label, once; other "
             "events: none")
    m = ("ginga::Media", "ginga::MediaSettings")
    trans.cases(ctx, anchor, classes=m, states=("SLEEPING",),
                transs=("START",), policy=Pol)
    for p in (Labelled, Own, Attr, Sel):
        trans.cases(ctx, noanchor, classes=m, states=("SLEEPING",),
                    transs=("START",), policy=p)
    trans.cases(ctx, forward, classes=m, lams=(False,), tweak=labelled)
    trans.cases(ctx, noforward, classes=m, lams=(False,), tweak=unlabelled)
    trans.cases(ctx, noforward, classes=m, tweak=unlabelled,
                types=("PRESENTATION", "ATTRIBUTION", "SELECTION",
                       "LOOKAT"))
