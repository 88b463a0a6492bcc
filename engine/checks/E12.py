"""Path-sensitive dataflow over the tick of a media object, for every answer
of its player to whether it is at its end and for an explicit duration that is
undefined, elapsed, or not reached: when the media is asked to stop."""
import trans
from absint import Engine, State, ZERO, ONE
import pp

TIME = ("f", trans.OBJ, "_time")


class Pol(trans.TransPolicy):
    dur = 0

    def call(self, eng, st, c):
        if c.name in ("getEOS", "getDuration") and c.cls and \
                eng.p.isa(c.cls, "ginga::Player"):
            if c.name == "getDuration":
                return [(("int", self.dur), st)]
            out = []
            for b in (True, False):
                if st.aux.get("eos", b) == b:
                    s = st.copy()
                    s.aux["eos"] = b
                    out.append((ONE if b else ZERO, s))
            return out
        return trans.TransPolicy.call(self, eng, st, c)


def check(ctx):
    p = ctx.p
    ctx.rule("tick of a running media: it is asked to stop once if its player "
             "is at its end or its clock exceeds its duration, else not; a "
             "media that does not run is not")
    lam = ("ptr", trans.LAM)
    n = 0
    for cls in ("ginga::Media", "ginga::MediaSettings"):
        fn = p.method(cls, "sendTick")
        for s in trans.STATES:
            for dur, over in ((105, True), (115, False),
                              (trans.NONE[1], False)):
                pol = Pol(p, cls)
                pol.dur = dur
                eng = Engine(p, pol)
                st = State()
                st.mem[("f", trans.OBJ, "_doc")] = ("ptr", trans.DOC)
                st.mem[("f", trans.OBJ, "_lambda")] = lam
                st.mem[("f", trans.LAM, "_type")] = \
                    ("int", p.enum("ginga::Event::PRESENTATION"))
                st.mem[("f", trans.LAM, "_id")] = ("str", "@lambda")
                st.mem[("f", trans.LAM, "_object")] = ("ptr", trans.OBJ)
                st.mem[("f", trans.OBJ, "_hasNextFocus")] = ZERO
                st.mem[TIME] = trans.NONE if s == "SLEEPING" else ("int", 100)
                st.mem[("f", trans.LAM, "_state")] = trans.tconst(p, s)
                st.mem[("f", trans.OBJ, "_delayed")] = \
                    ("cont", "empty", ("f", trans.OBJ, "_delayed"))
                st.mem[("f", trans.OBJ, "_player")] = \
                    ZERO if s == "SLEEPING" else ("ptr", trans.PLY)
                res = eng.run(fn, [("sym", "total"), ("int", 10),
                                   ("sym", "frame")], st,
                              ("ptr", trans.OBJ))
                ctx.saw(eng.analysed)
                ctx.count("dataflow_states", eng.steps)
                what = "%s %s, duration %s" % (
                    s.lower(), cls.split("::")[-1], {
                        105: "elapsed", 115: "not elapsed"}.get(
                            dur, "undefined"))
                for f, nid, w, x in pol.aborts:
                    ctx.violation("abort " + what, "%s: tick of a %s aborts: "
                                  "%s" % (f.where(nid), what, w))
                for v, x in res:
                    n += 1
                    stops = [e for e, i in trans.flat(x.trace)
                             if e[0] in ("eval", "transition")]
                    eos = x.aux.get("eos")
                    want = s == "OCCURRING" and (over or eos is True)
                    if s == "OCCURRING" and eos is None and not over:
                        ctx.violation("eos " + what, "%s: tick of a %s does "
                                      "not ask the player whether it is at "
                                      "its end" % (fn.where(), what))
                    good = [e for e in stops if e[1:3] == (
                        lam, trans.tconst(p, "STOP"))]
                    if len(stops) != len(good) or len(good) != int(want):
                        ctx.violation(
                            "end " + what, "%s: tick of a %s (player at its "
                            "end: %s): [%s]" % (
                                fn.where(), what, eos, pp.trace(stops)),
                            pp.trace(x.trace))
    ctx.count("paths", n)
    ctx.require(n, 10, "paths of Media::sendTick")
