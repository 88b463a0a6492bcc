"""Path-sensitive dataflow over MediaSettings (sendTick, setProperty,
scheduleFocusUpdate, updateCurrentFocus) and Object::doStart; the choice of the
focus is read off the iterations of the loop as a function of the candidate
and the choice so far and compared with the specification."""
import own
import trans
import pp
import terms
from absint import Engine, State, ZERO, ONE, isstring
from trans import DOC, SET

MEDIAS = trans.fld(DOC, "_medias")
NEXT = ("sym", "next")
NAME = "service.currentFocus"
ARGS = (("sym", "total"), ("sym", "diff"), ("sym", "frame"))
ATT = ("o", "attribution")
SEEN = ("sym", "more")


class Pol(own.Fill):
    loops = False

    def branch(self, eng, st, fn, nid, v, truth):
        if self.loops:
            st.emit("br", v, truth)

    def store(self, eng, st, loc, val, fn, nid):
        if self.loops and loc[0] == "v":
            st.emit("set", loc, val)

    def element(self, eng, st, cur):
        if self.loops and trans.norm(cur[1]) == MEDIAS:
            st.emit("acc", tuple(sorted(
                ((l, v) for l, v in st.mem.items() if l[0] == "v"),
                key=repr)))

    def call(self, eng, st, c):
        q, n = c.q, c.name
        if c.recv is not None and own.isel(c.recv, MEDIAS):
            if n in ("isOccurring", "isPaused", "isSleeping"):
                return [(("op", "fn", n, c.recv), st)]
            if n == "getProperty":
                return [(("op", "fn", "prop", c.recv)
                         + self.vals(eng, st, c), st)]
        if q == "ginga::Player::setCurrentFocus":
            st.emit("focus", *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if n == "setProperty" and q != "ginga::MediaSettings::setProperty":
            st.emit("property", q, *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if n == "sendTick" and q != "ginga::MediaSettings::sendTick":
            st.emit("tick", q, c.recv, self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if n in ("getAttributionEvent", "getEvent") and \
                c.recv == ("ptr", SET):
            a = self.vals(eng, st, c)
            t = ("int", eng.p.enum("ginga::Event::ATTRIBUTION"))
            if a in ((("str", NAME),), (t, ("str", NAME))):
                return [(("ptr", ATT), st)]
            return [(("ret", q, (c.recv,) + a), st)]
        if q == "ginga::Document::evalAction":
            # may schedule another move
            st.emit("eval", *self.vals(eng, st, c))
            out = []
            for more in (False, True):
                if st.facts.get(SEEN, more) != more:
                    continue
                s = st.copy()
                if more:
                    s.mem[("f", SET, "_hasNextFocus")] = ONE
                    s.mem[("f", SET, "_nextFocus")] = ("sym", "later")
                    s.facts[SEEN] = True
                out.append((("sym", "n"), s))
            return out
        return own.Fill.call(self, eng, st, c)


def run(ctx, q, args, pend=None, loops=False, cls="MediaSettings"):
    pol = Pol(ctx.p, None)
    pol.loops = loops
    pol.classes = {SET: "ginga::" + cls, DOC: "ginga::Document"}
    eng = Engine(ctx.p, pol)
    st = State()
    st.mem[("f", SET, "_doc")] = ("ptr", DOC)
    st.facts[("empty", MEDIAS)] = False
    if pend is not None:
        st.mem[("f", SET, "_hasNextFocus")] = ONE if pend else ZERO
        st.mem[("f", SET, "_nextFocus")] = NEXT
        st.facts[("ne", NEXT)] = frozenset([("str", "")])
    fn = ctx.p.fn1(q)
    res = eng.run(fn, list(args), st, ("ptr", SET))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    return fn, eng, res


def check(ctx):
    start = trans.tconst(ctx.p, "START")
    ctx.rule("a pending move is applied by one attribution at the next tick, "
             "before the tick is passed on; without one nothing is set; a "
             "move scheduled in the meantime stays pending")
    ctx.rule("scheduling replaces what is pending")
    ctx.rule("service.currentFocus and no other property sets the focus of "
             "the players, and is stored")
    ctx.rule("an object with a focusIndex schedules a choice when it starts")
    ctx.rule("a choice takes the least focusIndex of the occurring media")

    def bad(fn, key, what, st):
        ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                      "facts: %s\npath: %s" % (
                          "; ".join(pp.facts(st.facts)),
                          pp.trace([e for e in st.trace
                                    if e[0] not in ("br", "set")])))

    M = "ginga::MediaSettings::"
    # scheduling
    for pend in (False, True):
        fn, eng, res = run(ctx, M + "scheduleFocusUpdate", [("sym", "a")],
                           pend)
        for v, st in res:
            if st.mem.get(("f", SET, "_hasNextFocus")) != ONE or \
                    st.mem.get(("f", SET, "_nextFocus")) != ("sym", "a"):
                bad(fn, "schedule", "the move is not scheduled", st)
    # the tick
    for pend in (False, True):
        fn, eng, res = run(ctx, M + "sendTick", ARGS, pend)
        for v, st in res:
            fl = [e for e, i in trans.flat(st.trace)
                  if e[0] in ("eval", "tick", "focus", "property",
                              "transition")]
            ticks = [e for e in fl if e[0] == "tick"]
            if len(ticks) != 1 or ticks[0][2:] != (("ptr", SET), ARGS):
                bad(fn, "tick", "the tick is not passed on once", st)
            ev = [e for e in fl if e[0] == "eval"]
            if len(ev) != (1 if pend else 0):
                bad(fn, "tick moves", "the focus is moved %d times with %s "
                    "move pending" % (len(ev), "a" if pend else "no"), st)
            if pend and ev and fl and fl[0][0] != "eval":
                bad(fn, "tick order", "the tick comes before the move", st)
            has = st.mem.get(("f", SET, "_hasNextFocus"))
            if has != (ONE if st.facts.get(SEEN) else ZERO):
                bad(fn, "tick pending", "a move scheduled by the move is lost"
                    if st.facts.get(SEEN) else "the move stays pending", st)
            if st.facts.get(SEEN) and st.mem.get(
                    ("f", SET, "_nextFocus")) != ("sym", "later"):
                bad(fn, "tick pending", "a move scheduled by the move is "
                    "changed", st)
            for e in ev:
                if e[1:3] != (("ptr", ATT), start):
                    bad(fn, "tick attribution", pp.event(e), st)
                elif e[3] != NEXT:
                    bad(fn, "tick value", "the focus is moved to %s" %
                        pp.val(e[3]), st)
    # an explicit index
    for a in (("str", "7"), ("str", "")):
        fn, eng, res = run(ctx, M + "updateCurrentFocus", [a], loops=True)
        for v, st in res:
            ev = [e for e, i in trans.flat(st.trace) if e[0] == "eval"]
            if len(ev) != 1 or ev[0][1:3] != (("ptr", ATT), start) or \
                    ev[0] not in st.trace:
                bad(fn, "update", "the focus is not set by one attribution",
                    st)
            elif a[1] and ev[0][3] != a:
                bad(fn, "update value", "the focus is moved to %s" %
                    pp.val(ev[0][3]), st)
            elif not a[1]:
                w = choice(eng, st, ev[0][3])
                ctx.count("obligations")
                if w:
                    bad(fn, "choice", w, st)
    # the property
    for name in (NAME, "service.other"):
        a = [("str", name), ("sym", "v"), ("sym", "dur")]
        fn, eng, res = run(ctx, M + "setProperty", a)
        for v, st in res:
            fs = [e for e, i in trans.flat(st.trace) if e[0] == "focus"]
            ps = [e for e, i in trans.flat(st.trace) if e[0] == "property"]
            want = [("focus", ("sym", "v"))] if name == NAME else []
            if fs != want:
                bad(fn, "property " + name, "the focus is set %d times" %
                    len(fs), st)
            if len(ps) != 1 or ps[0][2:] != tuple(a):
                bad(fn, "property stored", "the property is not stored once",
                    st)
    starts(ctx, bad)


def starts(ctx, bad):
    """Object::doStart."""
    p = ctx.p
    for has in (False, True):
        class P(own.Fill):
            def call(self, eng, st, c):
                if c.name == "getProperty":
                    a = self.vals(eng, st, c)
                    v = ("str", "5" if has else "") if a == (
                        ("str", "focusIndex"),) else ("sym", "other")
                    return [(v, st)]
                return own.Fill.call(self, eng, st, c)
        pol = P(p, "ginga::Media")
        eng = Engine(p, pol)
        st = State()
        st.mem[("f", trans.OBJ, "_doc")] = ("ptr", DOC)
        fn = p.fn1("ginga::Object::doStart")
        res = eng.run(fn, [], st, ("ptr", trans.OBJ))
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.require(len(res), 1, "paths of doStart")
        for v, st in res:
            f = [e for e, i in trans.flat(st.trace) if e[0] == "focusupdate"]
            want = [("focusupdate", ("str", ""))] if has else []
            if f != want:
                bad(fn, "start", "an object %s focusIndex schedules %d "
                    "choices" % ("with a" if has else "without", len(f)), st)


# -- the loop as a fold -----------------------------------------------------
I, N, X = ("op", "fn", "prop", ("sym", "x"), ("str", "focusIndex")), \
    ("sym", "N"), ("sym", "x")
OCC = ("op", "fn", "isOccurring", X)


def subst(t, old):
    """t as a function of the choice so far and of the media at hand."""
    if t == old and t[0] != "str":
        return N
    if isinstance(t, tuple):
        if len(t) > 3 and t[:2] == ("op", "fn") and own.isel(t[3], MEDIAS):
            t = t[:3] + (X,) + t[4:]
        return tuple(subst(x, old) if isinstance(x, tuple) else x for x in t)
    return t


def spec(occ, i, n):
    return i if occ and i and (not n or i < n) else n


def iteration(seg, var):
    """None if the iteration updates var as specified."""
    acc = None
    rest = []
    for e in seg:
        if e[0] == "acc" and acc is None:
            acc = dict(e[1])
        else:
            rest.append(e)
    if acc is None:
        return "an iteration is not understood"
    old = acc.get(var)
    if old is None:
        return "undefined"
    const = old[0] == "str"
    for state in ("occurring", "paused", "sleeping"):
        occ = state == "occurring"
        for i in ("", "1", "2", "3"):
            for n in ([old[1]] if const else ["", "1", "2", "3"]):
                if not const and "fn" in old and n == "":
                    continue        # an index chosen before is not empty
                env = {I: i, N: n, OCC: occ,
                       ("op", "fn", "isSleeping", X): state == "sleeping",
                       ("op", "fn", "isPaused", X): state == "paused"}
                now = n
                for e in rest:
                    if e[0] == "br":
                        try:
                            b = terms.ev(subst(e[1], old), env)
                        except terms.Opaque:
                            continue
                        if bool(b) != e[2]:
                            now = None
                            break
                    elif e[0] == "set" and e[1] == var:
                        try:
                            now = terms.ev(subst(e[2], old), env)
                        except terms.Opaque:
                            now = ()
                if now is not None and now != spec(occ, i, n):
                    return "with a %s media of focusIndex '%s' and '%s' " \
                        "chosen so far it chooses '%s'" % (
                            state, i, n, now)
    return None


def choice(eng, st, value):
    es = [e for e in st.trace if e[0] == "each"
          and trans.norm(e[1]) == MEDIAS]
    if not es:
        return "the media are not considered"
    why = None
    for e in es:
        if not e[4]:
            why = why or "not all media are considered"
            continue
        vs = set()
        for s in e[3]:
            vs.update(l for x in s if x[0] == "acc" for l, v in x[1]
                      if v[0] in ("str", "op", "at"))
        for var in sorted(vs, key=repr):
            w = None
            for s in e[3]:
                w = iteration(s, var)
                if w:
                    break
            if w is None:
                if st.mem.get(var, value) != value:
                    w = "another value is used"
                else:
                    return None
            if w != "undefined" and (why is None or len(w) < len(why)):
                why = w
    return why or "no choice is made"
