"""Path-sensitive dataflow over the tick of an object, for one generic
scheduled action that is due before, exactly at, or after the new time, or
never; and over the function that schedules actions."""
import trans
from absint import Engine, State, ONE, ZERO
import pp

TIME = ("f", trans.OBJ, "_time")


class Pol(trans.TransPolicy):
    due = 0

    def element(self, eng, st, cur):
        if trans.norm(cur[1]) == trans.DELAYED:
            st.mem[("f", ("elem", cur[1], cur), "second")] = \
                ("int", self.due)

    def watch(self, ident):
        return trans.norm(ident) == trans.DELAYED or ident[0] == "v"

    def store(self, eng, st, loc, val, fn, nid):
        trans.TransPolicy.store(self, eng, st, loc, val, fn, nid)
        if loc[0] == "f" and loc[2] == "second" and \
                trans.elemof(loc, trans.DELAYED):
            st.emit("mark", val)

    def call(self, eng, st, c):
        if c.q == "ginga::Document::evalAction":
            # the action may well pause or stop this very object
            out = []
            for v, s in trans.TransPolicy.call(self, eng, st, c):
                for n in ("OCCURRING", "PAUSED", "SLEEPING"):
                    t = s.copy()
                    t.mem[("f", trans.LAM, "_state")] = trans.tconst(eng.p, n)
                    out.append((v, t))
            return out
        if c.recv is not None and c.recv[0] in ("ptr", "loc") and c.args:
            vals = [eng.rv(st, a) for a in c.args]
            if c.name in ("push_back", "emplace_back"):
                st.emit("put", "back", c.recv[1], vals[0])
            elif c.name in ("push_front", "emplace_front"):
                st.emit("put", "front", c.recv[1], vals[0])
            elif c.name == "erase" and trans.elemof_it(vals[0],
                                                       trans.DELAYED):
                st.emit("mark", trans.NONE)
        return trans.TransPolicy.call(self, eng, st, c)


def state(p, occurring=True, time=100):
    st = State()
    st.mem[("f", trans.OBJ, "_doc")] = ("ptr", trans.DOC)
    st.mem[("f", trans.OBJ, "_lambda")] = ("ptr", trans.LAM)
    st.mem[TIME] = ("int", time)
    st.mem[("f", trans.LAM, "_state")] = trans.tconst(p, occurring)
    return st


def tick(ctx, due, st):
    p = ctx.p
    fn = p.fn1("ginga::Object::sendTick", 3)
    pol = Pol(p, "ginga::Media")
    pol.due = due
    eng = Engine(p, pol)
    res = eng.run(fn, [("sym", "total"), ("int", 10), ("sym", "frame")], st,
                  ("ptr", trans.OBJ))
    ctx.saw(eng.analysed)
    ctx.count("dataflow_states", eng.steps)
    return fn, eng, res


def wholeaction(e, ident):
    """Does the evaluation use an element of ident as a whole?"""
    return e[0] == "eval" and all(
        x[0] == "fld" and x[2] == n and trans.elemof(x, ident)
        for x, n in zip(e[1:], ("event", "transition", "value", "duration")))


def fires(eng, st):
    """Why not every due action is evaluated once, in order (or None)."""
    first = [e for e in st.trace if e[0] == "each"
             and trans.norm(e[1]) == trans.DELAYED]
    if not first or not first[0][4]:
        return "not every scheduled action is examined"
    one = first[0]
    buf = None
    back = None
    for seg in one[3]:
        puts = [e for e in seg if e[0] == "put"
                and trans.elemof(e[3], trans.DELAYED)]
        evals = [e for e in seg if e[0] == "eval"]
        marks = [e for e in seg if e[0] == "mark"]
        if evals:
            return "actions are evaluated while the list of scheduled " \
                "actions is traversed"
        if len(puts) != 1:
            return "a due action is not collected"
        if marks != [("mark", trans.NONE)]:
            return "a due action remains scheduled"
        buf, back = puts[0][2], puts[0][1]
    final = trans.sname(eng.p, st.mem[("f", trans.LAM, "_state")])
    buf = trans.norm(buf)
    runs = [(n, e) for n, e in enumerate(st.trace) if e[0] in ("each", "it")
            and trans.norm(e[1]) == buf]
    if not runs:
        return "not every due action is evaluated"
    start = runs[0][0]
    kind = runs[0][1][2] if runs[0][1][0] == "each" else runs[0][1][3]
    segs = []
    done = False
    rest = None
    for n, e in runs:
        if e[0] == "each":
            if rest is None and any(x[0] == "eval" for s in e[3] for x in s):
                segs += list(e[3])
                done = done or e[4]
            else:
                rest = e
        else:
            segs.append(st.trace[n + 1:])
    kept = False
    for seg in segs:
        mine = [e for e in seg if e[0] == "eval"]
        back_ = [e for e in seg if isput(e, buf)]
        if len(mine) == 1 and wholeaction(mine[0], buf):
            continue
        if not mine and len(back_) == 1 and final == "PAUSED":
            kept = True
            continue
        return "a due action is evaluated [%s]" % pp.trace(seg)
    if not done and final != "SLEEPING" and \
            not trans.isempty(eng, st, buf):
        if final == "OCCURRING":
            return "not every due action is evaluated"
        if rest is None or not rest[4]:
            return "due actions are lost when one of them pauses the object"
        for seg in rest[3]:
            p_ = [e for e in seg if isput(e, buf)]
            if len(p_) != 1:
                return "due actions are lost when one of them pauses the " \
                    "object"
            if (rest[2] == "cur") != (p_[0][1] == "back"):
                return "the actions left by a pause are kept in reverse order"
    fwd = (one[2] == "cur") == (back == "back")
    if fwd != (kind == "cur"):
        return "due actions are evaluated in reverse order"
    return None


def isput(e, buf):
    """The event puts the action of buf's element back to the schedule."""
    if e[0] != "put" or trans.norm(e[2]) != trans.DELAYED:
        return False
    t = Engine.field(None, e[3], "second")
    return trans.elemof(e[3], buf) and t[0] == "int" and t[1] <= 110


def check(ctx):
    p = ctx.p
    ctx.rule("tick of a running object advances its clock by exactly the "
             "tick; an action is evaluated iff its time has come, once, with "
             "its own value and duration, in the order of scheduling")
    ctx.rule("tick of an object that is not running does nothing; the clock "
             "of a media's player follows the media's")
    ctx.rule("an action scheduled on a running object after d is due at its "
             "clock + d, and carries event, transition, value and duration")
    n = 0
    for due, what in ((109, "overdue"), (110, "due now"), (111, "not due"),
                      (trans.NONE[1], "never due")):
        fn, eng, res = tick(ctx, due, state(p, "OCCURRING"))
        for v, st in res:
            n += 1
            if st.mem.get(TIME) != ("int", 110):
                ctx.violation("clock", "%s: the clock does not advance by "
                              "the tick" % fn.where(), pp.trace(st.trace))
            if trans.isempty(eng, st, trans.DELAYED):
                continue
            evs = [e for e, i in trans.flat(st.trace)]
            if due <= 110:
                why = fires(eng, st)
                if why:
                    ctx.violation("due " + what, "%s: action %s: %s"
                                  % (fn.where(), what, why),
                                  pp.trace(st.trace))
            else:
                if any(e[0] == "eval" for e in evs):
                    ctx.violation("early " + what, "%s: an action that is %s "
                                  "is evaluated" % (fn.where(), what),
                                  pp.trace(st.trace))
                if due == 111 and any(e[0] == "mark" for e in evs):
                    ctx.violation("lost " + what, "%s: an action that is %s "
                                  "is dropped" % (fn.where(), what),
                                  pp.trace(st.trace))
    for s in ("SLEEPING", "PAUSED"):
        fn, eng, res = tick(ctx, 50, state(p, s))
        for v, st in res:
            n += 1
            if st.trace or st.mem.get(TIME) != ("int", 100):
                ctx.violation("idle", "%s: the tick of a %s object has "
                              "effects" % (fn.where(), s.lower()),
                              pp.trace(st.trace))
    # the clock of the player
    for cls in ("ginga::Media", "ginga::MediaSettings"):
        for s in trans.STATES:
            n += player(ctx, cls, s)
    # scheduling
    fn = p.fn1("ginga::Object::addDelayedAction")
    args = [("sym", "event"), ("sym", "transition"), ("sym", "value"),
            ("int", 7), ("sym", "duration")][:len(fn.params)]
    for time in (0, 100):
        pol = AddPol(p, "ginga::Media")
        eng = Engine(p, pol)
        st = state(p, "OCCURRING", time)
        res = eng.run(fn, args, st, ("ptr", trans.OBJ))
        ctx.saw(eng.analysed)
        for v, s in res:
            n += 1
            puts = [e for e in s.trace if e[0] == "put"]
            if len(puts) != 1 or puts[0][1] != "back":
                ctx.violation("schedule", "%s: does not append one action"
                              % fn.where(), pp.trace(s.trace))
                continue
            v = puts[0][2]
            act = eng.field(v, "first")
            if eng.field(v, "second") != ("int", time + 7):
                ctx.violation("schedule time", "%s: due time is %s" % (
                    fn.where(), pp.val(eng.field(v, "second"))))
            for k, a in zip(("event", "transition", "value", None,
                             "duration"), args):
                if k and eng.field(act, k) != a:
                    ctx.violation("schedule " + k, "%s: the %s of the "
                                  "scheduled action is %s" % (
                                      fn.where(), k,
                                      pp.val(eng.field(act, k))))
    ctx.count("paths", n)
    ctx.require(n, 10, "paths of ticks")


def player(ctx, cls, s):
    p = ctx.p
    fn = p.method(cls, "sendTick")
    eng = Engine(p, trans.TransPolicy(p, cls))
    st = state(p, s)
    st.mem[("f", trans.OBJ, "_delayed")] = \
        ("cont", "empty", ("f", trans.OBJ, "_delayed"))
    st.mem[("f", trans.OBJ, "_player")] = \
        ZERO if s == "SLEEPING" else ("ptr", trans.PLY)
    res = eng.run(fn, [("sym", "total"), ("int", 10), ("sym", "frame")], st,
                  ("ptr", trans.OBJ))
    ctx.saw(eng.analysed)
    for v, st in res:
        inc = [e[3] for e, i in trans.flat(st.trace)
               if e[0] == "player" and e[1] == "incTime"]
        want = [(("int", 10),)] if s == "OCCURRING" else []
        if inc != want:
            ctx.violation("player clock %s %s" % (cls.split("::")[-1], s),
                          "%s: the clock of the player of a %s media advances "
                          "by %s at a tick of 10" % (
                              fn.where(), s.lower(),
                              [pp.val(x) for y in inc for x in y] or
                              "nothing"), pp.trace(st.trace))
    return len(res)


class AddPol(trans.TransPolicy):
    def call(self, eng, st, c):
        if c.recv is not None and c.recv[0] in ("ptr", "loc") and \
                c.name in ("push_back", "push_front", "emplace_back",
                           "insert"):
            st.emit("put", "back" if c.name.endswith("_back") else "front",
                    eng.rv(st, c.args[0]))
        return None
