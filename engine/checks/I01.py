"""Path-sensitive dataflow over Media::sendKey, for every state of the media,
with and without a player, with and without the focus, for presses and
releases of every kind of key, and with every event of the media being of a
given type and expecting a given key."""
import own
import trans
import pp
import links
from absint import ZERO, ONE
from trans import OBJ, EVENTS, DOC, PLY, SET

NEXT = ("sym", "next")
DIRS = {"CURSOR_UP": "moveUp", "CURSOR_DOWN": "moveDown",
        "CURSOR_LEFT": "moveLeft", "CURSOR_RIGHT": "moveRight"}
KEYS = list(DIRS) + ["CURSOR_OTHER", "ENTER", "RED", ""]
EXPECT = ["", "$unset", "ENTER", "RED", "CURSOR_UP"]


class Pol(own.Fill):
    def call(self, eng, st, c):
        q = c.q
        if q == "ginga::Player::isFocused":
            return [(ONE if self.focused else ZERO, st)]
        if q == "ginga::Player::getProperty":
            a = self.vals(eng, st, c)
            if a[0][0] == "str" and a[0][1] in DIRS.values():
                return [(NEXT if a[0][1] == self.move else ("str", ""), st)]
        if q == "ginga::Event::getType" and own.isel(c.recv, EVENTS):
            return [(self.etype, st)]
        if q == "ginga::Event::getParameter" and own.isel(c.recv, EVENTS):
            a = self.vals(eng, st, c)
            if a[0] == ("str", "key"):
                if self.expect is None:
                    return [(ZERO, st)]
                if a[1][0] == "ptr":
                    eng.store(st, a[1][1], ("str", self.expect))
                return [(ONE, st)]
        return own.Fill.call(self, eng, st, c)

    def put(self, eng, st, c, ident, args):
        st.emit("put", c.name, trans.norm(ident), *args)

    def store(self, eng, st, loc, val, fn, nid):
        pass

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x == NEXT and y == ("str", ""):
                return False
        return own.Fill.assume_eq(self, eng, st, a, b)


def run(p, job):
    from absint import Engine, State
    state, player, focused, press, key, etype, expect, move = job
    pol = Pol(p, "ginga::Media")
    pol.classes = {OBJ: "ginga::Media"}
    pol.focused, pol.expect, pol.move = focused, expect, move
    pol.etype = ("int", p.enum("ginga::Event::" + etype))
    eng = Engine(p, pol)
    st = State()
    st.mem[("f", OBJ, "_lambda")] = ("ptr", trans.LAM)
    st.mem[("f", trans.LAM, "_state")] = trans.tconst(p, state)
    st.mem[("f", OBJ, "_doc")] = ("ptr", DOC)
    st.mem[("f", OBJ, "_player")] = ("ptr", PLY) if player else ZERO
    st.facts[("empty", EVENTS)] = False
    fn = p.fn1("ginga::Media::sendKey")
    res = eng.run(fn, [("str", key), ONE if press else ZERO], st,
                  ("ptr", OBJ))
    lab = "%s of %s to a %s media%s%s, %s event expecting %s" % (
        "press" if press else "release", key or "an unnamed key",
        state.lower(), " with player" if player else "",
        " and the focus" if focused else "", etype.lower(),
        "nothing" if expect is None else "'%s'" % expect)
    out = []

    def bad(k, what, st):
        out.append((k, "%s: %s: %s" % (fn.where(), lab, what),
                    pp.trace(st.trace)))
    live = state != "SLEEPING" and player
    want = "" if expect is None or expect.startswith("$") else expect
    hit = live and etype == "SELECTION" and (
        key == want if want else key == "ENTER" and focused)
    moves = live and press and focused and DIRS.get(key, "-") == move
    act = trans.tconst(p, "START" if press else "STOP")
    for v, st in res:
        evs = list(trans.flat(st.trace))
        keys = [e for e, i in evs if e[0] == "player"
                and e[1] == "sendKeyEvent"]
        n = 1 if live and focused else 0
        if len(keys) != n:
            bad("player %d" % n, "the player gets the key %d times" %
                len(keys), st)
        for e in keys:
            if e[2] != ("ptr", PLY) or e[3] != (("str", key),
                                                ONE if press else ZERO):
                bad("player key", "the player gets another key", st)
        foc = [e for e, i in evs if e[0] == "focusupdate"]
        if len(foc) != (1 if moves else 0) or any(e[1] != NEXT
                                                  for e in foc):
            bad("focus", "the focus is moved %d times" % len(foc), st)
        for e, i in evs:
            if e[0] in ("transition", "delay", "delete") or \
                    e[0] == "eval" and not hit:
                bad("other", pp.event(e), st)
        if not hit:
            continue
        w = selected(eng, st, act)
        if w:
            bad("selection", w, st)
    return out, len(res), eng, lab


def selected(eng, st, act):
    """Each event is evaluated exactly once, directly or through a list."""
    bufs = set()

    def ok(seg):
        d = [e for e in seg if e[0] == "eval"]
        p = [e for e in seg if e[0] == "put"]
        if any(not own.isel(e[1], EVENTS) or e[2] != act for e in d) or \
                len(d) + len(p) != 1:
            return False
        for e in p:
            if len(e) != 4 or not own.isel(e[3], EVENTS):
                return False
            bufs.add(e[2])
        return True
    g, why = trans.foreach(eng, st, st.trace, EVENTS, ok)
    if not g:
        return "not every event is considered once (%s)" % why
    if any(e[0] == "eval" for e in st.trace):
        return "an event is selected outside of the passes"
    for b in bufs:
        es = [e for e in st.trace if e[0] == "each"
              and trans.norm(e[1]) == b]
        if len(es) != 1 or not es[0][4]:
            return "not every collected event is selected"
        for s in es[0][3]:
            d = [e for e in s if e[0] == "eval"]
            if len(d) != 1 or not own.isel(d[0][1], b) or d[0][2] != act:
                return "a collected event is not selected once"
    return None


def digest(prog, job):
    return run(prog, job)


def check(ctx):
    ctx.rule("nothing happens when the media is sleeping or has no player")
    ctx.rule("the player gets exactly the keys that come while it has the "
             "focus")
    ctx.rule("press of a cursor key with focus and a moveX property schedules "
             "exactly that move; nothing else moves the focus")
    ctx.rule("an event is selected (START on press, STOP on release) iff it "
             "is a selection event that expects this key, or expects none "
             "(or an unresolved parameter), the key is ENTER and the media "
             "has the focus; once, and each of them")
    jobs = []
    for state in trans.STATES:
        for player in (True, False):
            for focused in (True, False):
                for press in (True, False):
                    for key in KEYS:
                        for ex in EXPECT:
                            if not (player and state != "SLEEPING") and \
                                    ex not in ("RED", ""):
                                continue
                            jobs.append((state, player, focused, press, key,
                                         "SELECTION", ex, "moveUp"))
                        jobs.append((state, player, focused, press, key,
                                     "SELECTION", None, None))
                        jobs.append((state, player, focused, press, key,
                                     "PRESENTATION", "RED", None))
    for key in KEYS:
        for mv in DIRS.values():
            jobs.append(("OCCURRING", True, True, True, key, "SELECTION",
                         "RED", mv))
    n = 0
    for out, k, eng, lab in links.parallel(ctx, digest, jobs):
        ctx.count("cases")
        ctx.count("paths", k)
        n += k
        ctx.sample(lab)
        for v in out:
            ctx.violation(*v)
    ctx.require(n, len(jobs), "paths")
