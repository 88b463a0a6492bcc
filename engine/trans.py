"""Transition summaries: what Event::transition does, for every class of
object, every type of event, every state and every transition."""
from absint import Engine, Policy, State, ZERO, ONE, mentions
import pp

OBJ = ("o", "obj")
EVT = ("o", "evt")
LAM = ("o", "lam")
DOC = ("o", "doc")
PLY = ("o", "player")
SET = ("o", "settings")
NONE = ("int", 2 ** 64 - 1)     # GINGA_TIME_NONE

PLAYER_API = {
    "createPlayer", "start", "stop", "pause", "resume", "setProperty",
    "getProperty", "getZ", "setZ", "getEOS", "setEOS", "getState",
    "isFocused", "sendKeyEvent", "sendPresentationEvent", "redraw", "reload",
    "resetProperties", "schedulePropertyAnimation", "incTime", "getTime",
    "getDuration", "setDuration", "setCurrentFocus", "getCurrentFocus",
    "setRect", "getRect", "setVisible", "setAnimatorProperties", "resetTime",
    "isOpaque", "setAlpha",
}
FIELDS = {"_state", "_time", "_player", "_selected", "_awakeChildren",
          "_nextFocus", "_hasNextFocus"}


class TransPolicy(Policy):
    """One object (and its lambda event) is concrete in class and state;
    transitions of other events are recorded and not followed."""

    def __init__(self, prog, cls, own=("transition",)):
        self.p = prog
        self.cls = cls
        self.aborts = []
        self.nulls = []
        self.top = None

    def dyncls(self, eng, st, loc):
        if loc == OBJ:
            return self.cls
        if loc in (EVT, LAM):
            return "ginga::Event"
        if loc == DOC:
            return "ginga::Document"
        if loc == SET:
            return "ginga::MediaSettings"
        return None

    def abort(self, eng, st, fn, nid, what):
        self.aborts.append((fn, nid, what, st))

    def nullderef(self, eng, st, fn, nid, v):
        self.nulls.append((fn, nid, v, st.trace))

    def watch(self, ident):
        return False

    def assume_eq(self, eng, st, a, b):
        # every object has a lambda event, every rule an object and predicate
        for x, y in ((a, b), (b, a)):
            if y == ZERO and x[0] == "fld" and (
                    x[2] == "_lambda" or elemof(x, RULES)):
                return False
        return None

    def store(self, eng, st, loc, val, fn, nid):
        if loc[0] == "f" and loc[2] in FIELDS:
            st.emit("store", loc, val)

    def vals(self, eng, st, c):
        return tuple(eng.rv(st, a) for a in c.args)

    def call(self, eng, st, c):
        q = c.q
        p = eng.p
        if q == "delete":
            a = c.args[0]
            st.emit("delete", a)
            return [(("sym", "void"), st)]
        if q == "ginga::Event::transition" and eng.stack:
            recv = c.recv
            st.emit("transition", recv, eng.rv(st, c.args[0]))
            out = []
            res, s = eng.opaque(st, c)
            if recv == ("ptr", LAM):
                # the object's own presentation changed under our feet
                for f in ("_player", "_time"):
                    s.mem[("f", OBJ, f)] = ("sym", "afterlam", f)
                s.mem[("f", LAM, "_state")] = ("sym", "afterlam", "_state")
            for b, s2 in eng.truth(s, res):
                out.append((ONE if b else ZERO, s2))
            return out
        if q == "ginga::Document::evalAction":
            a = self.vals(eng, st, c)
            if len(a) == 1:
                ev, tr, va, du = (eng.field(a[0], n) for n in (
                    "event", "transition", "value", "duration"))
            else:
                ev, tr = a[0], a[1]
                va = a[2] if len(a) > 2 else ("str", "")
                du = ("str", "")
            st.emit("eval", ev, tr, va, du)
            return [eng.opaque(st, c, havoc=False)]
        if q == "ginga::Object::addDelayedAction":
            a = self.vals(eng, st, c)
            st.emit("delay", c.recv, a[0], a[1],
                    a[3] if len(a) > 3 else ZERO,
                    a[2] if len(a) > 2 else ("str", ""),
                    a[4] if len(a) > 4 else ("str", ""))
            return [(("sym", "void"), st)]
        if q == "ginga::Document::getSettings":
            return [(("ptr", SET), st)]
        if q == "ginga::MediaSettings::scheduleFocusUpdate" \
                and c.recv == ("ptr", SET) and self.cls != \
                "ginga::MediaSettings":
            st.emit("focusupdate", *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if q == "ginga::Document::getData":
            a = self.vals(eng, st, c)
            l = a[1][1] if a[1][0] == "ptr" else None
            if l is not None:
                eng.store(st, l, ("sym", "data", a[0]))
            return [(ONE, st)]
        if q in ("ginga::Document::evalPropertyRef",):
            a = self.vals(eng, st, c)
            return resolve(eng, st, a)
        if q in ("ginga::Object::getEvent",
                 "ginga::Object::getPresentationEvent") and \
                c.recv == ("ptr", OBJ):
            a = self.vals(eng, st, c)
            pres = ("int", p.enum("ginga::Event::PRESENTATION"))
            if a[-1] == ("str", "@lambda") and a[0] in (a[-1], pres):
                return [(eng.load(st, ("f", OBJ, "_lambda")), st)]
            return None
        if q == "ginga::Document::evalPredicate":
            a = self.vals(eng, st, c)
            out = []
            r, s = eng.opaque(st, c, havoc=False)
            for b, s2 in eng.truth(s, r):
                s2.emit("pred", a[0], b)
                out.append((ONE if b else ZERO, s2))
            return out
        if q == "ginga::parse_time":
            a = self.vals(eng, st, c)
            v = ("op", "fn", "parse_time", a[0])
            st.facts[("ne", v)] = st.facts.get(("ne", v), frozenset()) \
                | {NONE}            # it aborts otherwise
            return [(v, st)]
        if c.cls and p.classes.get(c.cls) is not None and \
                (c.cls == "ginga::Player" or p.isa(c.cls, "ginga::Player")):
            n = c.name
            if n == "createPlayer":
                st.emit("player", "createPlayer", self.vals(eng, st, c))
                f = st.copy()
                f.trace = f.trace + (("created", False),)
                st.trace = st.trace + (("created", True),)
                return [(ZERO, f), (("ptr", PLY), st)]
            if n in PLAYER_API:
                st.emit("player", n, c.recv, self.vals(eng, st, c))
                return [eng.opaque(st, c, havoc=False)]
            if n == c.cls.split("::")[-1] or n.startswith("~"):
                return [eng.opaque(st, c, havoc=False)]
            return None
        if q.startswith("ginga::Formatter::"):
            st.emit("formatter", c.name, self.vals(eng, st, c))
            return [eng.opaque(st, c, havoc=False)]
        if q in ("ginga::Event::toString", "ginga::Event::getFullId",
                 "ginga::Object::toString"):
            return [(("op", "fn", q, c.recv), st)]
        if q == "ginga::Object::setProperty" and c.recv == ("ptr", OBJ):
            st.emit("objprop", *self.vals(eng, st, c))
            return None
        return None


def resolve(eng, st, a):
    """Property references: true and the value, or false and no effect."""
    v = a[0]
    if v[0] == "str" and not v[1].startswith("$"):
        return [(ZERO, st)]
    out = []
    for b in (True, False):
        if st.facts.get(("resolves", v), b) != b:
            continue
        s = st.copy()
        s.facts[("resolves", v)] = b
        if b and a[1][0] == "ptr":
            eng.store(s, a[1][1], ("op", "fn", "resolve", v))
        out.append((ONE if b else ZERO, s))
    return out


def resolved(st, v):
    """v after resolving a reference, on this path."""
    b = st.facts.get(("resolves", v))
    if b is None:
        return v if v[0] == "str" and not v[1].startswith("$") else None
    return ("op", "fn", "resolve", v) if b else v


class Case:
    pass


def event_state(prog, n):
    return ("int", prog.enum("ginga::Event::" + n))


def setup(prog, cls, etype, lam, state, paramless=False):
    """Initial abstract state for an event of an object of class cls."""
    st = State()
    ETYPE = ("int", prog.enum("ginga::Event::" + etype))
    st.mem[("f", EVT, "_type")] = ETYPE
    st.mem[("f", EVT, "_object")] = ("ptr", OBJ)
    st.mem[("f", EVT, "_state")] = event_state(prog, state)
    st.mem[("f", OBJ, "_doc")] = ("ptr", DOC)
    if lam:
        st.mem[("f", EVT, "_id")] = ("str", "@lambda")
        st.mem[("f", OBJ, "_lambda")] = ("ptr", EVT)
    else:
        st.facts[("ne", ("fld", ("at", EVT), "_id"))] = \
            frozenset({("str", "@lambda")})
        st.mem[("f", OBJ, "_lambda")] = ("ptr", LAM)
        st.mem[("f", LAM, "_type")] = \
            ("int", prog.enum("ginga::Event::PRESENTATION"))
        st.mem[("f", LAM, "_id")] = ("str", "@lambda")
        st.mem[("f", LAM, "_object")] = ("ptr", OBJ)
    if etype == "PRESENTATION" and (lam or cls == "ginga::Switch"):
        # the clock is defined iff the object is active (E03, E04)
        if state == "SLEEPING":
            st.mem[("f", OBJ, "_time")] = NONE
        else:
            st.facts[("ne", ("fld", ("at", OBJ), "_time"))] = \
                frozenset({NONE})
    if etype == "PRESENTATION" and "Media" in cls:
        # there is a player iff the media is active (E07)
        if state != "SLEEPING":
            st.facts[("ne", ("fld", ("at", OBJ), "_player"))] = \
                frozenset({ZERO})
        elif lam:
            st.mem[("f", OBJ, "_player")] = ZERO
    return st


TYPES = ["PRESENTATION", "ATTRIBUTION", "SELECTION", "LOOKAT"]
STATES = ["SLEEPING", "OCCURRING", "PAUSED"]
TRANS = ["START", "PAUSE", "RESUME", "STOP", "ABORT"]
CLASSES = ["ginga::Context", "ginga::Switch", "ginga::Media",
           "ginga::MediaSettings"]
LEGAL = {("SLEEPING", "START"): "OCCURRING",
         ("PAUSED", "START"): "OCCURRING",
         ("OCCURRING", "PAUSE"): "PAUSED",
         ("PAUSED", "RESUME"): "OCCURRING",
         ("OCCURRING", "STOP"): "SLEEPING",
         ("PAUSED", "STOP"): "SLEEPING",
         ("OCCURRING", "ABORT"): "SLEEPING",
         ("PAUSED", "ABORT"): "SLEEPING"}


def run_case(prog, cls, etype, lam, state, trans, tweak=None,
             policy=TransPolicy):
    pol = policy(prog, cls)
    eng = Engine(prog, pol)
    fn = prog.fn1("ginga::Event::transition")
    st = setup(prog, cls, etype, lam, state)
    if tweak:
        tweak(prog, st)
    t = ("int", prog.enum("ginga::Event::" + trans))
    res = eng.run(fn, [t], st, ("ptr", EVT))
    c = Case()
    c.cls, c.etype, c.lam, c.state, c.trans = cls, etype, lam, state, trans
    c.results = []
    seen = set()
    for v, s in res:
        c.results.append((v, s))
    c.aborts = pol.aborts
    c.nulls = pol.nulls
    c.eng = eng
    return c


# -- reading summaries -------------------------------------------------------
def norm(ident):
    """Containers by symbolic name, whether touched or not."""
    if isinstance(ident, tuple) and ident[0] == "f":
        return ("fld", ("at", ident[1]), ident[2])
    return ident


def fld(base, name):
    return ("fld", ("at", base), name)


CHILDREN = fld(OBJ, "_children")
EVENTS = fld(OBJ, "_events")
PROPS = fld(OBJ, "_properties")
DELAYED = fld(OBJ, "_delayed")
PARENT = fld(OBJ, "_parent")
RULES = fld(OBJ, "_rules")


def flat(trace, inside=()):
    """All events, with the iterations they are in."""
    for e in trace:
        if e[0] == "each":
            for seg in e[3]:
                for x in flat(seg, inside + (norm(e[1]),)):
                    yield x
        elif e[0] != "it":
            yield e, inside


def eaches(trace, ident):
    return [e for e in trace if e[0] == "each" and norm(e[1]) == ident]


def isempty(eng, st, ident):
    for i in (ident,) + ((("f", ident[1][1], ident[2]),)
                         if ident[0] == "fld" and ident[1][0] == "at" else ()):
        if st.facts.get(("empty", i)) is True:
            return True
        c = st.mem.get(i)
        if isinstance(c, tuple) and c[0] == "cont" and c[1] == "empty":
            return True
    return False


def elemof(v, ident):
    """Does v depend on the element of an iteration over ident?"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "elem" and norm(v[1]) == ident:
            return True
        return any(elemof(x, ident) for x in v if isinstance(x, tuple))
    return False


def foreach(eng, st, trace, ident, ok):
    """Every element of ident is visited in full by a loop whose every
    iteration satisfies ok(segment).  (bool, why)"""
    if isempty(eng, st, ident):
        return True, ""
    es = eaches(trace, ident)
    if not es:
        return False, "no complete pass over %s" % pp.ident(ident)
    why = ""
    for e in es:
        if not e[4]:
            why = "the pass over %s is left early" % pp.ident(ident)
            continue
        bad = [s for s in e[3] if not ok(s)]
        if not bad:
            return True, ""
        why = "an element of %s gets only [%s]" % (pp.ident(ident),
                                                   pp.trace(bad[0]))
    return False, why


def tname(prog, v):
    if v[0] == "int":
        return prog.enumname.get(("ginga::Event::Transition", v[1]),
                                 str(v)).split("::")[-1]
    return pp.val(v)


def sname(prog, v):
    if v[0] == "int":
        return prog.enumname.get(("ginga::Event::State", v[1]),
                                 str(v)).split("::")[-1]
    return pp.val(v)


_PROG = None


def _job(a):
    try:
        args, kw, digest = a
        c = run_case(_PROG, *args, **kw)
        r = digest(_PROG, c)
        return r, c.eng.analysed, c.eng.steps, None
    except Exception as e:      # reported by the parent
        import traceback
        return None, set(), 0, "%s\n%s" % (e, traceback.format_exc())


def parallel(ctx, jobs):
    """jobs: [(args, kwargs, digest)] -> digests; digest functions must be
    module-level and return plain data."""
    global _PROG
    import multiprocessing as mp
    from absint import Budget
    _PROG = ctx.p
    out = []
    with mp.get_context("fork").Pool(8) as pool:
        for r, analysed, steps, err in pool.imap(_job, jobs, chunksize=1):
            if err:
                if "Budget" in err:
                    raise Budget(err)
                raise RuntimeError(err)
            ctx.saw(analysed)
            ctx.count("dataflow_states", steps)
            out.append(r)
    return out


def label(c):
    return "%s %s%s %s %s" % (c.cls.split("::")[-1], c.etype.lower(),
                              "(lambda)" if c.lam else "", c.state.lower(),
                              c.trans.lower())


def yes(c):
    """Final states of the paths on which the transition succeeds."""
    return [st for v, st in c.results if v == ONE]


def no(c):
    return [st for v, st in c.results if v == ZERO]


def where(prog):
    return prog.fn1("ginga::Event::transition").where()


def report(prog, c, what, st=None, key=None):
    return ("%s %s" % (key or what, label(c)),
            "%s: %s: %s" % (where(prog), label(c), what),
            "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                     pp.trace(st.trace)) if st else "")


def tconst(prog, n):
    return ("int", prog.enum("ginga::Event::" + n))


def cases(ctx, digest, classes=CLASSES, types=("PRESENTATION",),
          lams=(True,), states=STATES, transs=TRANS, legal=True, **kw):
    jobs = []
    for cls in classes:
        for ty in types:
            for lam in (lams if ty == "PRESENTATION" else (False,)):
                for s in states:
                    for t in transs:
                        if legal and (s, t) not in LEGAL:
                            continue
                        jobs.append(((cls, ty, lam, s, t), kw, digest))
    n = 0
    for viols, paths, lab in parallel(ctx, jobs):
        ctx.count("cases")
        ctx.count("paths", paths)
        n += paths
        ctx.sample(lab)
        for v in viols:
            ctx.violation(*v)
    ctx.require(n, 1, "paths")


def final(st, obj, f):
    return st.mem.get(("f", obj, f))


def isnullptr(st, v):
    return v == ZERO or st.facts.get(("val", v)) == ZERO


def parent_ctx(st):
    """Is the parent of the object a context on this path?  True, False or
    None when the path does not know."""
    if st.facts.get(("val", PARENT)) == ZERO or \
            st.mem.get(("f", OBJ, "_parent")) == ZERO:
        return False
    v = st.facts.get(("isa", PARENT, "ginga::Context"))
    if v is not None:
        return v
    for k, b in st.facts.items():
        if k[0] == "isa" and k[1] == PARENT and b and \
                k[2] == "ginga::Switch":
            return False
    return None


def isfld(v, base, name):
    """v is the field of the object that base points to."""
    return v[0] == "fld" and v[2] == name and \
        v[1] in (base, ("at", ("d", base)))


AEVT = ("o", "aevt")        # stands for any event of the object's


def assume_event(prog, st, cur, etype, eid, label, begin=("sym", "begin"),
                 end=("sym", "end")):
    """The element an iteration over events stands at is such an event."""
    st.mem[("elem", cur[1], cur)] = ("ptr", AEVT)
    st.mem[("f", AEVT, "_type")] = ("int", prog.enum("ginga::Event::" +
                                                     etype))
    if eid is None:
        st.mem.pop(("f", AEVT, "_id"), None)
        st.facts[("ne", ("fld", ("at", AEVT), "_id"))] = \
            frozenset({("str", "@lambda")})
    else:
        st.mem[("f", AEVT, "_id")] = ("str", eid)
    st.mem[("f", AEVT, "_label")] = ("str", label)
    st.mem[("f", AEVT, "_begin")] = begin
    st.mem[("f", AEVT, "_end")] = end
    st.mem[("f", AEVT, "_object")] = ("ptr", OBJ)
    for v in (begin, end):
        st.facts[("ne", v)] = frozenset({NONE})


def elemof_it(v, ident):
    """Is v an iterator into ident?"""
    return isinstance(v, tuple) and len(v) > 1 and \
        v[0] in ("cur", "rcur", "find") and norm(v[1]) == ident
