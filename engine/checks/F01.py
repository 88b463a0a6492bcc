"""Path-sensitive dataflow over the formatter's entry points (start, stop,
sendKey, sendTick, getState), for every state of the formatter, with the end
of the presentation pending or not, the root running or not, and every object
of the document in a given state."""
import own
import trans
import pp
from absint import Engine, State, ZERO, ONE
from trans import OBJ, DOC, SET

ROOT, RLAM, SLAM, XLAM = ("o", "root"), ("o", "rootlam"), \
    ("o", "settingslam"), ("o", "lam of each")
OBJECTS = trans.fld(DOC, "_objects")
FILE, ERR = ("sym", "file"), ("sym", "errmsg")
PUBLIC = ("sendKey", "sendTick", "start", "stop", "redraw", "pause", "resume",
          "sendKeyEvent", "setProperty", "resize")


class Pol(own.Fill):
    parses = True

    def call(self, eng, st, c):
        q = c.q
        if c.name == "parseFile" and c.cls and c.cls.startswith("ginga::") \
                or q in ("ginga::Parser::parseFile",
                         "ginga::ParserLua::parseFile"):
            st.emit("parse", q, *self.vals(eng, st, c))
            return [(("ptr", DOC) if self.parses else ZERO, st)]
        if q == "ginga::Document::evalAction":
            a = self.vals(eng, st, c)
            st.emit("eval", *a)
            return [(ONE, st)]
        if q == "ginga::Event::transition":
            st.emit("transition", c.recv, *self.vals(eng, st, c))
            if c.recv == ("ptr", SLAM):
                return [(ONE, st)]      # it is sleeping
        if c.cls == "ginga::WebServices":
            return [(("sym", "void"), st)]
        if c.name in PUBLIC and c.recv is not None and c.cls and \
                c.recv != ("ptr", OBJ) and c.cls.startswith("ginga::"):
            st.emit("ext", c.name, c.recv, self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        return own.Fill.call(self, eng, st, c)

    def put(self, eng, st, c, ident, args):
        if trans.norm(ident)[0] == "v":
            st.emit("put", c.name, trans.norm(ident), *args)

    def element(self, eng, st, cur):
        if trans.norm(cur[1]) == OBJECTS:
            v = eng.load(st, ("elem", cur[1], cur))
            st.mem[("f", ("d", v), "_lambda")] = ("ptr", XLAM)
            st.mem[("f", XLAM, "_state")] = self.each

    def store(self, eng, st, loc, val, fn, nid):
        if loc[0] == "elem" or loc[0] == "f" and loc[1][0] == "elem":
            st.emit("store", loc, val)

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ZERO and own.isel(x, OBJECTS):
                return False
        return own.Fill.assume_eq(self, eng, st, a, b)


def run(ctx, name, args, state, eos=False, root="OCCURRING", each="OCCURRING",
        parses=True):
    p = ctx.p
    pol = Pol(p, None)
    pol.classes = {OBJ: "ginga::Formatter", DOC: "ginga::Document",
                   ROOT: "ginga::Context", RLAM: "ginga::Event",
                   SLAM: "ginga::Event", SET: "ginga::MediaSettings",
                   XLAM: "ginga::Event"}
    pol.each = trans.tconst(p, each)
    pol.parses = parses
    eng = Engine(p, pol)
    st = State()
    m = st.mem
    m[("f", OBJ, "_state")] = ("int", p.enum("GINGA_STATE_" + state))
    m[("f", OBJ, "_doc")] = ("ptr", DOC) if state == "PLAYING" else ZERO
    m[("f", OBJ, "_eos")] = ONE if eos else ZERO
    m[("f", DOC, "_root")] = ("ptr", ROOT)
    m[("f", DOC, "_settings")] = ("ptr", SET)
    m[("f", ROOT, "_lambda")] = ("ptr", RLAM)
    m[("f", ROOT, "_doc")] = m[("f", SET, "_doc")] = ("ptr", DOC)
    m[("f", RLAM, "_state")] = trans.tconst(p, root)
    m[("f", SET, "_lambda")] = ("ptr", SLAM)
    m[("f", SLAM, "_state")] = trans.tconst(p, "SLEEPING")
    st.facts[("empty", OBJECTS)] = False
    fn = p.fn1("ginga::Formatter::" + name)
    res = eng.run(fn, args, st, ("ptr", OBJ))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    if not res:
        lab = "%s of a %s formatter" % (name, state.lower())
        ctx.violation(name + " returns", "%s: %s never returns" % (
            fn.where(), lab), "")
    return fn, eng, res


def field(st, name):
    return st.mem.get(("f", OBJ, name))


def effects(st):
    return [e for e, i in trans.flat(st.trace)
            if e[0] in ("eval", "transition", "ext", "delete", "delay",
                        "player", "parse", "focusupdate")]


def check(ctx):
    p = ctx.p
    playing = ("int", p.enum("GINGA_STATE_PLAYING"))
    stopped = ("int", p.enum("GINGA_STATE_STOPPED"))
    start = trans.tconst(p, "START")
    ctx.rule("a call that its state does not admit has no effect and gives "
             "false")
    ctx.rule("start: parse, start the root once, start the settings, play; a "
             "document that does not parse changes nothing")
    ctx.rule("sendKey and sendTick: once the root sleeps or the end is "
             "signalled the document is deleted once and false is given; "
             "otherwise each object that is awake (keys) or occurring (ticks) "
             "when the call comes gets it, once, after all were considered; "
             "no other does")

    def bad(fn, key, what, st):
        ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                      "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                               pp.trace(st.trace)))

    def nothing(fn, key, v, st, state, ret):
        if v != ret:
            bad(fn, key, "gives %s" % pp.val(v), st)
        if effects(st):
            bad(fn, key, pp.event(effects(st)[0]), st)
        if field(st, "_state") != state:
            bad(fn, key, "changes the state of the formatter", st)

    def ended(fn, key, v, st, ret):
        if v != ret:
            bad(fn, key, "gives %s at the end" % pp.val(v), st)
        es = effects(st)
        if [e[:2] for e in es] != [("delete", ("ptr", DOC))]:
            bad(fn, key, "the document is not just deleted at the end: %s"
                % "; ".join(pp.event(e) for e in es), st)
        if field(st, "_state") != stopped:
            bad(fn, key, "the formatter is not stopped at the end", st)
        if field(st, "_doc") != ZERO:
            bad(fn, key, "a reference to the document is kept", st)

    for s in ("PLAYING", "STOPPED"):
        fn, eng, res = run(ctx, "getState", [], s)
        for v, st in res:
            nothing(fn, "getState", v, st,
                    ("int", p.enum("GINGA_STATE_" + s)),
                    ("int", p.enum("GINGA_STATE_" + s)))
    for eos in (False, True):
        fn, eng, res = run(ctx, "stop", [], "STOPPED", eos)
        for v, st in res:
            nothing(fn, "stop stopped", v, st, stopped, ZERO)
        fn, eng, res = run(ctx, "stop", [], "PLAYING", eos)
        for v, st in res:
            ended(fn, "stop playing", v, st, ONE)
        fn, eng, res = run(ctx, "start", [FILE, ERR], "PLAYING", eos)
        for v, st in res:
            nothing(fn, "start playing", v, st, playing, ZERO)
            if field(st, "_doc") != ("ptr", DOC):
                bad(fn, "start playing", "the document is lost", st)
        # start
        fn, eng, res = run(ctx, "start", [FILE, ERR], "STOPPED", eos,
                           parses=False)
        for v, st in res:
            if v != ZERO:
                bad(fn, "start fails", "succeeds without a document", st)
            if field(st, "_state") != stopped or \
                    field(st, "_doc") != ZERO or \
                    any(e[0] != "parse" for e in effects(st)):
                bad(fn, "start fails", "a failed start has an effect", st)
        fn, eng, res = run(ctx, "start", [FILE, ERR], "STOPPED", eos)
        for v, st in res:
            es = effects(st)
            if v != ONE:
                bad(fn, "start", "a good document is refused", st)
            if field(st, "_state") != playing:
                bad(fn, "start", "the formatter is not playing", st)
            if field(st, "_eos") != ZERO:
                bad(fn, "start", "the end of the last presentation is still "
                    "signalled", st)
            if field(st, "_doc") != ("ptr", DOC):
                bad(fn, "start", "the document is lost", st)
            ps = [e for e in es if e[0] == "parse"]
            if len(ps) != 1 or ps[0][2] != FILE:
                bad(fn, "start", "the document is parsed %d times" % len(ps),
                    st)
            r = [e for e in es if e[0] == "eval"]
            if len(r) != 1 or r[0][1:3] != (("ptr", RLAM), start):
                bad(fn, "start", "the root is not started once", st)
            t = [e for e in es if e[0] == "transition"]
            if len(t) != 1 or t[0][1:3] != (("ptr", SLAM), start):
                bad(fn, "start", "the settings are not started once", st)
            if len(es) != 3:
                bad(fn, "start", "does more: %s" % "; ".join(
                    pp.event(e) for e in es), st)
            if not any(e[0] == "store" and mine(e) for e in st.trace):
                bad(fn, "start", "the document does not know its formatter",
                    st)
    for name, args in (("sendKey", [("sym", "key"), ("sym", "press")]),
                       ("sendTick", [("sym", "total"), ("sym", "diff"),
                                     ("sym", "frame")])):
        for eos in (False, True):
            fn, eng, res = run(ctx, name, args, "STOPPED", eos)
            for v, st in res:
                nothing(fn, name + " stopped", v, st, stopped, ZERO)
            for root in trans.STATES:
                if not eos and root != "SLEEPING":
                    continue
                fn, eng, res = run(ctx, name, args, "PLAYING", eos, root)
                for v, st in res:
                    ended(fn, name + " end", v, st, ZERO)
        for root in ("OCCURRING", "PAUSED"):
            for each in trans.STATES:
                want = each == "OCCURRING" or \
                    (each == "PAUSED" and name == "sendKey")
                fn, eng, res = run(ctx, name, args, "PLAYING", False, root,
                                   each)
                for v, st in res:
                    key = "%s %s" % (name, each)
                    if v != ONE:
                        bad(fn, key, "gives %s" % pp.val(v), st)
                    if field(st, "_state") != playing or \
                            field(st, "_doc") != ("ptr", DOC):
                        bad(fn, key, "the presentation is ended", st)
                    w = sent(eng, st, name, tuple(args), want)
                    if w:
                        bad(fn, key, "an object that is %s: %s" % (
                            each.lower(), w), st)


def mine(e):
    v = e[2]
    if "'formatter'" not in repr(e[1]):
        return False
    return ("ptr", OBJ) in v or "('ptr', %r)" % (OBJ,) in repr(v)


def sent(eng, st, name, args, want):
    top = [e for e in st.trace if e[0] == "each"
           and trans.norm(e[1]) == OBJECTS]
    bufs = set()

    def ok(seg):
        if any(e[0] == "ext" for e in seg):
            return False
        ps = [e for e in seg if e[0] == "put"]
        if any(not own.isel(x, OBJECTS) for e in ps for x in e[3:]):
            return False
        bufs.update(e[2] for e in ps)
        return len(ps) == (1 if want else 0)
    if any(e[0] == "ext" for t in top for s in t[3]
           for e, i in trans.flat(s)):
        return "something is sent before all objects were considered"
    if want or top:
        g, why = trans.foreach(eng, st, st.trace, OBJECTS, ok)
        if not g:
            return why
    n = 0
    for i, e in enumerate(st.trace):
        if e[0] in ("eval", "transition", "delete", "delay", "ext"):
            return pp.event(e)
        if e[0] != "each" or trans.norm(e[1]) == OBJECTS:
            continue
        b = trans.norm(e[1])
        acts = [[x for x in s if x[0] == "ext"] for s in e[3]]
        if not any(acts):
            continue
        if b not in bufs:
            return "something is sent to others"
        n += 1
        if not e[4]:
            return "the pass over the collected objects is left early"
        for a in acts:
            if len(a) != 1 or a[0][1] != name or not own.isel(a[0][2], b) \
                    or a[0][3] != args:
                return "a collected object does not get just this once"
    # a path on which the buffer turned out to be empty
    if want and n != 1 and not all(trans.isempty(eng, st, b)
                                   for b in bufs):
        return "the collected objects get it in %d passes" % n
    return None
