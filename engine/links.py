"""Scenarios for Document::evalAction: an action on an event of an object in
a given place of the document, with the transition succeeding or refused."""
import absint
import trans
from absint import Engine, State, ZERO, ONE, mentions
import pp

EV, OBJ, DOC = trans.EVT, trans.OBJ, trans.DOC
PC, GC, AC = ("o", "parent"), ("o", "grandparent"), ("o", "aliascontext")
SW = ("o", "switch")
OTHER = ("o", "otherobject")
PORT = ("o", "port")
LAMOF = {PC: ("o", "parentlambda"), GC: ("o", "grandparentlambda"),
         AC: ("o", "aliaslambda"), SW: ("o", "switchlambda")}
VALUE, DURATION = ("sym", "value"), ("sym", "duration")


def links(c):
    return trans.fld(c, "_links")


def own(c, name):
    return trans.fld(c, name)


LINKS = tuple(links(c) for c in (PC, GC, AC, OBJ))
SWPORTS = own(SW, "_switchPorts")
MAPPED = ("o", "mapped")


class Pol(trans.TransPolicy):
    """ok: does the transition of the event succeed; match: does a condition
    of a link refer to it."""
    budget = 200000
    ok = True
    single = True           # leave out the actions that follow
    delay = None            # of the actions: "zero" or "pos"
    refs = None             # are their delays references
    match = None            # (event matches, transition matches)
    port = None             # does a port refer to the object
    mapped = None

    def __init__(self, prog, cls, **kw):
        trans.TransPolicy.__init__(self, prog, cls)
        self.dead = []
        self.__dict__.update(kw)

    def dyncls(self, eng, st, loc):
        if loc in (PC, GC, AC):
            return "ginga::Context"
        if loc == SW:
            return "ginga::Switch"
        return trans.TransPolicy.dyncls(self, eng, st, loc)

    def watch(self, ident):
        n = trans.norm(ident)
        return n[0] == "v" or any(n == l or trans.elemof(n, l)
                                  for l in LINKS) or \
            n in (own(PC, "_ports"), own(OBJ, "_aliases"), SWPORTS) or \
            trans.elemof(n, SWPORTS)

    def element(self, eng, st, cur):
        n = trans.norm(cur[1])
        if self.port is not None and n == own(PC, "_ports"):
            st.mem[("elem", cur[1], cur)] = ("ptr", PORT)
            st.mem[("f", PORT, "_object")] = \
                ("ptr", OBJ if self.port else OTHER)
        if n == own(OBJ, "_aliases"):
            st.mem[("f", ("elem", cur[1], cur), "second")] = ("ptr", AC)
        if n in LINKS:
            # a link has conditions and actions
            for f in ("first", "second"):
                st.facts[("empty", trans.fld(("elem", cur[1], cur), f))] = \
                    False
        if n == SWPORTS:
            st.facts[("empty", trans.fld(("elem", cur[1], cur),
                                         "second"))] = False
        elif trans.elemof(n, SWPORTS) and self.mapped is not None:
            st.mem[("elem", cur[1], cur)] = ("ptr", MAPPED)
            st.mem[("f", MAPPED, "_object")] = \
                ("ptr", OBJ if self.mapped else OTHER)

    def assume_eq(self, eng, st, a, b):
        if self.match is not None:
            for x, y in ((a, b), (b, a)):
                if x[0] != "fld" or not any(trans.elemof(x, l)
                                            for l in LINKS):
                    continue
                if y == ("ptr", EV) and x[2] == "event":
                    return self.match[0]
                if y[0] == "int" and x[2] == "transition":
                    return self.match[1]
        for x, y in ((a, b), (b, a)):
            # actions and conditions always have an event
            if y == ZERO and x[0] == "fld" and x[2] in ("event", "_object"):
                return False
            if y == ZERO and x[:3] == ("op", "fn", "getEvent"):
                return False    # labels of ports exist (D05)
        return trans.TransPolicy.assume_eq(self, eng, st, a, b)

    def call(self, eng, st, c):
        q = c.q
        if q == "ginga::Event::transition":
            t = eng.rv(st, c.args[0])
            if c.recv == ("ptr", EV):
                ps = tuple(self.param(eng, st, n)
                           for n in ("value", "duration"))
                st.emit("go", t, ps)
                return [(ONE if self.ok else ZERO, st)]
            st.emit("next", c.recv, t)
            if self.single:     # only the first action matters
                self.dead.append(st)
                return []
            return [(ZERO, st)]
        if q == "ginga::Event::setParameter" and c.recv == ("ptr", EV):
            a = self.vals(eng, st, c)
            if a[0][0] == "str":
                st.mem[("f", ("o", "params"), a[0][1])] = a[1]
            return [(ONE, st)]
        if q.startswith("ginga::Event::getEvent") and \
                q.endswith("AsString"):
            return [(("op", "fn", q) + self.vals(eng, st, c), st)]
        if q == "ginga::Object::getEvent" and c.recv != ("ptr", OBJ):
            return [(("op", "fn", "getEvent", c.recv)
                     + self.vals(eng, st, c), st)]
        if q == "ginga::Document::evalPropertyRef" and self.refs is not None:
            a = self.vals(eng, st, c)
            if a[0][0] == "fld":
                st.facts[("resolves", a[0])] = self.refs
        if q == "ginga::parse_time" and self.delay is not None:
            a = self.vals(eng, st, c)
            st.emit("time", a[0])
            v = ("op", "fn", "parse_time", a[0])
            if self.delay == "zero":
                return [(ZERO, st)]
            st.facts[("ne", v)] = st.facts.get(("ne", v), frozenset()) \
                | {trans.NONE, ZERO}
            return [(v, st)]
        if c.cls and "Action" in c.cls and c.recv is not None and \
                c.recv[0] in ("ptr", "loc"):
            if c.name in ("push_back", "push_front", "emplace_back",
                          "emplace_front"):
                st.emit("push", c.name.split("_")[1], eng.ident(
                    st, ("loc", c.recv[1])), eng.rv(st, c.args[0]))
            elif c.name in ("insert", "splice", "merge", "sort", "reverse",
                            "swap", "assign"):
                st.emit("list", c.name, eng.ident(st, ("loc", c.recv[1])),
                        *[self.argid(eng, st, a) for a in c.args])
        return trans.TransPolicy.call(self, eng, st, c)

    def copied(self, eng, st, src, dst):
        if src is not None and src != dst and src[0] == "v":
            st.emit("list", "copy", dst, ("list", src))

    def argid(self, eng, st, a):
        v = eng.rv(st, a)
        if a[0] == "loc" and v[0] not in ("cur", "rcur", "end"):
            return ("list", eng.ident(st, a))
        return v

    def param(self, eng, st, name):
        return st.mem.get(("f", ("o", "params"), name), ("sym", "old", name))


def context(p, st, c, parent, occurring):
    lam = LAMOF[c]
    st.mem[("f", c, "_lambda")] = ("ptr", lam)
    st.mem[("f", lam, "_state")] = trans.tconst(
        p, "OCCURRING" if occurring else "SLEEPING")
    st.mem[("f", c, "_parent")] = parent
    st.mem[("f", c, "_doc")] = ("ptr", DOC)


def scenario(p, cls="ginga::Media", etype="PRESENTATION", parent=PC,
             occurring=True, grand=False, gocc=True, aliases=False,
             status=True, trans_="START", **kw):
    st = State()
    st.mem[("f", EV, "_type")] = ("int", p.enum("ginga::Event::" + etype))
    st.mem[("f", EV, "_object")] = ("ptr", OBJ)
    st.mem[("f", OBJ, "_doc")] = ("ptr", DOC)
    st.mem[("f", OBJ, "_parent")] = ZERO if parent is None else \
        ("ptr", parent)
    if parent is not None:
        context(p, st, parent, ("ptr", GC) if grand else ZERO, occurring)
    context(p, st, GC, ZERO, gocc)
    for c in (PC, GC, AC, OBJ):
        st.mem[("f", c, "_status")] = ONE if status else ZERO
    al = ("f", OBJ, "_aliases")
    st.mem[al] = ("cont", "some" if aliases else "empty", al)
    pol = Pol(p, cls, **kw)
    eng = Engine(p, pol)
    fn = [f for f in p.byq.get("ginga::Document::evalAction", [])
          if len(f.params) == 1]
    if len(fn) != 1:
        from prog import AnchorGone
        raise AnchorGone("Document::evalAction (Action)")
    act = ("struct", ("sym", "action"), (
        (("event",), ("ptr", EV)),
        (("transition",), trans.tconst(p, trans_)),
        (("value",), VALUE), (("duration",), DURATION)))
    res = eng.run(fn[0], [act], st, ("ptr", DOC))
    return fn[0], eng, pol, res


# -- rules -------------------------------------------------------------------
def walk(trace, inside=()):
    """All events with the iterations (idents) they are in."""
    for e in trace:
        yield e, inside
        if e[0] == "each":
            for seg in e[3]:
                for x in walk(seg, inside + (trans.norm(e[1]),)):
                    yield x


def act_of(v, f):
    """The action (an element) that v is the field f of."""
    return v[1] if v[0] == "fld" and v[2] == f else None


def one_action(seg, acts, ctxobj, delay, refs):
    """seg handles one element of acts: None or what is wrong."""
    done = []
    tm = [e[1] for e, i in walk(seg) if e[0] == "time"]
    for e, i in walk(seg):
        if e[0] == "push":
            if delay == "pos":
                return "a delayed action is performed at once"
            v = e[3]
            if v[0] == "struct":
                return "the action is changed (%s)" % pp.val(v)
            if not trans.elemof(v, acts):
                return "pushes %s" % pp.val(v)
            done.append(e)
        elif e[0] == "delay":
            if delay == "zero":
                return "an action without delay is delayed"
            if e[1] != ("ptr", ctxobj):
                return "delayed on %s" % pp.val(e[1])
            ev, tr, dl, va, du = e[2], e[3], e[4], e[5], e[6]
            a = act_of(ev, "event")
            if a is None or not trans.elemof(ev, acts):
                return "delays event %s" % pp.val(ev)
            if act_of(tr, "transition") != a:
                return "delays transition %s" % pp.val(tr)
            if act_of(va, "value") != a:
                return "delays value %s" % pp.val(va)
            if act_of(du, "duration") != a:
                return "delays duration %s" % pp.val(du)
            w = ("fld", a, "delay")
            if refs:
                w = ("op", "fn", "resolve", w)
            if dl != ("op", "fn", "parse_time", w):
                return "delays by %s" % pp.val(dl)
            done.append(e)
        elif e[0] in ("eval", "next"):
            return "performs %s" % pp.event(e)
    for x in tm:
        a = act_of(x[3] if x[:3] == ("op", "fn", "resolve") else x, "delay")
        if a is None or (x[:3] == ("op", "fn", "resolve")) != bool(refs):
            return "the delay used is %s" % pp.val(x)
    if len(done) != 1:
        return "performed %d times" % len(done)
    return None


def link_pass(e, ctxobj, delay, refs):
    """e: the pass over the links of ctxobj, with matching conditions."""
    ident = trans.norm(e[1])
    for seg in e[3]:
        conds = [x for x in seg if x[0] == "each"
                 and trans.norm(x[1])[0] == "fld"
                 and trans.norm(x[1])[2] == "first"]
        if not conds:
            return "a link is not examined (%s)" % pp.trace(seg)
        for c in conds:
            if not c[4]:
                return "not every condition of a link is examined"
            for cs in c[3]:
                w = cond_seg(cs, ctxobj, delay, refs)
                if w:
                    return w
    if not e[4]:
        return "not every link of the context is examined"
    return None


def cond_seg(seg, ctxobj, delay, refs):
    preds = [x for x, i in walk(seg) if x[0] == "pred"]
    fails = any(x[2] is False for x in preds)
    for x in preds:
        if act_of(x[1], "predicate") is None:
            return "evaluates the predicate %s" % pp.val(x[1])
    effects = [x for x, i in walk(seg) if x[0] in ("push", "delay", "eval",
                                                   "next")]
    if fails:
        if effects:
            return "triggered though the predicate is false: %s" % \
                pp.event(effects[0])
        return None
    acts = [x for x in seg if x[0] == "each" and trans.norm(x[1])[0] == "fld"
            and trans.norm(x[1])[2] == "second"]
    if not acts:
        return "a matching condition triggers nothing"
    if len(acts) > 1:
        return "a condition triggers its link %d times" % len(acts)
    a = acts[0]
    if not a[4]:
        return "not every action of a link is triggered"
    for s in a[3]:
        w = one_action(s, trans.norm(a[1]), ctxobj, delay, refs)
        if w:
            return w
    return None


def passes(st, c):
    """Complete and incomplete passes over the links of c: (event, inside),
    loops left early contributing their iteration markers."""
    out = []
    for e, inside in walk(st.trace):
        if e[0] in ("each", "it") and trans.norm(e[1]) == links(c):
            out.append((e, inside))
    return out


def linkstatus_effects(st):
    return [x for x, i in walk(st.trace) if x[0] in ("delay", "eval")
            or x[0] == "push" and x[3][0] != "struct"]


_P = None


def _job(a):
    fn, job = a
    try:
        r = fn(_P, job)
        eng = r[2]
        return (r[0], r[1], None) + tuple(r[3:]), eng.analysed, eng.steps, \
            None, absint.REPEATS
    except Exception as e:
        import traceback
        return None, set(), 0, "%s\n%s" % (e, traceback.format_exc()), []


def _spread(a):
    fn, j = a
    from core import Ctx
    c = Ctx("", "", _P)
    del absint.REPEATS[:]
    fn(c, *j)
    return c.viol, c.counts, c.functions, list(absint.REPEATS)


def spread(ctx, fn, jobs):
    """fn (context, *job) for every job, in parallel."""
    global _P
    import multiprocessing as mp
    _P = ctx.p
    with mp.get_context("fork").Pool(8) as pool:
        for viol, counts, fns, again in pool.imap(
                _spread, [(fn, j) for j in jobs], chunksize=1):
            for v in viol:
                ctx.violation(*v)
            for n, k in counts.items():
                ctx.count(n, k)
            ctx.saw(fns)
            absint.REPEATS.extend(again)


def parallel(ctx, fn, jobs):
    global _P
    import multiprocessing as mp
    from absint import Budget
    _P = ctx.p
    out = []
    with mp.get_context("fork").Pool(8) as pool:
        for r, analysed, steps, err, again in pool.imap(_job, [(fn, j) for j in
                                                        jobs], chunksize=1):
            if err:
                if "Budget" in err:
                    raise Budget(err)
                raise RuntimeError(err)
            ctx.saw(analysed)
            ctx.count("dataflow_states", steps)
            absint.REPEATS.extend(again)
            out.append(r)
    return out
