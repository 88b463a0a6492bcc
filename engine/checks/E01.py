"""Path-sensitive dataflow over Event::transition with the hooks of every
object class analysed in place: for each class, event type, current state and
requested transition, the set of (result, final state) pairs over all paths is
compared with the NCL event state machine."""
import trans
from absint import ONE, ZERO, Engine, Policy, State
import pp


def digest(prog, c):
    out = []
    nxt = trans.LEGAL.get((c.state, c.trans))
    lab = trans.label(c)
    where = prog.fn1("ginga::Event::transition").where()
    seen_true = False
    for v, st in c.results:
        s = st.mem.get(("f", trans.EVT, "_state"))
        sn = trans.sname(prog, s) if s else "?"
        tr = pp.trace(st.trace)
        if v == ONE:
            seen_true = True
            if nxt is None:
                out.append(("illegal " + lab, "%s: %s succeeds although the "
                            "state machine has no such transition"
                            % (where, lab), tr))
            elif sn != nxt:
                out.append(("next " + lab, "%s: %s leaves the event %s "
                            "instead of %s" % (where, lab, sn.lower(),
                                               nxt.lower()), tr))
        elif v == ZERO:
            if sn != c.state:
                out.append(("refused " + lab, "%s: refused %s changes the "
                            "state to %s" % (where, lab, sn.lower()), tr))
            if nxt is None and st.trace:
                out.append(("effect " + lab, "%s: %s is not a transition of "
                            "the state machine but has effects"
                            % (where, lab), tr))
        else:
            out.append(("result " + lab, "%s: %s has an undefined result %s"
                        % (where, lab, pp.val(v or ZERO)), tr))
    return (lab, nxt is not None, seen_true, len(c.results), out, c.trans,
            c.lam, c.cls, c.etype, len(c.aborts))


# (class, event type) pairs whose stop/pause/resume/abort the hooks accept
def must_succeed(cls, etype, lam, trans_):
    if etype == "PRESENTATION" and (lam or "Media" in cls):
        return trans_ in ("PAUSE", "RESUME", "STOP", "ABORT")
    return False


def can_start(cls, etype, lam, trans_):
    if trans_ not in ("START", "STOP"):
        return False
    if "Media" in cls or etype == "PRESENTATION" and \
            (lam or cls == "ginga::Switch"):
        return True
    return etype == "ATTRIBUTION" and cls == "ginga::Context"


class InitPol(Policy):
    def __init__(self):
        self.stores = []

    def store(self, eng, st, loc, val, fn, nid):
        if loc[0] == "f" and loc[2] == "_state" and loc[1] == trans.EVT:
            self.stores.append((fn, nid, val))

    def call(self, eng, st, c):
        if c.q.startswith("ginga::Object::") or \
                c.q.startswith("ginga::Event::transition"):
            return [eng.opaque(st, c)]
        return None


def check(ctx):
    p = ctx.p
    ctx.rule("for every (class, type, lambda, state, transition): result true "
             "=> state machine successor; result false => state unchanged; "
             "no successor => result false and no effect")
    ctx.rule("each class accepts the start and stop of the events it has")
    ctx.rule("pause, resume, stop and abort of a running presentation are "
             "never refused")
    ctx.rule("Event::_state is written only by Event; outside the transition "
             "function only SLEEPING is written; new events are SLEEPING")
    jobs = []
    for cls in trans.CLASSES:
        for ty in trans.TYPES:
            for lam in ([True, False] if ty == "PRESENTATION" else [False]):
                for s in trans.STATES:
                    for t in trans.TRANS:
                        jobs.append(((cls, ty, lam, s, t), {}, digest))
    for lab, legal, ok, n, viol, t, lam, cls, ty, ab in \
            trans.parallel(ctx, jobs):
        ctx.count("cases")
        ctx.count("path_results", n)
        for v in viol:
            ctx.violation(*v)
        if legal and n and not ok:
            if must_succeed(cls, ty, lam, t) or can_start(cls, ty, lam, t):
                ctx.violation("never " + lab, "%s: %s can never succeed"
                              % (p.fn1("ginga::Event::transition").where(),
                                 lab))
        ctx.sample(lab)
    # no refusals where the machine allows the transition
    for r in trans.parallel(ctx, [((cls, "PRESENTATION", lam, s, t), {},
                                   refusals)
                                  for cls in trans.CLASSES
                                  for lam in (True, False)
                                  for (s, t) in trans.LEGAL
                                  if must_succeed(cls, "PRESENTATION", lam,
                                                  t)]):
        for v in r:
            ctx.violation(*v)
    # who writes the state, and what
    sleeping = ("int", p.enum("ginga::Event::SLEEPING"))
    tkey = p.fn1("ginga::Event::transition").key
    n = 0
    for f in p.fns.values():
        direct = [i for i, nd in enumerate(f.nodes)
                  if nd.get("mq") == "ginga::Event::_state"
                  and nd["k"] == "MemberExpr"]
        wr = [i for i in direct if is_written(f, i)]
        if not wr:
            continue
        n += 1
        if f.cls != "ginga::Event" and not f.lam:
            ctx.violation("writer " + f.q, "%s: %s writes the state of an "
                          "event behind its back" % (f.where(wr[0]), f.q))
    ctx.count("state_writers", n)
    ctx.require(n, 2, "writers of Event::_state")
    closure = reach(p, tkey)
    for f in p.fns.values():
        if f.cls == "ginga::Event" and not f.static and f.blocks and \
                f.key not in closure and not f.dtor:
            pol = InitPol()
            eng = Engine(p, pol)
            st = State()
            if not f.ctor:
                st.mem[("f", trans.EVT, "_state")] = ("sym", "state")
            eng.run(f, [("sym", "arg", i) for i in range(len(f.params))], st,
                    ("ptr", trans.EVT))
            ctx.saw(eng.analysed)
            for g, nid, val in pol.stores:
                if val != sleeping:
                    ctx.violation("reset " + f.n, "%s: %s sets the state of "
                                  "an event to %s"
                                  % (g.where(nid), f.q,
                                     trans.sname(p, val)))
            if f.ctor and not pol.stores:
                ctx.violation("initial", "%s: a new event has no defined "
                              "state" % f.where())


def refusals(prog, c):
    out = []
    for v, st in c.results:
        if v == ZERO:
            out.append(("refusal " + trans.label(c),
                        "%s: %s can be refused" %
                        (prog.fn1("ginga::Event::transition").where(),
                         trans.label(c)), pp.trace(st.trace)))
            break
    return out


def is_written(f, nid):
    par = f.parents()
    for x in par.get(nid, []):
        nd = f.nodes[x]
        if nd["k"] in ("BinaryOperator", "CompoundAssignOperator") and \
                nd["op"].endswith("=") and nd["op"] not in (
                    "==", "!=", "<=", ">=") and nd["c"][0] == nid:
            return True
        if nd["k"] == "UnaryOperator" and nd["op"] in ("++", "--", "&"):
            return True
        if nd["k"] == "ParenExpr" and is_written(f, x):
            return True
    return False


def reach(p, key):
    """Methods of Event called (transitively) from key only."""
    out = set()
    work = [key]
    while work:
        k = work.pop()
        if k in out or k not in p.fns:
            continue
        out.add(k)
        for nd in p.fns[k].nodes:
            t = nd.get("fn")
            if t and t in p.fns and p.fns[t].cls == "ginga::Event":
                work.append(t)
    return out
