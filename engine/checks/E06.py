"""Path-sensitive dataflow over the start of a switch (and of each of its
ports), with the comparison that decides whether the component of a rule may
be selected forced both ways: rules are tried in order, the first eligible one
whose rule holds is started and becomes the selection, and without one the
start is refused with no effect.  Over all other transitions the selection is
unchanged, except that stop and abort clear it."""
import trans
from absint import ONE, ZERO, haswas, mentions

RULES = trans.RULES
SELECTED = trans.fld(trans.OBJ, "_selected")
PORTS = trans.fld(trans.OBJ, "_switchPorts")
EVID = trans.fld(trans.EVT, "_id")


def anelement(v):
    """Is v an event out of a container of events?"""
    return haswas(v) or v[0] == "at" and v[1][0] == "elem"


class Pol(trans.TransPolicy):
    mapped = None

    def __init__(self, prog, cls):
        trans.TransPolicy.__init__(self, prog, cls)

    def watch(self, ident):
        return trans.norm(ident) == RULES

    def assume_eq(self, eng, st, a, b):
        if ZERO in (a, b) and (anelement(a) or anelement(b)):
            return False        # elements of containers of events
        for x, y in ((a, b), (b, a)):
            if trans.elemof(x, RULES) and y[0] == "fld" and \
                    y[2] == "_object":
                st.emit("cmp", self.mapped)
                return self.mapped
        return trans.TransPolicy.assume_eq(self, eng, st, a, b)

    def call(self, eng, st, c):
        if c.name in ("insert", "push_back", "push_front", "emplace_back",
                      "emplace") and c.recv is not None and \
                "ginga::Event *" in (c.recvt or "") and c.args:
            l = c.recv[1] if c.recv[0] in ("ptr", "loc") else None
            if l is not None and l[0] == "v":
                st.emit("put", eng.rv(st, c.args[-1]))
        return trans.TransPolicy.call(self, eng, st, c)


class Mapped(Pol):
    mapped = True


class Unmapped(Pol):
    mapped = False


class Mixed(Pol):
    """Some of the events are those of the component of the rule."""

    def assume_eq(self, eng, st, a, b):
        if ZERO in (a, b) and (anelement(a) or anelement(b)):
            return False
        for x, y in ((a, b), (b, a)):
            if x[:3] == ("op", "fn", "candidate") and y == ZERO:
                return False
            if y[0] == "fld" and y[2] == "_object" and x[0] == "fld":
                e = y[1]
                if e[0] == "at" and e[1][0] == "d":
                    e = e[1][1]
                if e[:3] == ("op", "fn", "candidate") and e[3] == x:
                    return True
        return trans.TransPolicy.assume_eq(self, eng, st, a, b)

    def leaving(self, eng, st, a):
        trans.TransPolicy.leaving(self, eng, st, a)
        for l, v in list(st.mem.items()):
            if not mentions(v, a):
                continue
            o = ofrule(st, v)
            if o is not None:
                st.mem[l] = ("op", "fn", "candidate", o)


def ofrule(st, v):
    """The component of a rule that the event v is known to belong to."""
    if v[:3] == ("op", "fn", "candidate"):
        return v[3]
    for k, b in st.facts.items():
        if k[0] == "eq" and b:
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if trans.isfld(y, v, "_object") and \
                        trans.elemof(x, RULES):
                    return x
    return None


def mixedcase(prog, c):
    """The event started is of the component of the rule that holds."""
    out = []
    for v, st in c.results:
        flat = [e for e, i in trans.flat(st.trace)]
        kids = [e for e in flat if e[0] == "transition"]
        if v != ONE or len(kids) != 1:
            continue            # told by the other cases
        o = ofrule(st, kids[0][1])
        s = st.mem.get(("f", trans.OBJ, "_selected"))
        if o is None and c.lam and trans.isfld(kids[0][1], s, "_lambda"):
            o = s
        if o is None or s != o:
            out.append(trans.report(
                prog, c, "the event started may be of another component",
                st, "other"))
    return out, len(c.results), trans.label(c)


def split(st):
    """Events outside complete loops over rules, and those loops."""
    loops = []
    rest = []
    for e in st.trace:
        if e[0] == "each" and trans.norm(e[1]) == RULES:
            loops.append(e)
        elif e[0] == "it":
            if trans.norm(e[1]) == RULES and e[3] != "cur":
                rest.append(("backwards",))
        else:
            rest.append(e)
    return loops, rest


def mappedcase(prog, c):
    out = []
    t = trans.tconst(prog, "START")
    sel = ("f", trans.OBJ, "_selected")

    def bad(what, st, key):
        out.append(trans.report(prog, c, what, st, key))
    for v, st in c.results:
        loops, rest = split(st)
        flat = [e for e, i in trans.flat(rest)]
        kids = [e for e in flat if e[0] == "transition"]
        preds = [e for e in flat if e[0] == "pred"]
        puts = [e for e, i in trans.flat(st.trace) if e[0] == "put"]
        for e in puts:
            if c.lam and not trans.elemof(e[1], trans.CHILDREN):
                bad("a component that is not a child may be selected", st,
                    "foreign")
            if not c.lam and not fromport(e[1]):
                bad("a component that the port does not map may be "
                    "selected", st, "port")
        if ("backwards",) in flat:
            bad("rules are tried from last to first", st, "order")
        for l in loops:
            if l[2] != "cur":
                bad("rules are tried from last to first", st, "order")
            for seg in l[3]:
                f = [e for e, i in trans.flat(seg)]
                if any(e[0] == "transition" for e in f):
                    bad("goes on after starting a component", st, "multi")
                if any(e[0] == "pred" and e[2] for e in f):
                    bad("a rule that holds is passed over", st, "first")
                if any(e[0] == "cmp" for e in f) and \
                        not any(e[0] == "pred" for e in f):
                    bad("a rule is not evaluated", st, "skipped")
                if not f and c.lam and \
                        not trans.isempty(c.eng, st, trans.CHILDREN):
                    bad("a rule is not considered", st, "skipped")
        if v == ONE:
            if len(kids) != 1 or kids[0][2] != t:
                bad("the selected component is not started exactly once",
                    st, "start")
                continue
            if len(preds) != 1 or not preds[0][2] or \
                    not trans.elemof(preds[0][1], RULES):
                bad("a component is started although its rule does not hold",
                    st, "rule")
            s = st.mem.get(sel)
            if s is None or not trans.elemof(s, RULES):
                bad("the started component does not become the selection",
                    st, "selection")
        else:
            if kids:
                if len(kids) != 1 or len(preds) != 1 or not preds[0][2]:
                    bad("several components are tried", st, "several")
            elif preds:
                bad("a component whose rule holds is not started", st,
                    "notstarted")
            elif any(not l[4] for l in loops) or (
                    not loops and not trans.isempty(c.eng, st, RULES)
                    and not alreadyselected(st)
                    and not unmappedport(c, st)):
                bad("refused before all rules were tried", st, "early")
            if [e for e in flat if e[0] in ("store", "eval", "delay")] or \
                    st.mem.get(sel) not in (None, ZERO, SELECTED):
                bad("a refused start leaves effects", st, "effects")
    return out, len(c.results), trans.label(c)


def fromport(v):
    """Does v come from the list that the event's port maps to?"""
    return mentions_find(v)


def mentions_find(v):
    if isinstance(v, tuple):
        if v and v[0] in ("find", "idx") or \
                (len(v) == 3 and v[0] == "elem" and trans.norm(v[1]) ==
                 PORTS):
            return True
        return any(mentions_find(x) for x in v if isinstance(x, tuple))
    return False


def alreadyselected(st):
    ne = st.facts.get(("ne", SELECTED), ())
    return ZERO in ne


def unmappedport(c, st):
    return not c.lam and any(k[0] == "has" and v is False
                             for k, v in st.facts.items())


def unmappedcase(prog, c):
    out = []
    for v, st in c.results:
        kids = [e for e, i in trans.flat(st.trace) if e[0] == "transition"]
        if v == ONE or kids:
            out.append(trans.report(
                prog, c, "a component is started that the port does not "
                "map", st, "unmapped"))
    return out, len(c.results), trans.label(c)


def keep(prog, c):
    out = []
    clear = c.trans in ("STOP", "ABORT")
    for st in trans.yes(c):
        s = trans.final(st, trans.OBJ, "_selected") or SELECTED
        if clear and not trans.isnullptr(st, s):
            out.append(trans.report(prog, c, "the selection survives", st,
                                    "kept"))
        if not clear and s != SELECTED and \
                not trans.isnullptr(st, SELECTED):
            out.append(trans.report(prog, c, "the selection is lost", st,
                                    "lost"))
    return out, len(trans.yes(c)), trans.label(c)


def restart(prog, c):
    """Start of a paused switch that has a selection."""
    out = []
    for v, st in c.results:
        if not alreadyselected(st):
            continue
        kids = [e for e, i in trans.flat(st.trace) if e[0] == "transition"]
        if v == ONE and (len(kids) != 1 or not
                         trans.isfld(kids[0][1], SELECTED, "_lambda")):
            out.append(trans.report(prog, c, "does not start the selected "
                                    "component", st, "restart"))
        s = trans.final(st, trans.OBJ, "_selected") or SELECTED
        if s != SELECTED:
            out.append(trans.report(prog, c, "changes the selection", st,
                                    "reselect"))
    return out, len(c.results), trans.label(c)


def check(ctx):
    ctx.rule("start of a switch: rules in order; first eligible rule that "
             "holds => its component is started once and becomes the "
             "selection; otherwise refused without effects")
    ctx.rule("eligible: any child when the switch itself is started, the "
             "components mapped by the port when a port is started")
    ctx.rule("pause/resume keep the selection, stop/abort clear it; starting "
             "a paused switch starts its selection")
    sw = ("ginga::Switch",)
    trans.cases(ctx, mappedcase, classes=sw, lams=(True, False),
                states=("SLEEPING",), transs=("START",), policy=Mapped)
    trans.cases(ctx, unmappedcase, classes=sw, lams=(True, False),
                states=("SLEEPING",), transs=("START",), policy=Unmapped)
    trans.cases(ctx, mixedcase, classes=sw, lams=(True, False),
                states=("SLEEPING",), transs=("START",), policy=Mixed)
    trans.cases(ctx, keep, classes=sw, lams=(True, False),
                transs=("PAUSE", "RESUME", "STOP", "ABORT"))
    trans.cases(ctx, restart, classes=sw, lams=(True, False),
                states=("PAUSED",), transs=("START",))
