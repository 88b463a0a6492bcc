"""Path-sensitive dataflow over the part of ParserState::popNcl that makes the
links, for a role of every type of event, condition or action, with each kind
of predicate; over the handlers of links, binds and their parameters; and over
the function that resolves parameters."""
import services
import nodes
import pp
import trans
from absint import ZERO, ONE, mentions, Engine, State
from nodes import ELT, PAR, ST, fnv, attr
from checks.P04 import truth, complete

E = ("ptr", ELT)
LINKS = ("op", "fn", "elements", ("link",))


def fieldof(pol, v):
    return pol.fieldname(v)


def owner(v):
    """What v is a field of: the location or value."""
    if v[0] == "fld":
        return v[1]
    if v[0] == "at" and v[1][0] == "f":
        return v[1][1]
    return None


def elemof(v):
    """(list, element) of a location or value inside an element of a list."""
    while isinstance(v, tuple):
        if v[0] == "elem":
            return trans.norm(v[1]), v
        if v[0] in ("at", "f", "fld", "ptr", "d"):
            v = v[1]
        else:
            return None
    return None


def listkey(i):
    k = nodes.keyof(trans.norm(i))
    return k


def eqs(st, e):
    return frozenset((k, v) for k, v in st.facts.items()
                     if k[0] in ("eq", "has") and mentions(k, e))


def end(pol, eng, st, cur):
    """What is known about an element when an iteration leaves it."""
    i = trans.norm(cur[1])
    k = nodes.keyof(i)
    if k is None and i[0] != "v" or k and k[1] not in ("roles", "tests",
                                                       "binds"):
        return None
    e = ("elem", cur[1], cur)
    return ("left", e, eqs(st, e))


def roleof(pol, v):
    """The value of the name of the role that v, an element, is about."""
    return ("at", ("f", v, "role"))


def note(pol, eng, st, n, a):
    """What is known when a bind is set aside, or an action is added."""
    if n != "put" or not a or a[0][0] != "v":
        return None
    acts = [x for x in a[1:] if x[0] == "struct" and
            any(p == ("transition",) for p, y in x[2])]
    if acts:
        r = []
        for v in terms(acts[0]):
            if v[:3] == ("op", "fn", "resolveInterface") and v not in r:
                r.append(v)
        if len(r) != 1:
            return ("act", None, None, None, None)
        ty = fnv("getType", r[0])
        known = []
        for t in ("PRESENTATION", "ATTRIBUTION"):
            known.append(truth(eng, st, ty, ("int", pol.ctx.p.enum(
                "ginga::Event::" + t))))
        known.append(truth(eng, st, fnv("getId", r[0]),
                           ("str", "@lambda")))
        kids = None
        for q, x in acts[0][2]:
            if q == ("transition",) and owner(x):
                pred = canon(sibling(x, "predicate"))
                for k, v in st.facts.items():
                    if k[0] == "empty" and canon(k[1]) == ("at", (
                            "d", fnv("getChildren", pred))):
                        kids = v
        return ("act", r[0], tuple(known), truth(eng, st, fnv(
            "getLookAtEvent", fnv("getObject", r[0]), fnv("getId", r[0])),
            ZERO), kids)
    R = B = None
    for x in flat(a[1:]):
        e = elemof(x)
        k = e and nodes.keyof(e[0])
        if k and k[1] == "roles":
            R = e[1]
        if k and k[1] == "binds":
            B = e[1]
    if B is None:
        return None
    bname = eng.load(st, ("f", B, "role"))
    same = pred = simple = None
    if R:
        same = truth(eng, st, eng.load(st, ("f", R, "role")), bname)
        pred = eng.load(st, ("f", R, "predicate"))
        nd = eng.load(st, ("f", R, "node"))
        simple = truth(eng, st, eng.load(st, (
            "f", eng.deref(st, nd), "name")), ("str", "simpleCondition"))
    has = None
    for k, v in st.facts.items():
        if k[0] == "has" and k[2] == bname:
            i = nodes.keyof(trans.norm(k[1]))
            if i and i[1] == "tests":
                has = (i[0], v)
    return ("bind", R, B, same, has, pred, simple)


def flat(xs):
    for x in xs:
        if x[0] == "struct":
            for p, y in x[2]:
                yield from flat([y])
        else:
            yield x


def terms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, tuple):
                yield from terms(x)


# -- one link

class Link:
    """What one path does for a link."""

    def __init__(self, pol, eng, seg):
        self.pol, self.eng, self.seg = pol, eng, seg
        self.local = {}

    def run(self):
        adds = [e for e, i in trans.flat(self.seg) if e[0] == "do" and
                e[1].split("::")[-1] == "addLink"]
        top = [e for e in self.seg if e in adds]
        if len(adds) != 1 or len(top) != 1:
            return "a link is made %d times" % len(adds)
        add = top[0]
        k = nodes.keyof(trans.norm(add[2]))
        if k is None or k[1] != "context" or nodes.keyof(k[0]) or \
                elemof(k[0]) is None or elemof(k[0])[0] != LINKS:
            return "a link is added to %s" % pp.val(add[2])
        self.L = k[0]
        self.conn = fnv("byid", attr(self.L, "xconnector"),
                        ("causalConnector",))
        self.ctx = add[2]
        self.params = fnv("data", self.L, ("str", "params"))
        after = self.seg[self.seg.index(add) + 1:]
        if any(e[0] in ("do", "put", "store") for e, i in trans.flat(after)):
            return "a link is changed after it was made"
        for f in (self.classify, self.roles, self.tests, self.maps,
                  self.actions):
            w = f()
            if w:
                return w
        return self.added(add)

    def passes(self, key, of):
        return [e for e in self.seg if e[0] == "each" and
                nodes.keyof(trans.norm(e[1])) == (of, key)]

    def over(self, kind):
        return [e for e in self.seg if e[0] == "each" and
                self.local.get(trans.norm(e[1])) == kind]

    # every bind is one of a role, of a test, or a ghost
    def classify(self):
        ps = [e for e in self.passes("binds", self.L)
              if not e[3] or any(x[0] == "put" for s in e[3] for x in s)]
        others = [e for e, i in trans.flat(self.seg) if e[0] == "each" and
                  (nodes.keyof(trans.norm(e[1])) or (0, 0))[1] in (
                      "binds", "roles", "tests") and
                  nodes.keyof(trans.norm(e[1]))[0] not in (
                      self.L, self.conn)]
        if others:
            return "a link is made from %s" % pp.ident(others[0][1])
        if len(ps) != 1 or not complete(ps[0]):
            return "the binds of a link are gone through %d times" % len(ps)
        for s in ps[0][3]:
            w = self.bind(s)
            if w:
                return w
        return None

    def bind(self, s):
        puts = [e for e in s if e[0] == "put"]
        know = [e for e in s if e[0] == "know" and e[1] == "bind"]
        if len(puts) != 1 or len(know) != 1:
            return "a bind is used %d times" % len(puts)
        if puts[0][1] not in ("push_back", "emplace_back"):
            return "the order of the binds is lost"
        _, _, R, B, same, has, pred, simple = know[0]
        to = trans.norm(puts[0][2])
        if R is not None:
            kind = "bound"
            if nodes.keyof(trans.norm(R[1])) != (self.conn, "roles"):
                return "a bind is matched with %s" % pp.ident(R[1])
            if same is not True:
                return "a bind is matched with a role of another name"
            got = ("ptr", B), ("ptr", R)
            if not all(x in list(flat(puts[0][3:])) for x in got):
                return "what a bind is matched with is lost"
            if simple is None and self.pol.role["condition"] or simple:
                node = self.pol_node(R)
                want = fnv("obtainPredicate", ("ptr", ST), node)
                alt = fnv("obtainPredicate", node)
                if canon(pred) not in (canon(want), canon(alt)):
                    return "a condition gets the predicate %s" % pp.val(pred)
            elif mentions(pred, "obtainPredicate"):
                return "an action gets a predicate"
        else:
            if not self.unmatched(s, B):
                return "a bind of a role may be taken for another"
            if has is None or has[0] != self.conn:
                return "the tests of the connector are not considered"
            kind = "test" if has[1] else "ghost"
        if self.local.setdefault(to, kind) != kind:
            return "a %s bind is set aside as a %s one" % (
                kind, self.local[to])
        return None

    def pol_node(self, R):
        return ("at", ("f", R, "node"))

    def unmatched(self, s, B):
        """Were all the roles compared with the bind, and none its own?"""
        for e in s:
            if e[0] == "each" and nodes.keyof(trans.norm(e[1])) == (
                    self.conn, "roles") and complete(e):
                if all(self.differs(x, B) for x in e[3]):
                    return True
        return False

    def differs(self, seg, B):
        b = canon(("at", ("f", B, "role")))
        for e in seg:
            if e[0] == "know" and e[1] == "left":
                r = canon(("at", ("f", e[2], "role")))
                for k, v in e[3]:
                    if k[0] == "eq" and set(canon(k[1:])) == {b, r}:
                        return v is False
        return False

    # every role and test is bound
    def roles(self):
        ps = [e for e in self.passes("roles", self.conn)]
        if any(complete(e) and all(
                self.met(s, "roles", "bound") for s in e[3]) for e in ps):
            return None
        return "a link may leave a role of its connector unbound"

    def tests(self):
        ps = [e for e in self.passes("tests", self.conn)]
        if any(complete(e) and all(self.met(s, "tests", "test")
                                   for s in e[3]) for e in ps):
            return None
        return "a link may leave a test of its connector unbound"

    def met(self, s, key, kind):
        """Does the segment, about one role or test, find a bind for it?"""
        fs = set()
        mine = None
        for e, i in trans.flat(s):
            if e[0] == "know" and e[1] == "left":
                fs |= {k for k, v in e[3] if v is True}
                k = nodes.keyof(trans.norm(e[2][1]))
                if k == (self.conn, key):
                    mine = e[2]
        return mine is not None and any(self.meets(k, mine, key, kind)
                                        for k in fs)

    def meets(self, k, mine, key, kind):
        if k[0] == "has":
            return self.local.get(trans.norm(k[1])) == kind and (
                k[2] == ("ptr", mine) or k[2] == ("at", mine))
        for a, b in (k[1:], k[:0:-1]):
            if key == "roles" and a == ("ptr", mine) and \
                    self.pol.fieldname(b) == "first":
                e = elemof(owner(b))
                if e and self.local.get(e[0]) == kind:
                    return True
            if key == "tests" and a == ("at", mine) and \
                    self.pol.fieldname(b) == "role":
                e = elemof(b)
                if e and self.local.get(e[0]) == kind:
                    return True
        return False

    # what tests and ghosts refer to
    def maps(self):
        self.map = {}
        at = []
        for kind in ("test", "ghost"):
            for loc, kd in self.local.items():
                if kd != kind:
                    continue
                ps = [(n, e) for n, e in enumerate(self.seg)
                      if e[0] == "each" and trans.norm(e[1]) == loc and
                      any(x[0] == "store" for s in e[3] for x in s)]
                if len(ps) != 1 or not complete(ps[0][1]):
                    return "the %s binds are not all resolved" % kind
                for s in ps[0][1][3]:
                    w = self.mapped(s, kind)
                    if w:
                        return w
                at.append(ps[0][0])
        self.mapsat = max(at) if at else -1
        return None

    def evt(self, bind, e):
        return fnv("resolveInterface", self.ctx, fnv("eltof", bind))

    def mapped(self, s, kind):
        does = [e for e in s if e[0] == "store"]
        if len(does) != 1 or any(e[0] in ("do", "put") for e in s):
            return "a %s bind is resolved %d times" % (kind, len(does))
        d = does[0]
        loc, val = d[1], canon(d[2])
        if not (loc[0] == "elem" and trans.norm(loc[1])[0] == "v" and
                loc[2][0] == "find"):
            return "a %s bind becomes %s" % (kind, pp.event(d))
        key = trans.norm(loc[2][2])
        e = elemof(owner(owner(key) or ("x",)) or ("x",)) or \
            self.bindof(key)
        if self.pol.fieldname(key) != "role" or self.bindof(key) is None or \
                self.local.get(self.bindof(key)[0]) != kind:
            return "a %s bind is known as %s" % (kind, pp.val(key))
        want = ("op", "cat", ("str", "$"), fnv("getFullId", self.evt(
            self.nodeof(key), None)))
        if val != canon(want):
            return "a %s bind refers to %s" % (kind, pp.val(val))
        m = trans.norm(loc[1])
        if self.map.setdefault(kind, m) != m or \
                len(set(self.map.values())) != len(self.map):
            return "references of %s binds get into two tables" % kind
        return None

    def bindof(self, key):
        return elemof(deep(key))

    def nodeof(self, key):
        """The node field of the bind whose role field key is."""
        return canon(sibling(key, "node"))

    # the conditions and actions
    def actions(self):
        bound = [l for l, k in self.local.items() if k == "bound"]
        self.lists = {}
        if not bound:
            return None
        ps = [(n, e) for n, e in enumerate(self.seg) if e[0] == "each" and
              trans.norm(e[1]) in bound and
              any(x[0] == "put" for s in e[3] for x in s)]
        if len(bound) != 1 or len(ps) != 1:
            return "the bound roles are gone through %d times" % len(ps)
        n, e = ps[0]
        if not complete(e):
            return "not all bound roles are used, in order"
        if n < self.mapsat:
            return "roles are used before all references are resolved"
        for s in e[3]:
            w = self.action(s)
            if w:
                return w
        return None

    def action(self, s):
        r = self.pol.role
        p = self.pol.ctx.p
        puts = [e for e in s if e[0] == "put"]
        know = [e for e in s if e[0] == "know" and e[1] == "act"]
        if len(puts) != 1 or len(know) != 1:
            return "a bound role is used %d times" % len(puts)
        if puts[0][1] not in ("push_back", "emplace_back"):
            return "the order of the binds is lost"
        kind = "conditions" if r["condition"] else "actions"
        to = trans.norm(puts[0][2])
        if self.lists.setdefault(kind, to) != to:
            return "%s get into two lists" % kind
        vals = {q[0]: x for v in puts[0][3:] if v[0] == "struct"
                for q, x in v[2] if len(q) == 1}
        tr = vals.get("transition")
        if tr is None or self.pol.fieldname(tr) != "transition" or \
                (elemof(deep(tr)) or (0,))[0] not in self.local:
            return "the transition is %s" % pp.val(tr or ("int", 0))
        x = owner(tr)               # where the role is
        while x[0] in ("at", "d"):
            x = x[1]
        if self.pol.fieldname(x) != "first":
            return "the transition is %s" % pp.val(tr)
        second = sibling(x, "second")
        bind = ("d", second)
        of = lambda f: canon(sibling(tr, f))
        bind = inside(second, "node")
        evt = self.evt(canon(bind), None)
        _, _, ref, types, nolook, kids = know[0]
        if ref is None or canon(ref) != canon(evt):
            return "a role is bound to %s" % pp.val(ref or ("int", 0))
        evt = ref

        def param(f):
            return canon(fnv("resolveParameter", of(f), (
                "ptr", inside(second, "params", True)), self.params,
                ("ptr", self.map.get("ghost", ("none",)))))

        def isparam(v, f):
            if v is None:
                return False
            v = canon(v)
            w = param(f)
            if "ghost" in self.map:
                return v == w
            # without ghosts, the table is any empty one
            return v[:5] == w[:5] and v[5] == w[5] and \
                v[6][0] == "ptr" and v[6][1][0] == "v"
        obj = fnv("getObject", evt)
        want = r["eventType"]
        kinds = {p.enum("ginga::Event::" + n): n for n in (
            "PRESENTATION", "ATTRIBUTION", "SELECTION", "LOOKAT")}
        does = [e for e in s if e[0] == "do"]
        calls = [(e[1].split("::")[-1],) + tuple(e[2:]) for e in does]
        k = kinds[want]
        ev = vals.get("event")
        pres, attrib, lam = types
        if k in ("PRESENTATION", "ATTRIBUTION"):
            if (pres if k == "PRESENTATION" else attrib) is not True:
                return "an event of another type is taken for a %s" % \
                    k.lower()
            if ev != evt or calls:
                return "a %s role names %s" % (k.lower(), pp.val(ev))
            if k == "ATTRIBUTION" and not isparam(vals.get("value"),
                                                  "value"):
                return "the value of an attribution is %s" % pp.val(
                    vals.get("value") or ("str", ""))
        elif k == "SELECTION":
            if attrib is not False or pres is not False and lam is not True:
                return "a selection of an interface"
            key = vals.get("value")
            if not isparam(key, "key"):
                return "the key of a selection is %s" % pp.val(
                    key or ("str", ""))
            sel = fnv("getSelectionEvent", obj, key)
            if ev != sel:
                return "a selection role names %s" % pp.val(ev)
            if ("addSelectionEvent", obj, key) not in calls or \
                    ("setParameter", sel, ("str", "key"), key) not in \
                    calls or len(calls) != 2 or \
                    calls[0][0] != "addSelectionEvent":
                return "a selection is prepared by %s" % "; ".join(
                    pp.event(e) for e in does)
        else:
            look = fnv("getLookAtEvent", obj, fnv("getId", evt))
            if ev != look:
                return "a lookAt role names %s" % pp.val(ev)
            add = ("addLookAtEvent", obj, fnv("getId", evt))
            if calls != [add] and (calls or nolook is not False):
                return "a lookAt event is prepared by %s" % "; ".join(
                    pp.event(e) for e in does)
        for f in ("delay", "duration"):
            if not isparam(vals.get(f), f):
                return "the %s is %s" % (f, pp.val(vals.get(f) or
                                                   ("str", "")))
        return self.predicate(s, vals.get("predicate"), tr, puts[0], kids)

    def predicate(self, s, v, tr, put, kids):
        t = self.pol.role["ptype"]
        p = self.pol.ctx.p
        if v is None:
            return "the predicate is not set"
        if t is None:
            return None if v == ZERO else "the predicate is %s" % pp.val(v)
        rp = canon(sibling(tr, "predicate"))
        flat_ = {p.enum("ginga::Predicate::" + n) for n in (
            "FALSUM", "VERUM", "ATOM")}
        if v == ZERO:
            if t in flat_:
                return "the predicate of a condition is lost"
            return None if kids is True else \
                "the predicate of a condition is lost"
        n = canon(v)
        if n[:3] != ("op", "fn", "solvePredicate") or rp not in n[3:5]:
            return "the predicate is %s" % pp.val(v)
        tab = n[-1]
        if tab[0] != "ptr" or tab[1][0] != "v":
            return "a predicate is solved with %s" % pp.val(tab)
        tab = tab[1]
        if "test" in self.map and tab != self.map["test"]:
            return "a predicate is solved with another table"
        if "test" not in [k for k in self.local.values()]:
            return None
        if self.map.setdefault("test", tab) != tab:
            return "a predicate is solved with another table"
        return self.testparams(s, put, tab)

    def testparams(self, s, put, tab):
        """The parameters of the test binds get into the table."""
        where = list(self.seg) + list(s)[:list(s).index(put)]
        for e in where:
            if e[0] == "each" and self.local.get(trans.norm(e[1])) == \
                    "test" and complete(e) and e[3] and all(
                        self.paramsin(x, tab) for x in e[3]):
                return None
            if e[0] == "each" and self.local.get(trans.norm(e[1])) == \
                    "test" and not e[3]:
                return None
        return "parameters of tests are not resolved"

    def paramsin(self, s, tab):
        for e in s:
            if e[0] != "each" or self.pol.fieldname(e[1]) != "params" and \
                    self.pol.fieldname(trans.norm(e[1])) != "params":
                continue
            b = elemof(deep(e[1]))
            if not b or self.local.get(b[0]) != "test" or not complete(e):
                continue
            if all(self.paramin(x, tab) for x in e[3]):
                return True
        return False

    def paramin(self, s, tab):
        for e in s:
            if e[0] == "put" and trans.norm(e[2]) == tab and len(e) == 4:
                a = e[3]
                f, x = nodes.field(a, "first"), nodes.field(a, "second")
                if self.pol.fieldname(f) == "first" and \
                        self.pol.fieldname(x) == "second" and \
                        owner(f) == owner(x):
                    return True
        return False

    def added(self, add):
        got = []
        for v in add[3:5]:
            got.append(trans.norm(v[2]) if v[0] == "cont" else None)
        mine = self.lists.get("conditions" if self.pol.role["condition"]
                              else "actions")
        n = 0 if self.pol.role["condition"] else 1
        if mine is not None and (got[n] != mine or got[1 - n] == mine):
            return "the %s of a link are %s" % (
                "conditions" if not n else "actions", pp.val(add[3 + n]))
        other = add[3 + 1 - n]
        if other[0] != "cont" or other[1] != "empty":
            return "a link gets %s" % pp.val(other)
        if mine is None and (add[3 + n][0] != "cont" or
                             add[3 + n][1] != "empty"):
            return "a link gets %s" % pp.val(add[3 + n])
        return None


def deep(v):
    """v without the dereferences and fields on the way to an element."""
    while isinstance(v, tuple) and v[0] in ("at", "f", "fld", "d", "ptr"):
        v = v[1]
    return v


def sibling(v, name):
    if v[0] == "fld":
        return ("fld", v[1], name)
    return ("at", ("f", v[1][1], name))


def canon(v):
    """Fields of locations and of values, one way."""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ("at",) and v[1][0] == "f":
        return ("fld", canon(("at", v[1][1])), v[1][2])
    return tuple(canon(x) for x in v)


def inside(v, name, loc=False):
    """The field of the record that v, a value, points to."""
    if v[0] == "ptr":
        l = ("f", v[1], name)
    else:
        l = ("f", ("d", v), name)
    return l if loc else ("at", l)


def links(pol, eng, st):
    ps = [e for e in st.trace if e[0] == "each" and
          trans.norm(e[1]) == LINKS]
    if st.facts.get(("empty", LINKS)):
        return None
    if any(st.facts.get(("empty", i)) for i in [e[1] for e in ps]):
        return None
    if len(ps) != 1 or not complete(ps[0]):
        return "not all links are made"
    for s in ps[0][3]:
        w = Link(pol, eng, s).run()
        if w:
            return w
    return None


def refused(pol, eng, st):
    """Is there something about the link that cannot be?"""
    tr = st.trace
    p = pol.ctx.p
    its = [n for n, e in enumerate(tr) if e[0] == "it"]
    if not its or trans.norm(tr[its[0]][1]) != LINKS:
        return None             # not a link
    for k, v in st.facts.items():
        if k[0] == "found" and v is False and \
                k[1][:3] == ("op", "fn", "byid") and \
                k[1][4] == ("causalConnector",):
            return None
    errs = [n for n, e in enumerate(tr) if e[0] == "err"]
    if errs and tr[errs[-1]][1] == "resolveInterface":
        return None
    # a role or test that is not bound
    for n in its[1:]:
        k = nodes.keyof(trans.norm(tr[n][1]))
        if not k or k[1] not in ("roles", "tests"):
            continue
        mine = ("elem", tr[n][1], ("cur",) + tr[n][1:3])
        if k[1] == "roles" and any(
                e[0] == "put" for e in tr[its[0]:n]):
            continue            # comparing a bind
        for e in tr[n + 1:]:
            if e[0] == "each" and trans.norm(e[1])[0] == "v":
                if not e[3] or complete(e) and all(
                        passed(s, mine) for s in e[3]):
                    return None
        if any(kk[0] == "has" and v is False and mentions(kk[2], mine)
               for kk, v in st.facts.items()):
            return None
    # an event of the wrong type
    r = pol.role
    for v in {x for k in st.facts for x in terms(k)
              if x[:3] == ("op", "fn", "resolveInterface")}:
        ty = fnv("getType", v)
        t = {n: truth(eng, st, ty, ("int", p.enum("ginga::Event::" + n)))
             for n in ("PRESENTATION", "ATTRIBUTION", "SELECTION",
                       "LOOKAT")}
        want = {p.enum("ginga::Event::" + n): n for n in t}[r["eventType"]]
        if want in ("PRESENTATION", "ATTRIBUTION"):
            if t[want] is False:
                return None
        elif want == "SELECTION":
            lam = truth(eng, st, fnv("getId", v), ("str", "@lambda"))
            if t["ATTRIBUTION"] or t["PRESENTATION"] and lam is False:
                return None
    return "a link is refused that is all right"


def passed(s, mine):
    for e in s:
        if e[0] == "know" and e[1] == "left":
            for k, v in e[3]:
                if k[0] == "eq" and mentions(k, mine):
                    return v is False
    return False


def view(fn, eng, pol, res, job):
    bad = []

    def put(what, text, st):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), what, text,
                    pp.trace(st.trace)[:600] + " | " +
                    "; ".join(pp.facts(st.facts))[:300]))
    if job[0] in RECORDS:
        for v, st in res:
            w = record(pol, eng, st, job[0]) if v != ZERO else \
                "it is refused"
            if w:
                put(job[0], w, st)
        return bad[:6]
    for v, st in res:
        w = refused(pol, eng, st) if v == ZERO else links(pol, eng, st)
        if w:
            put("refused" if v == ZERO else "link", w, st)
    if not any(v != ZERO for v, st in res):
        bad.append((fn.q, "%s:%d" % (fn.file, fn.line), "never",
                    "it never succeeds", ""))
    return bad[:6]


# -- what binds and parameters are made of

def record(pol, eng, st, tag):
    """What is wrong with what a path of the handler of tag keeps."""
    tr = st.trace
    sets = {e[2]: e for e in tr if e[0] == "setdata" and e[1] == E}
    if tag == "link":
        c = sets.get("context")
        if c is None or c[3] != ("ptr", ("o", "top")):
            return "the context of the link is %s" % (
                pp.val(c[3]) if c else "not kept")
        made = [sets[x][3] if x in sets else None for x in (
            "binds", "params")]
        for x, v in zip(("binds", "params"), made):
            if v is None or v[0] != "ptr" or v[1][0] != "o" or \
                    made.count(v) > 1:
                return "the %s of the link are %s" % (
                    x, pp.val(v) if v else "not kept")
            if any(e[0] in ("put", "store") and mentions(e, v[1])
                   for e in tr):
                return "a link has %s from the start" % x
        return None
    puts = [e for e in tr if e[0] in ("put", "store") and nodes.keyof(
        trans.norm(e[2] if e[0] == "put" else e[1][1] if
                   e[1][0] == "elem" else e[1]))]
    if len(puts) != 1:
        return "it is kept %d times" % len(puts)
    e = puts[0]
    of = ("ptr", PAR)
    if tag == "bind":
        if e[0] != "put" or e[1] not in ("push_back", "emplace_back") or \
                nodes.keyof(trans.norm(e[2])) != (of, "binds"):
            return "the order of the binds is lost"
        v = {q[0]: x for a in e[3:] if a[0] == "struct" for q, x in a[2]}
        for f, w in (("role", attr(E, "role")), ("node", pol.node(E))):
            if v.get(f) != w:
                return "the %s of a bind is %s" % (f, pp.val(
                    v.get(f) or ("str", "")))
        s = sets.get("params")
        x = s and s[3][0] == "ptr" and s[3][1][0] == "f" and \
            s[3][1][2] == "params" and s[3][1][1]
        if not x or x[0] != "elem" or nodes.keyof(
                trans.norm(x[1])) != (of, "binds") or x[2] != (
                "back",) and x[2][0] != "rcur":
            return "the parameters of a bind get to %s" % (
                pp.val(s[3]) if s else "nothing")
        return None
    if e[0] == "store":
        l, v = e[1], e[2]
        k = l[2][-1]
        where = l[1]
    else:
        where = e[2]
        a = e[3]
        k, v = nodes.field(a, "first"), nodes.field(a, "second")
    if nodes.keyof(trans.norm(where)) != (of, "params"):
        return "a parameter gets into %s" % pp.ident(where)
    if k != attr(E, "name") or v != attr(E, "value"):
        return "the parameter %s becomes %s" % (pp.val(k), pp.val(v))
    return None


RECORDS = ("link", "bind", "bindParam", "linkParam")


# -- parameters

REF = ("sym", "ref")
TABLES = [("o", x) for x in ("of the bind", "of the link", "of ghosts")]


def dollar(eng, st, v):
    """Does v start with '$'?"""
    if v[0] == "str":
        return v[1].startswith("$")
    for a, b in ((("op", "idx", v, ZERO), ("int", ord("$"))),
                 (("op", "find", v, ("int", ord("$"))), ZERO),
                 (("op", "find", v, ("str", "$")), ZERO),
                 (("op", "rfind", v, ("str", "$"), ZERO), ZERO),
                 (("op", "len", v), ZERO)):
        r = truth(eng, st, a, b)
        if r is not None and (a[1] != "len" or r):
            return r and a[1] != "len"
    return None


def inmap(st, t, key):
    for k, v in st.facts.items():
        if k[0] == "has" and trans.norm(k[1]) in (("at", t), t) and \
                k[2] == key:
            return v
    return None


def looked(eng, st):
    """What the parameter is, going by what the path found out."""
    d = dollar(eng, st, REF)
    if d is None:
        return None, "whether it is a reference"
    if not d:
        return REF, None
    name = ("op", "substr", REF, ONE)
    for t in TABLES[:2]:
        h = inmap(st, t, name)
        if h is None:
            return None, "the parameters %s" % t[1]
        if h:
            break
    else:
        return ("str", ""), None
    v = found(t, name)
    g = None
    for w in v:
        g = dollar(eng, st, w) if g is None else g
    if g is None:
        return None, "whether the parameter is a reference"
    if not g:
        return v, None
    for w in v:
        h = inmap(st, TABLES[2], ("op", "substr", w, ONE))
        if h is not None:
            return (found(TABLES[2], ("op", "substr", w, ONE))
                    if h else v), None
    return None, "the references of ghosts"


def found(t, key):
    out = []
    for i in (("at", t), t):
        l = ("elem", i, ("find", i, key))
        out += [("fld", ("at", l), "second"), ("at", ("f", l, "second")),
                ("at", l)]
    return tuple(out)


def parameters(ctx, g, c):
    fn, eng, pol, res = nodes.runserv(ctx.p, g, c, "resolveParameter", [
        REF] + [("ptr", t) for t in TABLES])
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("dataflow_states", eng.steps)
    for v, st in res:
        ctx.count("paths")
        w, why = looked(eng, st)
        if w is None:
            # not looked at, and it need not be if there is nothing to it
            t = "it does not look at %s" % why
        elif v == w or isinstance(w[0], tuple) and v in w:
            continue
        else:
            t = "a parameter becomes %s" % pp.val(v)
        ctx.violation("%s parameter" % fn.q, "%s:%d: %s" % (
            fn.file, fn.line, t), "; ".join(pp.facts(st.facts))[:900])


def kind(j):
    tag, par, which, top, kw = j
    return tag == "ncl" and which == "pop" and kw.get("only") == ["link"] \
        or tag in RECORDS and which == "push"


def check(ctx):
    services.verify(ctx, "cache elements data")
    g, c, out = nodes.sweep(ctx, view, kind, locals=True, note=note, end=end)
    for j, bad in out:
        for q, where, what, text, tr in bad:
            ctx.violation("%s %s %s" % (q, j[0], what), "%s: %s: %s" % (
                where, nodes.describe(j), text), tr)
    parameters(ctx, g, c)
    ctx.rule("each link gets, for each bind of a role, in order, one "
             "condition or action with the event that the bind names")
