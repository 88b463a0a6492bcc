"""Ownership: what destructors and the functions that fill containers do."""
import trans
import pp
from absint import Engine, State, ZERO, ONE, mentions

OBJ = trans.OBJ


class Pol(trans.TransPolicy):
    """Owned pointers are not null; everything is recorded."""
    nonnull = ()

    def __init__(self, prog, cls, **kw):
        trans.TransPolicy.__init__(self, prog, cls)
        self.__dict__.update(kw)

    def watch(self, ident):
        return True

    def call(self, eng, st, c):
        if c.q.startswith("ginga::Formatter::") and c.recv == ("ptr", OBJ):
            return None
        return trans.TransPolicy.call(self, eng, st, c)

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ZERO and x[0] == "fld" and x[2] in self.nonnull:
                return False
        return trans.TransPolicy.assume_eq(self, eng, st, a, b)


def run(p, q, cls, nonnull=(), tweak=None, args=(), policy=Pol, n=None, **kw):
    pol = policy(p, cls, nonnull=nonnull, **kw)
    eng = Engine(p, pol)
    fn = p.fn1(q, n)
    st = State()
    if tweak:
        tweak(p, st)
    return fn, eng, pol, eng.run(fn, list(args), st, ("ptr", OBJ))


def deletes(seg):
    return [e[1] for e, i in trans.flat(seg) if e[0] == "delete"]


def isel(v, ident, path=()):
    """v is the element of ident that an iteration stands at (or the field
    path of it)."""
    if not isinstance(v, tuple):
        return False
    for f in reversed(path):
        if v[0] != "fld" or v[2] != f:
            return False
        v = v[1]
    if v[0] == "at":
        v = v[1]
    return v[0] == "elem" and trans.norm(v[1]) == ident


def all_deleted(eng, st, ident, path=()):
    """Each element of ident (its field path) is deleted exactly once, by one
    complete pass.  None or what is wrong."""
    def ok(seg):
        d = [v for v in deletes(seg) if isel(v, ident, path)]
        return len(d) == 1
    good, why = trans.foreach(eng, st, st.trace, ident, ok)
    if not good:
        return why
    passes = [e for e in trans.eaches(st.trace, ident)
              if any(isel(v, ident, path) for s in e[3] for v in deletes(s))]
    if len(passes) > 1:
        return "the elements of %s are deleted in %d passes" % (
            pp.ident(ident), len(passes))
    return None


ADDERS = ("push_back", "push_front", "insert", "emplace", "emplace_back",
          "emplace_front", "insert_or_assign", "assign", "resize")
REMOVERS = ("erase", "clear", "pop_back", "pop_front", "remove", "remove_if",
            "swap", "splice", "merge", "sort", "reverse", "unique")


class Fill(Pol):
    """Records what is put into and taken out of the containers of objects
    (local containers do not count)."""
    classes = {}

    def dyncls(self, eng, st, loc):
        if loc in self.classes:
            return self.classes[loc]
        return Pol.dyncls(self, eng, st, loc)

    def element(self, eng, st, cur):
        f = self.__dict__.get("elem")
        if f:
            f(eng, st, cur)

    def call(self, eng, st, c):
        from absint import iscont
        if c.cls and iscont(c.cls) and c.recv is not None and \
                c.recv[0] in ("ptr", "loc") and \
                c.name in ADDERS + REMOVERS:
            i = trans.norm(eng.ident(st, ("loc", c.recv[1])))
            if i[0] != "v" and (c.name in REMOVERS or
                                c.name in ("assign", "resize")):
                st.emit("take", c.name, i,
                        *[eng.rv(st, a) for a in c.args])
        f = self.__dict__.get("hook")
        if f:
            r = f(eng, st, c)
            if r is not None:
                return r
        if c.q.startswith("ginga::Formatter::") and c.recv == ("ptr", OBJ):
            return None
        return Pol.call(self, eng, st, c)

    def put(self, eng, st, c, ident, args):
        i = trans.norm(ident)
        if i[0] == "v":
            return
        if c.name in ("insert", "emplace") and len(args) == 1:
            key = args[0]
            if "map<" in c.cls[:20]:
                key = eng.field(key, "first")
            if "list<" not in c.cls[:12] and \
                    st.facts.get(("has", ident, key)):
                return          # no effect
        st.emit("put", c.name, i, *args)

    def store(self, eng, st, loc, val, fn, nid):
        if loc[0] == "elem" or loc[0] == "f" and loc[1][0] in ("o", "elem",
                                                               "d"):
            st.emit("store", loc, val)


EFFECTS = ("put", "take", "store", "delete", "transition", "eval", "delay",
           "player")


def effects(trace):
    return [(e, i) for e, i in trans.flat(trace) if e[0] in EFFECTS]


def perform(p, q, this, args, classes, tweak=None, elem=None, hook=None,
            n=None, eq=None):
    pol = Fill(p, None)
    pol.classes = classes
    pol.elem = elem
    pol.hook = hook
    if eq:
        def assume(eng, st, a, b, old=pol.assume_eq):
            r = eq(eng, st, a, b)
            return old(eng, st, a, b) if r is None else r
        pol.assume_eq = assume
    eng = Engine(p, pol)
    fn = p.fn1(q, n)
    st = State()
    if tweak:
        tweak(p, st)
    return fn, eng, pol, eng.run(fn, list(args), st, ("ptr", this))
