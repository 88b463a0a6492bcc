"""Path-sensitive dataflow analysis (disjunctive abstract interpretation) over
clang's control-flow graphs.

Abstract states map locations to abstract values (constants of finite domains,
opaque symbols named after the construct that produced them), together with
the branch facts that hold and a finite trace of the events that the property
at hand observes.  Branches on unknown conditions split the state; loops run
to a fixpoint: an iteration over a container is analysed for one generic
element, and the events of its iterations are folded into the set of possible
iteration traces, so that "for every element" and "in some order" can be
decided.  Calls to functions of the repository are analysed in place
(context-sensitively), so the result does not depend on how the code is split
into helpers; library calls have models or havoc what they can reach.

Values
  ('int',n) ('flt',x) ('str',s) ('ptr',loc) ('fn',key) ('lam',key,this,depth)
  ('cont',how,loc) container built here: how in empty/some/any
  ('cur',ident,site) ('rcur',ident,site) ('end',ident) ('find',ident,key)
  ('struct',base,((path,val),...))
  ('sym',...) ('at',loc) ('fld',v,f) ('op',...) ('ret',...) ('out',...) opaque
  ('loc',loc) only as the result of a glvalue expression
Locations
  ('v',id,depth) ('g',name) ('o',...) ('d',value) ('f',loc,field)
  ('e',loc,index) ('elem',ident,iter)
"""
import sys
from prog import Prog, Fn, AnchorGone

sys.setrecursionlimit(20000)

ZERO = ("int", 0)
ONE = ("int", 1)
NPOS = 2 ** 64 - 1
MAXSIZE = 400


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "tmp", "trace", "aux")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.tmp = {}
        self.trace = ()
        self.aux = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.tmp = dict(self.tmp)
        s.trace = self.trace
        s.aux = dict(self.aux)
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.tmp.items()), self.trace,
                frozenset(self.aux.items()))

    def emit(self, *ev):
        self.trace = self.trace + (ev,)


def skeleton(trace):
    """The trace without the iteration sets of its loops, and these."""
    sets = []
    out = []
    for e in trace:
        if e[0] == "each":
            sets.append(e[3])
            out.append(("each", e[1], e[2], None, e[4]))
        else:
            out.append(e)
    return tuple(out), tuple(sets)


def rebuild(skel, sets):
    i = 0
    out = []
    for e in skel:
        if e[0] == "each":
            e = ("each", e[1], e[2], sets[i], e[4])
            i += 1
        out.append(e)
    return tuple(out)


class Work:
    """Worklist: blocks in control-flow order (clang numbers them backwards),
    so that the states of a loop are joined before its exit is followed."""

    def __init__(self):
        self.h = {}

    def append(self, x):
        b = x[0]
        if b not in self.h:
            self.h[b] = []
        self.h[b].append(x[1])

    def pop(self):
        b = max(self.h)
        return b, self.h.pop(b)

    def __bool__(self):
        return bool(self.h)


class Info:
    """What is often asked of a value: its size, the iterations and call
    sites it mentions."""
    __slots__ = ("v", "size", "iters", "site", "was")


REPEATS = []    # functions with loops whose effects could not be folded
_info = {}
NOITERS = frozenset()


def info(v):
    r = _info.get(id(v))
    if r is not None and r.v is v:
        return r
    if len(_info) > 1500000:
        _info.clear()
    r = Info()
    r.v = v
    n = 1
    iters = NOITERS
    site = bool(v) and v[0] in ("ret", "out")
    was = len(v) == 3 and v[0] == "was"
    for x in v:
        if isinstance(x, tuple):
            y = info(x)
            n += y.size
            if y.iters:
                iters = iters | y.iters if iters else y.iters
            site = site or y.site
            was = was or y.was
        else:
            n += 1
    if len(v) == 3 and v[0] in ("cur", "rcur"):
        iters = iters | {v[1:]}
    r.size, r.iters, r.site, r.was = n, iters, site, was
    _info[id(v)] = r
    return r


def vsize(v):
    return info(v).size if isinstance(v, tuple) else 1


def mentions(v, what):
    if v == what:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, what):
                return True
    return False


def mentions_iter(v, ident, site):
    """Does v mention the element an iteration stands at?"""
    return isinstance(v, tuple) and (ident, site) in info(v).iters


def earlier(v, ident, site):
    """v, once the iteration has moved on."""
    if isinstance(v, tuple) and (ident, site) in info(v).iters:
        if len(v) == 3 and v[0] in ("cur", "rcur") and v[1] == ident \
                and v[2] == site:
            return ("was", ident, site)
        return tuple(earlier(x, ident, site) for x in v)
    return v


def replaced(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple) and mentions(v, a):
        return tuple(replaced(x, a, b) for x in v)
    return v


def haswas(v):
    return isinstance(v, tuple) and info(v).was


CONT = ("std::basic_string", "std::list", "std::map", "std::set",
        "std::vector", "std::deque", "std::pair", "std::multimap",
        "std::unordered_map", "std::unordered_set", "std::stack",
        "std::queue", "std::array")


def char(v):
    """A character that is part of a string."""
    if v[0] == "int" and 0 < v[1] < 128:
        return ("str", chr(v[1]))
    return v


def ofiters(v):
    """A comparison of what was found, which depends on when it is made."""
    if v[1] == "!":
        return v[2][0] == "op" and ofiters(v[2])
    return v[1] == "==" and (v[2][0] == "find" or v[3][0] == "find")


def iscont(t):
    t = t.replace("const ", "").strip()
    return t.startswith(("std::list<", "std::map<", "std::set<",
                         "std::vector<", "std::deque<", "std::multimap<",
                         "std::unordered_map<", "std::unordered_set<",
                         "std::stack<", "std::queue<", "std::multiset<"))


def isstring(t):
    return t.replace("const ", "").strip().startswith("std::basic_string<")


class Call:
    __slots__ = ("key", "q", "name", "cls", "recv", "args", "nid", "fn",
                 "fnval",
                 "virt", "nd", "recvt")


class Policy:
    """What a property observes and what it abstracts.  Subclass."""
    maxdepth = 14
    budget = 1500000
    chains = ()         # fields that are the first of a linked list

    def call(self, eng, st, c):
        """None for the default treatment, else a list of (value, state)."""
        return None

    def inline(self, eng, st, c, fn):
        return True

    def dyncls(self, eng, st, loc):
        """Exact class name of the object at loc, or None."""
        return None

    def abort(self, eng, st, fn, nid, what):
        """A path that ends in an assertion failure or g_error."""

    def store(self, eng, st, loc, val, fn, nid):
        pass

    def copied(self, eng, st, src, dst):
        """The container at src was copied or moved to dst."""

    def put(self, eng, st, c, ident, args):
        """args are put into the container."""

    def once(self, ident):
        """Do the iterations over ident not influence each other?"""
        return False

    def watch(self, ident):
        """Should iterations over this container be recorded even when their
        body observes nothing?"""
        return False

    def nullderef(self, eng, st, fn, nid, v):
        pass

    def leaving(self, eng, st, cur):
        """An iteration leaves an element: what is known may be recorded."""

    def cstring(self, eng, st, fn, nid, v):
        """A string is made of the pointer v."""

    def element(self, eng, st, cur):
        """An iteration stands at a new element: assumptions about it."""

    def decides(self, v):
        """Is the comparison v decided as soon as it is assigned?"""
        return False

    def assume_eq(self, eng, st, a, b):
        """Forced outcome of a comparison of two unknown values."""
        return None

    def branch(self, eng, st, fn, nid, val, truth):
        pass


class Engine:
    def __init__(self, prog, policy):
        self.p = prog
        self.pol = policy
        self.steps = 0
        self.stack = []          # Fn objects
        self.unknown = {}        # library calls treated as opaque
        self.analysed = set()
        self.widened = 0
        self.aborts = 0

    # ------------------------------------------------------------------
    # memory
    def field(self, v, name):
        """The field of a class value (not of a location)."""
        if isinstance(v, tuple) and v[0] == "struct":
            base = None
            for p, x in v[2]:
                if p == (name,):
                    base = x
            sub = tuple((p[1:], x) for p, x in v[2]
                        if len(p) > 1 and p[0] == name)
            if base is None:
                base = self.field(v[1], name)
            if sub:
                return ("struct", base, sub)
            return base
        if isinstance(v, tuple) and v[0] == "loc":
            return ("loc", ("f", v[1], name))
        if vsize(v) > MAXSIZE:
            return ("sym", "big", name, hash(v))
        return ("fld", v, name)

    def load(self, st, loc):
        m = st.mem
        v = m.get(loc)
        if v is not None:
            return v
        if loc[0] == "f" and self.pol.chains:
            v = self.chained(loc)
            if v is not None:
                return v
        if loc[0] == "f":
            base = self.load(st, loc[1])
            v = self.field(base, loc[2])
            if isinstance(v, tuple) and v[0] == "struct":
                v = v[1] if not v[2] else v
            return self.subst(st, v)
        if loc[0] == "g":
            c = self.globalval(loc[1])
            if c is not None:
                return c
        if loc[0] == "e":
            base = m.get(loc[1])
            if base is None and loc[1][0] == "g":
                base = self.globalval(loc[1][1])
            if isinstance(base, tuple) and base[0] == "tuple" \
                    and isinstance(loc[2], tuple) and loc[2][0] == "int" \
                    and 0 <= loc[2][1] < len(base[1]):
                return base[1][loc[2][1]]
            if base is None and loc[1][0] == "e":
                base = self.load(st, loc[1])
                if isinstance(base, tuple) and base[0] == "tuple" \
                        and loc[2][0] == "int" \
                        and 0 <= loc[2][1] < len(base[1]):
                    return base[1][loc[2][1]]
        return self.subst(st, ("at", loc))

    def globalval(self, name):
        g = self.p.globals.get(name)
        if g is None or not g.get("const") or "init" not in g:
            return None
        return self.constexpr(g["nodes"], g["init"])

    def constexpr(self, nodes, nid):
        nd = nodes[nid]
        if "cv" in nd:
            return ("int", nd["cv"])
        k = nd["k"]
        if k == "InitListExpr":
            vs = []
            for c in nd.get("c", []):
                x = self.constexpr(nodes, c)
                if x is None:
                    return None
                vs.append(x)
            return ("tuple", tuple(vs))
        if k == "StringLiteral":
            return ("str", nd.get("v", ""))
        if len(nd.get("c", [])) == 1:
            return self.constexpr(nodes, nd["c"][0])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") \
                and nd.get("c") and isstring(nd["t"]):
            return self.constexpr(nodes, nd["c"][0])
        return None

    def subst(self, st, v):
        f = st.facts.get(("val", v))
        return v if f is None else f

    def under(self, loc, root):
        while True:
            if loc == root:
                return True
            if isinstance(loc, tuple) and loc[0] in ("f", "e"):
                loc = loc[1]
            else:
                return False

    def value(self, st, loc):
        """The whole value at loc, class objects field by field."""
        subs = []
        for l in st.mem:
            if l != loc and l[0] in ("f", "e") and self.under(l[1], loc):
                path = []
                x = l
                ok = True
                while x != loc:
                    if x[0] != "f":
                        ok = False
                        break
                    path.append(x[2])
                    x = x[1]
                if ok:
                    subs.append((tuple(reversed(path)), st.mem[l]))
        v = self.load(st, loc)
        if subs and not (isinstance(v, tuple) and v[0] in (
                "str", "int", "flt")):      # the value of a pair of a map
            return ("struct", v, tuple(sorted(subs, key=repr)))
        return v

    def kill(self, st, loc):
        for l in [l for l in st.mem if l[0] in ("f", "e")
                  and self.under(l[1], loc)]:
            del st.mem[l]

    def store(self, st, loc, v):
        self.kill(st, loc)
        if isinstance(v, tuple) and v[0] == "loc":
            v = self.value(st, v[1])
        if isinstance(v, tuple) and v[0] == "struct":
            st.mem[loc] = v[1]
            for path, x in v[2]:
                l = loc
                for p in path:
                    l = ("f", l, p)
                st.mem[l] = x
        else:
            if vsize(v) > 4 * MAXSIZE:
                v = ("sym", "big", hash(v))
            st.mem[loc] = v

    def chained(self, loc):
        """Pointers of a linked list are iterators."""
        _, base, name = loc
        if name in self.pol.chains:
            return ("cur", ("chain", base, name), ("chain",))
        if name == "next" and base[0] == "elem" and base[1][0] == "chain":
            return ("nxt", base[2])
        return None

    def rv(self, st, v):
        """Value of an expression result."""
        if isinstance(v, tuple) and v[0] == "loc":
            x = self.value(st, v[1])
            if x and x[0] == "nxt" and v[1][0] != "f":
                self.settle(st, x)
                return x[1]
            return x
        return self.subst(st, v)

    def settle(self, st, x):
        """An iterator that was moved on (it++) is looked at again."""
        self.advance(st, x[1])
        for l in [l for l in st.mem if st.mem[l] == x]:
            st.mem[l] = x[1]

    def deref(self, st, v, fn=None, nid=None):
        if isinstance(v, tuple):
            if v[0] == "ptr":
                x = st.mem.get(v[1])
                if x is not None and x[0] == "tuple":
                    return ("e", v[1], ZERO)
                return v[1]
            if v[0] == "op" and v[1] == "+" and v[2][0] == "ptr" and \
                    v[3][0] == "int":
                x = st.mem.get(v[2][1])
                if x is not None and x[0] == "tuple":
                    return ("e", v[2][1], v[3])
            if v[0] in ("cur", "rcur", "find"):
                return ("elem", v[1], v)
            if v[0] == "str":
                return ("o", "strlit", v[1])
            if v == ZERO and fn is not None:
                self.pol.nullderef(self, st, fn, nid, v)
        return ("d", v)

    def ident(self, st, loc_or_val):
        """Identity of a container: symbolic content, or its location."""
        v = loc_or_val
        if isinstance(v, tuple) and v[0] == "loc":
            x = self.load(st, v[1])
            if isinstance(x, tuple) and x[0] in ("at", "fld", "ret", "out",
                                                 "sym", "op"):
                return x
            return v[1]
        if isinstance(v, tuple) and v[0] == "ptr":
            return self.ident(st, ("loc", v[1]))
        return v

    def forget(self, st, pred):
        """Drops every fact and cell that mentions something stale."""
        for k in [k for k in st.facts if pred(k) or pred(st.facts[k])]:
            del st.facts[k]
        for k in [k for k in st.mem if pred(k)]:
            del st.mem[k]

    # ------------------------------------------------------------------
    # conditions
    def neg(self, v):
        if v[0] == "int":
            return ("int", 0 if v[1] else 1)
        if v[0] == "op" and v[1] == "!":
            return v[2]
        return ("op", "!", v)

    def mkeq(self, st, a, b):
        a = self.subst(st, a)
        b = self.subst(st, b)
        if a == b and a[0] not in ("cur", "rcur") and not haswas(a):
            return ONE
        ca = a[0] in ("int", "str", "flt")
        cb = b[0] in ("int", "str", "flt")
        if ca and cb:
            if a[0] == b[0]:
                return ONE if a[1] == b[1] else ZERO
            if {a[0], b[0]} == {"int", "flt"}:
                return ONE if a[1] == b[1] else ZERO
            return ZERO
        for x, y in ((a, b), (b, a)):
            if y == ZERO and x[0] in ("ptr", "fn", "lam"):
                return ZERO
            if y == ZERO and x[0] == "op" and x[1] == "cmp":
                return self.mkeq(st, x[2], x[3])
            if y == ("str", "") and x[0] == "op" and x[1] == "lower":
                return self.mkeq(st, x[2], y)
            if y == ZERO and x[0] == "op" and x[1] == "len":
                return self.mkeq(st, x[2], ("str", ""))
            if y == ZERO and x[0] == "op" and x[1] == "size+":
                return ZERO     # of one with elements
            if y == ZERO and x[0] == "op" and x[1] == "size":
                e = self.known_empty(st, x[2])
                if e is not None:
                    return ONE if e else ZERO
            if y == ZERO and x[0] == "op" and x[1] in ("!", "==", "<"):
                return self.neg(x)
            if y == ONE and x[0] == "op" and x[1] in ("!", "==", "<"):
                return x
        if a[0] == "ptr" and b[0] == "ptr":
            if a[1][0] == "o" and b[1][0] == "o":
                return ZERO
        for x, y in ((a, b), (b, a)):
            if x[0] == "op" and x[1] == "+" and x[2][0] == "ptr" and \
                    x[3][0] == "int":
                if y == x[2]:
                    return ONE if x[3] == ZERO else ZERO
                if y[0] == "op" and y[1] == "+" and y[2] == x[2] and \
                        y[3][0] == "int":
                    return ONE if x[3] == y[3] else ZERO
        r = self.pol.assume_eq(self, st, a, b)
        if r is not None:
            return ONE if r else ZERO
        if ca or (not cb and repr(a) > repr(b)):
            a, b = b, a
        return ("op", "==", a, b)

    def known_empty(self, st, ident):
        c = st.mem.get(ident)
        if isinstance(c, tuple) and c[0] == "cont":
            if c[1] == "empty":
                return True
            if c[1] == "some":
                return False
        return st.facts.get(("empty", ident))

    def mklt(self, st, a, b):
        a = self.subst(st, a)
        b = self.subst(st, b)
        if a == ZERO and b[0] == "op" and b[1] in ("size", "len", "size+"):
            return self.neg(self.mkeq(st, b, ZERO))
        if b == ONE and a[0] == "op" and a[1] in ("size", "len", "size+"):
            return self.mkeq(st, a, ZERO)
        if b == ZERO and a[0] == "op" and a[1] in ("size", "len", "size+"):
            return ZERO
        if a[0] in ("int", "flt") and b[0] in ("int", "flt"):
            return ONE if a[1] < b[1] else ZERO
        if a[0] == "str" and b[0] == "str":
            return ONE if a[1] < b[1] else ZERO
        if a == b:
            return ZERO
        return ("op", "<", a, b)

    def truth(self, st, v):
        """[(bool, state)] for a branch on v.  st may be reused."""
        v = self.subst(st, v)
        if v[0] in ("int", "flt"):
            return [(bool(v[1]), st)]
        if v[0] in ("ptr", "fn", "lam", "str", "struct", "tuple"):
            return [(True, st)]
        if v[0] == "op":
            if v[1] == "!":
                return [(not b, s) for b, s in self.truth(st, v[2])]
            if v[1] == "==":
                return self.trutheq(st, v[2], v[3])
            if v[1] == "<":
                k = ("lt", v[2], v[3])
                if k in st.facts:
                    return [(st.facts[k], st)]
                if st.facts.get(("lt", v[3], v[2])) is True:
                    return [(False, st)]
                t = st.copy()
                f = st
                t.facts[k] = True
                f.facts[k] = False
                return [(True, t), (False, f)]
        return [(not b, s) for b, s in self.trutheq(st, v, ZERO)]

    def trutheq(self, st, a, b):
        a = self.subst(st, a)
        b = self.subst(st, b)
        v = self.mkeq(st, a, b)
        if v[0] == "int":
            return [(bool(v[1]), st)]
        if v[0] == "op" and v[1] != "==":
            return self.truth(st, v)
        a, b = v[2], v[3]
        if b == ZERO and a[0] == "op" and a[1] == "size":
            t = st.copy()
            t.facts[("empty", a[2])] = True
            st.facts[("empty", a[2])] = False
            return [(True, t), (False, st)]
        r = self.itercmp(st, a, b)
        if r is not None:
            return r
        const = b[0] in ("int", "str", "flt")
        if const:
            ne = st.facts.get(("ne", a))
            if ne is not None and b in ne:
                return [(False, st)]
            self.at = st
            dom = self.domain(a)
            if dom is not None:
                left = [d for d in dom if ("int", d) not in (ne or ())]
                if b[0] == "int" and b[1] not in dom:
                    return [(False, st)]
                if left == [b[1]]:
                    st.facts[("val", a)] = b
                    return [(True, st)]
            t = st.copy()
            f = st
            t.facts[("val", a)] = b
            t.facts.pop(("ne", a), None)
            f.facts[("ne", a)] = (ne or frozenset()) | {b}
            return [(True, t), (False, f)]
        k = ("eq", a, b)
        if k in st.facts:
            return [(st.facts[k], st)]
        t = st.copy()
        f = st
        t.facts[k] = True
        f.facts[k] = False
        return [(True, t), (False, f)]

    def domain(self, v):
        return None

    # iterators --------------------------------------------------------
    def itercmp(self, st, a, b):
        if a[0] == "end":
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if y == ZERO and x[0] == "cur" and x[1][0] == "chain":
                return self.iterend(st, x)
        if b[0] != "end":
            if a[0] in ("cur", "rcur") or b[0] in ("cur", "rcur"):
                t = st.copy()
                return [(True, t), (False, st)]
            return None
        if a[0] == "find":
            k = ("has",) + a[1:]
            c = st.mem.get(a[1])
            if isinstance(c, tuple) and c[0] == "cont" and c[1] == "empty":
                return [(True, st)]
            if k in st.facts:
                return [(not st.facts[k], st)]
            t = st.copy()
            t.facts[k] = False
            st.facts[k] = True
            return [(True, t), (False, st)]
        if a[0] in ("cur", "rcur"):
            return self.iterend(st, a)
        return None

    def iterend(self, st, a):
        """Is the iteration at its end?  True: leave; False: one more."""
        ident, site = a[1], a[2]
        k = ("open", a[0], ident, site)
        if st.facts.get(k):
            # compared again while standing at an element
            return [(False, st)]
        out = []
        c = st.mem.get(ident)
        empty = nonempty = False
        if isinstance(c, tuple) and c[0] == "cont":
            empty = c[1] == "empty"
            nonempty = c[1] == "some"
        e = st.facts.get(("empty", ident))
        if e is True:
            empty = True
        if e is False:
            nonempty = True
        begun = st.facts.get(("begun", a[0], ident, site))
        if not empty and not (begun and self.pol.once(ident)):
            t = st.copy()
            t.facts[k] = True
            t.facts[("begun", a[0], ident, site)] = True
            if e is None:
                t.facts[("empty", ident)] = False
            t.trace = t.trace + (("it", ident, site, a[0]),)
            self.pol.element(self, t, a)
            out.append((False, t))
        if empty or begun or not nonempty:
            f = st
            if not begun:
                if e is None and not (isinstance(c, tuple)
                                      and c[0] == "cont"):
                    f.facts[("empty", ident)] = True
                if self.pol.watch(ident):
                    f.trace = f.trace + (("each", ident, a[0], frozenset(),
                                          True),)
            else:
                f.facts.pop(("begun", a[0], ident, site), None)
                self.closeiter(f, a)
            out.append((True, f))
        return out

    def closeiter(self, st, a):
        # what was an element of this pass may be one of the next
        was = ("was",) + a[1:]
        for l in list(st.mem):
            if haswas(st.mem[l]) and mentions(st.mem[l], was):
                st.mem[l] = replaced(st.mem[l], was,
                                     ("was", a[1], ("old", a[2])))
        tr = st.trace
        if tr and tr[-1][0] == "each" and tr[-1][1] == a[1] \
                and tr[-1][2] == a[0] and not tr[-1][4]:
            last = tr[-1]
            if not self.pol.watch(a[1]) and last[3] <= frozenset({()}):
                st.trace = tr[:-1]
            else:
                st.trace = tr[:-1] + ((last[0], last[1], last[2], last[3],
                                       True),)

    def advance(self, st, a):
        """The iteration a moves to its next element."""
        ident, site = a[1], a[2]
        self.pol.leaving(self, st, a)
        k = ("open", a[0], ident, site)
        st.facts.pop(k, None)
        begun = st.facts.get(("begun", a[0], ident, site))
        emp = st.facts.get(("empty", ident))
        self.forget(st, lambda v: mentions_iter(v, ident, site)
                    or mentions(v, ("was", ident, site)))
        # the iteration's own bookkeeping survives
        st.facts[("begun", a[0], ident, site)] = True
        if emp is not None:
            st.facts[("empty", ident)] = emp
        tr = st.trace
        for i in range(len(tr) - 1, -1, -1):
            if tr[i] == ("it", ident, site, a[0]):
                seg = tr[i + 1:]
                pre = tr[:i]
                if pre and pre[-1][0] == "each" and pre[-1][1] == ident \
                        and pre[-1][2] == a[0] and not pre[-1][4]:
                    e = ("each", ident, a[0], pre[-1][3] | {seg}, False)
                    st.trace = pre[:-1] + (e,)
                else:
                    st.trace = pre + (("each", ident, a[0],
                                       frozenset({seg}), False),)
                break
        for l in list(st.mem):
            v = st.mem[l]
            if isinstance(v, tuple) and v not in (a, ("nxt", a)) and \
                    mentions_iter(v, ident, site):
                if v[0] == "loc":
                    del st.mem[l]
                else:
                    st.mem[l] = earlier(v, ident, site)
        for l in list(st.tmp):
            v = st.tmp[l]
            if isinstance(v, tuple) and v != a and v[0] != "loc" and \
                    mentions_iter(v, ident, site):
                st.tmp[l] = earlier(v, ident, site)

    # ------------------------------------------------------------------
    # running functions
    def run(self, fn, args, st, this=None):
        """Analyses fn from st.  args are expression results.  Returns
        [(return value, state)]."""
        if not fn.blocks:
            return [(("sym", "nobody", fn.key), st)]
        self.analysed.add(fn.key)
        d = len(self.stack) + 1
        for i, p in enumerate(fn.params):
            a = args[i] if i < len(args) else ("sym", "noarg", p["id"])
            l = ("v", p["id"], d)
            if isinstance(a, tuple) and a[0] == "loc" and \
                    p["t"].rstrip().endswith("&"):
                st.mem[l] = a
            else:
                self.store(st, l, self.rv(st, a))
        if this is not None:
            st.mem[("this", d)] = this
        self.stack.append(fn)
        try:
            res = self.explore(fn, st, d)
        finally:
            self.stack.pop()
        out = []
        seen = set()
        for rvv, s in res:
            dead = [l for l in s.mem
                    if self.rootdepth(l) == d]
            if rvv is not None and rvv[0] == "loc" and \
                    self.rootdepth(rvv[1]) == d:
                rvv = self.value(s, rvv[1])
            for l in dead:
                del s.mem[l]
            for t in [t for t in s.tmp if t[0] >= d]:
                del s.tmp[t]
            self.gcfacts(s, rvv)
            k = (rvv, s.key())
            if k not in seen:
                seen.add(k)
                out.append((rvv, s))
        return out

    def rootdepth(self, l):
        while l[0] in ("f", "e"):
            l = l[1]
        if l[0] == "v":
            return l[2]
        if l[0] == "this":
            return l[1]
        return -1

    def gcfacts(self, st, rvv):
        """Facts on results of calls that nothing refers to any more."""
        f = st.facts
        if not f:
            return
        roots = None
        for k in list(f):
            v = k[1] if len(k) > 1 else None
            if isinstance(v, tuple) and v[0] in ("ret", "out", "op", "sym",
                                                 "fld"):
                if not self.hassite(k):
                    continue
                if roots is None:
                    roots = [x for x in st.mem.values()]
                    roots += [x for x in st.tmp.values()]
                    roots += [x for x in st.mem.keys()]
                    if rvv is not None:
                        roots.append(rvv)
                    roots += [x for x in st.aux.values()]
                core = self.core(v)
                if not any(mentions(r, core) for r in roots
                           if isinstance(r, tuple)):
                    del f[k]

    def core(self, v):
        while isinstance(v, tuple) and v[0] == "fld":
            v = v[1]
        if isinstance(v, tuple) and v[0] == "op":
            for x in v[2:]:
                if isinstance(x, tuple) and self.hassite(x):
                    return self.core(x)
        return v

    def hassite(self, k):
        return isinstance(k, tuple) and info(k).site

    def explore(self, fn, st, d):
        results = {}
        seen = {}
        counts = {}
        grown = {}
        work = Work()
        work.append((fn.entry, st, None))
        cross = fn.cross()
        live = fn.live()
        own = fn.ownvars()
        while work:
            b, batch = work.pop()
            self.steps += len(batch)
            if self.steps > self.pol.budget:
                raise Budget("%s: state budget exhausted" % fn.key)
            lv = live.get(b, ())
            vis = seen.setdefault(b, {})
            todo = {}
            for s in batch:
                # prune temporaries and dead locals
                for t in [t for t in s.tmp if t[0] == d and
                          not (t[1] in cross or t[1] == "br")]:
                    del s.tmp[t]
                for l in [l for l in s.mem if l[0] == "v" and l[2] == d
                          and l[1] in own and l[1] not in lv]:
                    self.kill(s, l)
                    s.mem.pop(l, None)
                self.gcfacts(s, s.mem.get(("return", d)))
                skel, sets = skeleton(s.trace)
                k = (frozenset(s.mem.items()), frozenset(s.facts.items()),
                     frozenset(s.tmp.items()), skel,
                     frozenset(s.aux.items()))
                old = vis.get(k)
                if old is None:
                    vis[k] = sets
                    todo[k] = s
                    continue
                new = tuple(x | y for x, y in zip(old, sets))
                if new != old:
                    vis[k] = new
                    todo[k] = s
            for k, s in todo.items():
                s.trace = rebuild(k[3], vis[k])
                if b == fn.exit:
                    r = s.mem.pop(("return", d), None)
                    results[k] = (r, s)
                    continue
                n = counts[b] = counts.get(b, 0) + 1
                if n > 24:
                    self.widen(s, d, b, grown.setdefault(b, {}))
                self.block(fn, b, s, d, work)
        return list(results.values())

    def widen(self, st, d, b, grown):
        """Counters that keep growing in a loop become unknown."""
        for l in list(st.mem):
            v = st.mem[l] or ("none",)
            if l[0] in ("v", "o") and v[0] not in ("int", "sym"):
                z = vsize(v)
                g = grown.setdefault(("size", l), [z, 0])
                if z > g[0]:
                    g[0] = z
                    g[1] += 1
                if g[1] > 12:
                    self.widened += 1
                    w = ("sym", "widen", b, l)
                    self.forget(st, lambda x: mentions(x, w))
                    st.mem[l] = w
                    continue
            lim = 2 if l[0] == "v" else 8
            n = v[1] if v[0] == "int" else None
            if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4 and \
                    v[3][0] == "int":
                n = v[3][1]
                lim = 2
                x = st.mem.get(v[2][1]) if v[2][0] == "ptr" else None
                if x is not None and x[0] == "tuple" and \
                        0 <= n <= len(x[1]):
                    continue        # into an array of known size
            if v[0] == "op" and v[1] == "+" and n is None and \
                    v[2][0] == "op" and v[2][1] == "+":
                n = 0
                lim = 2
            if n is not None and (n > lim or n < -lim) and n < NPOS or \
                    v[0] == "op" and n is not None or \
                    v[0] == "str" and len(v[1]) > 64:
                g = grown.setdefault(l, set())
                g.add(v)
                if len(g) > lim:
                    self.widened += 1
                    w = ("sym", "widen", b, l)
                    self.forget(st, lambda x: mentions(x, w))
                    st.mem[l] = w

        # effects that are repeated
        tr = st.trace
        for n in range(1, 9):
            x = tr[-n:]
            if len(tr) > 2 * n and tr[-2 * n - 1:-n] == x + (("again",),):
                st.trace = tr[:-n]
                break
            if len(tr) >= 2 * n and tr[-2 * n:-n] == x:
                st.trace = tr[:-n] + (("again",),)
                REPEATS.append(self.stack[-1].key)
                break

    def block(self, fn, b, st, d, work):
        blk = fn.blocks[b]
        states = [st]
        for e in blk["e"]:
            nxt = []
            for s in states:
                if isinstance(e, int):
                    nxt.extend(self.element(fn, e, s, d))
                else:
                    nxt.extend(self.initializer(fn, e, s, d))
            states = nxt
            if not states:
                return
            if len(states) > 1:
                self.steps += len(states)
        t = blk.get("t")
        succ = blk["s"]
        if blk.get("noret"):
            return
        for s in states:
            if not t or t["k"] in ("BreakStmt", "ContinueStmt", "GotoStmt") \
                    or t.get("c", -1) < 0:
                ss = [x for x in succ if x is not None]
                if len(ss) == 1:
                    work.append((ss[0], s, b))
                else:
                    for x in ss:
                        work.append((x, s.copy(), b))
                continue
            if t["k"] == "SwitchStmt":
                self.switch(fn, b, blk, s, d, work)
                continue
            if t["k"] == "CXXTryStmt":
                for x in succ:
                    if x is not None:
                        work.append((x, s.copy(), b))
                continue
            c = self.get(fn, t["c"], s, d)
            for cc, s1 in c:
                v = self.rv(s1, cc)
                for truth, s2 in self.truth(s1, v):
                    tk = t["k"]
                    if tk in ("BinaryOperator", "ConditionalOperator",
                              "BinaryConditionalOperator"):
                        s2.tmp[(d, "br", t["s"])] = ONE if truth else ZERO
                        for a in self.outer(fn, t["s"]):
                            s2.tmp.pop((d, "br", a), None)
                        if tk == "BinaryOperator":
                            op = fn.nodes[t["s"]]["op"]
                            if (op == "&&") == truth:
                                del s2.tmp[(d, "br", t["s"])]
                    self.pol.branch(self, s2, fn, t["c"], v, truth)
                    x = succ[0] if truth else (succ[1] if len(succ) > 1
                                               else None)
                    if x is not None:
                        work.append((x, s2, b))

    def switch(self, fn, b, blk, s, d, work):
        t = blk["t"]
        cases = []
        default = None
        for x in blk["s"]:
            if x is None:
                continue
            lab = fn.blocks[x].get("lab")
            if lab and lab["k"] == "CaseStmt" and "v" in lab:
                cases.append((x, lab))
            else:
                default = x
        for cc, s1 in self.get(fn, t["c"], s, d):
            v = self.rv(s1, cc)
            cur = s1
            for x, lab in cases:
                lo = lab["v"]
                hi = lab.get("v2", lo)
                if hi - lo > 64:
                    work.append((x, cur.copy(), b))
                    continue
                for val in range(lo, hi + 1):
                    if cur is None:
                        break
                    nxt = None
                    for truth, s2 in self.trutheq(cur, v, ("int", val)):
                        if truth:
                            work.append((x, s2, b))
                        else:
                            nxt = s2
                    cur = nxt
            if cur is not None and default is not None:
                work.append((default, cur, b))

    def initializer(self, fn, e, st, d):
        """Constructor initialiser."""
        this = st.mem.get(("this", d))
        if this is None:
            return [st]
        tl = self.deref(st, this)
        if e.get("expr", -1) < 0:
            return [st]
        x = fn.nodes[e["expr"]]
        if "field" in e:
            out = []
            for v, s in self.get(fn, e["expr"], st, d):
                if not e.get("written") and x["k"] == "CXXConstructExpr" \
                        and not (iscont(x["t"]) or isstring(x["t"])):
                    out.append(s)
                    continue
                l = ("f", tl, e["field"])
                self.store(s, l, self.rv(s, v))
                self.pol.store(self, s, l, s.mem[l], fn, e["expr"])
                out.append(s)
            return out
        # base or delegating constructor: analysed in place
        if x["k"] == "CXXConstructExpr":
            return [s for v, s in self.construct(fn, e["expr"], st, d, this)]
        return [st]

    # ------------------------------------------------------------------
    # expressions
    def element(self, fn, nid, st, d):
        nd = fn.nodes[nid]
        k = nd["k"]
        if nid in fn.newctor():
            return [st]
        if k in SKIP:
            return [st]
        out = []
        for v, s in self.evalnode(fn, nid, st, d):
            if v is not None:
                s.tmp[(d, nid)] = v
            out.append(s)
        return out

    def get(self, fn, nid, st, d):
        """[(result, state)] of an expression, from the value table when its
        element has been evaluated."""
        if nid < 0:
            return [(("sym", "none"), st)]
        v = st.tmp.get((d, nid))
        if v is not None:
            return [(v, st)]
        return self.evalnode(fn, nid, st, d)

    def getall(self, fn, nids, st, d):
        res = [([], st)]
        for n in nids:
            nxt = []
            for vs, s in res:
                for v, s2 in self.get(fn, n, s, d):
                    nxt.append((vs + [v], s2))
            res = nxt
        return res

    def evalnode(self, fn, nid, st, d):
        nd = fn.nodes[nid]
        k = nd["k"]
        if "cv" in nd and k not in ("CallExpr",):
            return [(("int", nd["cv"]), st)]
        m = getattr(self, "n_" + k, None)
        if m is not None:
            return m(fn, nid, nd, st, d)
        if k in PASS:
            c = nd.get("c")
            if c:
                return self.get(fn, c[0], st, d)
            return [(("sym", k, nid), st)]
        if k.endswith("Expr") or k.endswith("Operator") or \
                k.endswith("Literal"):
            return [(("sym", k, fn.key, nid), st)]
        return [(None, st)]

    def n_IntegerLiteral(self, fn, nid, nd, st, d):
        return [(("int", nd["v"]), st)]
    n_CharacterLiteral = n_IntegerLiteral

    def n_FloatingLiteral(self, fn, nid, nd, st, d):
        return [(("flt", nd["v"]), st)]

    def n_CXXBoolLiteralExpr(self, fn, nid, nd, st, d):
        return [(ONE if nd["v"] else ZERO, st)]

    def n_StringLiteral(self, fn, nid, nd, st, d):
        return [(("str", nd.get("v", "")), st)]

    def n_PredefinedExpr(self, fn, nid, nd, st, d):
        return [(("str", nd.get("v", "")), st)]

    def n_CXXNullPtrLiteralExpr(self, fn, nid, nd, st, d):
        return [(ZERO, st)]
    n_GNUNullExpr = n_CXXNullPtrLiteralExpr
    n_ImplicitValueInitExpr = n_CXXNullPtrLiteralExpr
    n_CXXScalarValueInitExpr = n_CXXNullPtrLiteralExpr

    def n_CXXThisExpr(self, fn, nid, nd, st, d):
        return [(st.mem.get(("this", d), ("sym", "this")), st)]

    def vloc(self, fn, dd, st, d):
        vid = dd["id"]
        if dd["dk"] == "global":
            return ("g", dd["n"])
        if dd["dk"] == "slocal":
            return ("g", "static " + dd["n"] + "#" + str(vid))
        if vid in fn.ownvars():
            return ("v", vid, d)
        # captured by a lambda
        ld = st.mem.get(("lamdepth", d))
        if ld is not None:
            return ("v", vid, ld[1])
        return ("v", vid, d)

    def n_DeclRefExpr(self, fn, nid, nd, st, d):
        dd = nd["d"]
        if dd["dk"] == "enum":
            return [(("int", dd["v"]), st)]
        if dd["dk"] == "func":
            return [(("fn", dd["key"]), st)]
        if "id" not in dd:
            return [(("sym", "decl", dd["n"]), st)]
        l = self.vloc(fn, dd, st, d)
        v = st.mem.get(l)
        if isinstance(v, tuple) and v[0] == "loc":
            return [(v, st)]
        return [(("loc", l), st)]

    def n_MemberExpr(self, fn, nid, nd, st, d):
        if "d" in nd:
            dd = nd["d"]
            if dd["dk"] == "enum":
                return [(("int", dd["v"]), st)]
            return [(("loc", ("g", dd["n"])), st)]
        out = []
        for b, s in self.get(fn, nd["c"][0], st, d):
            if "meth" in nd:
                out.append((b, s))
                continue
            if nd.get("arrow"):
                l = self.deref(s, self.rv(s, b), fn, nid)
                out.append((("loc", ("f", l, nd["m"])), s))
            elif b[0] == "loc":
                out.append((("loc", ("f", b[1], nd["m"])), s))
            else:
                out.append((self.field(b, nd["m"]), s))
        return out

    def n_ArraySubscriptExpr(self, fn, nid, nd, st, d):
        out = []
        for (b, i), s in self.getall(fn, nd["c"][:2], st, d):
            p = b if b[0] != "loc" else self.rv(s, b)
            if b[0] == "loc" and "[" in fn.nodes[nd["c"][0]]["t"]:
                l = b[1]
            elif p[0] == "ptr":
                l = p[1]
            else:
                l = self.deref(s, p, fn, nid)
            out.append((("loc", ("e", l, self.rv(s, i))), s))
        return out

    def n_ImplicitCastExpr(self, fn, nid, nd, st, d):
        ck = nd.get("ck")
        out = []
        for v, s in self.get(fn, nd["c"][0], st, d):
            if ck == "LValueToRValue":
                v = self.rv(s, v)
            elif ck == "ArrayToPointerDecay":
                if v[0] == "loc":
                    v = ("ptr", v[1])
            elif ck == "NullToPointer":
                v = ZERO
            elif ck in ("IntegralToBoolean", "PointerToBoolean",
                        "FloatingToBoolean"):
                v = self.neg(self.mkeq(s, self.rv(s, v), ZERO))
            elif ck == "IntegralToFloating":
                v = self.rv(s, v)
                if v[0] == "int":
                    v = ("flt", float(v[1]))
            elif ck == "FloatingToIntegral":
                v = self.rv(s, v)
                if v[0] == "flt":
                    v = ("int", int(v[1]))
                elif v[0] != "int":
                    v = ("op", "trunc", v)
            elif ck == "Dynamic":
                out.extend(self.dyncast(fn, nid, nd, s, self.rv(s, v)))
                continue
            elif ck == "ToVoid":
                v = ("sym", "void")
            out.append((v, s))
        return out
    n_CStyleCastExpr = n_ImplicitCastExpr
    n_CXXStaticCastExpr = n_ImplicitCastExpr
    n_CXXReinterpretCastExpr = n_ImplicitCastExpr
    n_CXXConstCastExpr = n_ImplicitCastExpr
    n_CXXFunctionalCastExpr = n_ImplicitCastExpr
    n_CXXDynamicCastExpr = n_ImplicitCastExpr

    def dyncast(self, fn, nid, nd, st, v):
        target = nd["t"].replace("const ", "").rstrip("*& ").strip()
        if v == ZERO:
            return [(ZERO, st)]
        l = self.deref(st, v)
        cls = self.pol.dyncls(self, st, l)
        if cls is not None:
            return [(v if self.p.isa(cls, target) else ZERO, st)]
        # null pointer or not
        out = []
        for isnull, s in self.trutheq(st, v, ZERO):
            if isnull:
                out.append((ZERO, s))
                continue
            k = ("isa", v, target)
            known = s.facts.get(k)
            if known is None:
                for kk, val in s.facts.items():
                    if kk[0] == "isa" and kk[1] == v:
                        if val and self.p.isa(kk[2], target):
                            known = True
                        elif val and not self.p.isa(target, kk[2]) \
                                and not self.p.isa(kk[2], target) \
                                and not (set(self.p.derived(target))
                                         & set(self.p.derived(kk[2]))):
                            known = False
                        elif not val and self.p.isa(target, kk[2]):
                            known = False
            if known is None:
                a = s.copy()
                a.facts[k] = True
                s.facts[k] = False
                out.append((v, a))
                out.append((ZERO, s))
            else:
                out.append((v if known else ZERO, s))
        return out

    def arith(self, op, a, b):
        if a[0] in ("int", "flt") and b[0] in ("int", "flt"):
            x, y = a[1], b[1]
            f = a[0] == "flt" or b[0] == "flt"
            try:
                if op == "+":
                    r = x + y
                elif op == "-":
                    r = x - y
                elif op == "*":
                    r = x * y
                elif op == "/":
                    r = x / y if f else int(x / y)
                elif op == "%":
                    r = x - y * int(x / y)
                elif op == "&":
                    r = x & y
                elif op == "|":
                    r = x | y
                elif op == "^":
                    r = x ^ y
                elif op == "<<":
                    r = x << y
                elif op == ">>":
                    r = x >> y
                else:
                    return ("op", op, a, b)
                return ("flt", r) if f else ("int", r)
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                return ("op", op, a, b)
        if op in ("+", "-") and b in (ZERO, ("flt", 0.0)):
            return a
        if op == "+" and a == ZERO:
            return b
        if op in ("+", "-") and b[0] == "int" and a[0] == "op" and \
                a[1] in ("+", "-") and a[3][0] == "int":
            n = (a[3][1] if a[1] == "+" else -a[3][1]) + \
                (b[1] if op == "+" else -b[1])
            if n == 0:
                return a[2]
            return ("op", "+", a[2], ("int", n)) if n > 0 else \
                ("op", "-", a[2], ("int", -n))
        if op == "+" and a[0] == "int":
            a, b = b, a
        v = ("op", op, a, b)
        if vsize(v) > MAXSIZE:
            v = ("sym", "big", op, hash(v))
        return v

    def n_UnaryOperator(self, fn, nid, nd, st, d):
        op = nd["op"]
        out = []
        for v, s in self.get(fn, nd["c"][0], st, d):
            if op == "&":
                if v[0] == "loc":
                    v = ("ptr", v[1])
                out.append((v, s))
            elif op == "*":
                out.append((("loc", self.deref(s, self.rv(s, v), fn, nid)),
                            s))
            elif op == "!":
                x = self.rv(s, v)
                if x[0] == "op" and x[1] in ("!", "==", "<"):
                    out.append((self.neg(x), s))
                else:
                    out.append((self.mkeq(s, x, ZERO), s))
            elif op in ("++", "--"):
                x = self.rv(s, v)
                if x[0] in ("cur", "rcur"):
                    self.advance(s, x)
                    out.append((v, s))
                    continue
                y = self.arith("+" if op == "++" else "-", x, ONE)
                if v[0] == "loc":
                    self.store(s, v[1], y)
                    self.pol.store(self, s, v[1], y, fn, nid)
                out.append((x if nd.get("post") else v, s))
            elif op == "-":
                x = self.rv(s, v)
                if x[0] in ("int", "flt"):
                    out.append(((x[0], -x[1]), s))
                else:
                    out.append((("op", "neg", x), s))
            elif op == "+":
                out.append((self.rv(s, v), s))
            else:
                out.append((("op", op, self.rv(s, v)), s))
        return out

    @staticmethod
    def outer(fn, nid):
        """The logical operators an operand of which nid is (part of)."""
        par = fn.parents()
        out = []
        work = list(par.get(nid, ()))
        while work:
            n = work.pop()
            nd = fn.nodes[n]
            if nd.get("op") in ("&&", "||"):
                out.append(n)
            elif nd["k"] not in PASS:
                continue
            work += par.get(n, ())
        return out

    def decided(self, fn, nid, st, d):
        """The value of a logical operator whose left part decided it (the
        control flow graph jumps from there past the outer operators)."""
        br = st.tmp.get((d, "br", nid))
        if br is not None:
            return br
        nd = fn.nodes[nid]
        l = nd["c"][0]
        while fn.nodes[l]["k"] == "ParenExpr" or (
                fn.nodes[l]["k"] in PASS and fn.nodes[l].get("c")):
            l = fn.nodes[l]["c"][0]
        if fn.nodes[l].get("op") not in ("&&", "||"):
            return None
        v = self.decided(fn, l, st, d)
        return v if v == (ONE if nd["op"] == "||" else ZERO) else None

    def n_BinaryOperator(self, fn, nid, nd, st, d):
        op = nd["op"]
        if op in ("&&", "||"):
            br = self.decided(fn, nid, st, d)
            if br is not None:
                return [(br, st)]
            out = []
            for v, s in self.get(fn, nd["c"][1], st, d):
                x = self.rv(s, v)
                out.append((self.neg(self.mkeq(s, x, ZERO)), s))
            return out
        out = []
        for (a, b), s in self.getall(fn, nd["c"][:2], st, d):
            if op == "=":
                for bv, s in self.settled(s, self.rv(s, b)):
                    if a[0] == "loc":
                        self.store(s, a[1], bv)
                        self.pol.store(self, s, a[1], bv, fn, nid)
                    out.append((a, s))
            elif op == ",":
                out.append((b, s))
            else:
                out.append((self.binop(s, op, self.rv(s, a),
                                       self.rv(s, b)), s))
        return out

    def settled(self, st, v):
        """[(v, state)] where what the policy wants decided is decided."""
        if v[0] == "op" and v[1] in ("!", "==", "<") and (
                self.pol.decides(v) or ofiters(v)):
            return [(ONE if b else ZERO, s) for b, s in self.truth(st, v)]
        return [(v, st)]

    def binop(self, s, op, a, b):
        if op == "==":
            return self.mkeq(s, a, b)
        if op == "!=":
            return self.neg(self.mkeq(s, a, b))
        if op == "<":
            return self.mklt(s, a, b)
        if op == ">":
            return self.mklt(s, b, a)
        if op == "<=":
            return self.neg(self.mklt(s, b, a))
        if op == ">=":
            return self.neg(self.mklt(s, a, b))
        return self.arith(op, a, b)

    def n_CompoundAssignOperator(self, fn, nid, nd, st, d):
        op = nd["op"][:-1]
        out = []
        for (a, b), s in self.getall(fn, nd["c"][:2], st, d):
            for bv, s in self.settled(s, self.rv(s, b)):
                v = self.arith(op, self.rv(s, a), bv)
                if a[0] == "loc":
                    self.store(s, a[1], v)
                    self.pol.store(self, s, a[1], v, fn, nid)
                out.append((a, s))
        return out

    def n_ConditionalOperator(self, fn, nid, nd, st, d):
        br = st.tmp.get((d, "br", nid))
        c = nd["c"]
        if br is None:
            out = []
            for v, s in self.get(fn, c[0], st, d):
                for t, s2 in self.truth(s, self.rv(s, v)):
                    out.extend(self.get(fn, c[1] if t else c[2], s2, d))
            return out
        return self.get(fn, c[1] if br == ONE else c[2], st, d)

    def n_StmtExpr(self, fn, nid, nd, st, d):
        body = fn.nodes[nd["c"][0]]
        if body.get("c"):
            return self.get(fn, body["c"][-1], st, d)
        return [(("sym", "void"), st)]

    def n_InitListExpr(self, fn, nid, nd, st, d):
        out = []
        for vs, s in self.getall(fn, nd.get("c", []), st, d):
            vs = [self.rv(s, v) for v in vs]
            if "fields" in nd and len(nd["fields"]) == len(vs):
                subs = []
                for f, v in zip(nd["fields"], vs):
                    if v[0] == "struct":
                        subs.append(((f,), v[1]))
                        subs += [((f,) + p, x) for p, x in v[2]]
                    else:
                        subs.append(((f,), v))
                out.append((("struct", ("sym", "init"), tuple(subs)), s))
            else:
                out.append((("tuple", tuple(vs)), s))
        return out

    def n_LambdaExpr(self, fn, nid, nd, st, d):
        return [(("lam", nd["key"], st.mem.get(("this", d)), d), st)]

    def n_DeclStmt(self, fn, nid, nd, st, d):
        res = [st]
        for dd in nd["decls"]:
            l = ("v", dd["id"], d)
            if dd["static"]:
                l = ("g", "static " + dd["n"] + "#" + str(dd["id"]))
            nxt = []
            for s in res:
                if "init" not in dd:
                    self.kill(s, l)
                    s.mem[l] = ("sym", "uninit", dd["n"])
                    nxt.append(s)
                    continue
                for v, s2 in self.get(fn, dd["init"], s, d):
                    if dd["ref"]:
                        self.kill(s2, l)
                        s2.mem[l] = v
                    elif v[0] == "ctorval":
                        pass
                    else:
                        x = self.rv(s2, v)
                        if dd["static"] and l in s2.mem:
                            pass
                        else:
                            if x[0] == "cont":
                                self.pol.copied(self, s2, x[2], l)
                                x = ("cont", x[1], l)
                            for x, s3 in self.settled(s2, x):
                                self.store(s3, l, x)
                                self.pol.store(self, s3, l, x, fn, nid)
                                nxt.append(s3)
                            continue
                    nxt.append(s2)
            res = nxt
        return [(None, s) for s in res]

    def n_ReturnStmt(self, fn, nid, nd, st, d):
        if not nd.get("c"):
            return [(None, st)]
        out = []
        for v, s in self.get(fn, nd["c"][0], st, d):
            if fn.ret.rstrip().endswith("&") and v[0] == "loc":
                s.mem[("return", d)] = v
            else:
                s.mem[("return", d)] = self.rv(s, v)
            out.append((None, s))
        return out

    # construction -----------------------------------------------------
    def n_CXXConstructExpr(self, fn, nid, nd, st, d):
        out = []
        cls = nd["cls"]
        t = nd["t"]
        if nd.get("copy") and nd.get("c"):
            for v, s in self.get(fn, nd["c"][0], st, d):
                out.append((self.rv(s, v), s))
            return out
        args = [c for c in nd.get("c", [])]
        if isstring(cls) or isstring(t):
            if not args:
                return [(("str", ""), st)]
            for vs, s in self.getall(fn, args, st, d):
                vs = [self.rv(s, v) for v in vs]
                if vs[0][0] == "ptr" and vs[0][1][0] == "e":
                    vs[0] = ("op", "strat", vs[0][1])
                at = fn.nodes[args[0]]["t"]
                if "*" in at:
                    self.pol.cstring(self, s, fn, nid, vs[0])
                if "initializer_list" in at or (len(args) > 1 and (
                        fn.nodes[args[1]]["k"] != "CXXDefaultArgExpr")):
                    out.append((("op", "mkstr") + tuple(vs), s))
                else:
                    out.append((vs[0], s))
            return out
        if iscont(cls):
            real = [a for a in args
                    if fn.nodes[a]["k"] != "CXXDefaultArgExpr"]
            if not real:
                return [(("cont", "empty", None), st)]
            for vs, s in self.getall(fn, real, st, d):
                vs = [self.rv(s, v) for v in vs]
                out.append((("op", "mkcont") + tuple(vs), s))
            return out
        if cls in self.p.classes:
            return self.construct(fn, nid, st, d, None)
        for vs, s in self.getall(fn, args, st, d):
            vs = [self.rv(s, v) for v in vs]
            if len(vs) == 1:
                out.append((vs[0], s))     # converting constructors
            elif cls.startswith("std::pair<") and len(vs) == 2:
                out.append((self.mkpair(vs[0], vs[1]), s))
            elif not vs:
                out.append((("sym", "default", cls), s))
            else:
                out.append((("op", "make", cls) + tuple(vs), s))
        return out
    n_CXXTemporaryObjectExpr = n_CXXConstructExpr

    def mkpair(self, a, b):
        subs = []
        for n, v in (("first", a), ("second", b)):
            if v[0] == "struct":
                subs.append(((n,), v[1]))
                subs += [((n,) + p, x) for p, x in v[2]]
            else:
                subs.append(((n,), v))
        return ("struct", ("sym", "pair"), tuple(subs))

    def construct(self, fn, nid, st, d, this):
        """Runs a repository constructor.  this: pointer value, or None for
        a temporary whose value is returned."""
        nd = fn.nodes[nid]
        args = nd.get("c", [])
        key = nd["fn"]
        ctor = self.p.fns.get(key)
        tmploc = None
        if this is None:
            tmploc = ("o", "tmp", fn.key, nid)
            this = ("ptr", tmploc)
        out = []
        for vs, s in self.getall(fn, args, st, d):
            c = Call()
            c.key, c.q, c.name, c.cls = key, nd["fq"], nd["fq"].split("::")[-1], nd["cls"]
            c.recv, c.args, c.nid, c.fn = this, vs, nid, fn
            c.virt, c.nd, c.recvt = False, nd, nd["cls"]
            r = self.pol.call(self, s, c)
            if r is None:
                if ctor is not None and self.caninline(s, c, ctor):
                    r = self.run(ctor, vs, s, this)
                else:
                    r = [(("sym", "void"), s)]
            for _, s2 in r:
                if tmploc is not None:
                    v = self.value(s2, tmploc)
                    self.kill(s2, tmploc)
                    s2.mem.pop(tmploc, None)
                    if v[0] == "at":
                        v = ("sym", "default", nd["cls"])
                    out.append((v, s2))
                else:
                    out.append((this, s2))
        return out

    def caninline(self, st, c, fn):
        if not fn.blocks:
            return False
        if len(self.stack) >= self.pol.maxdepth:
            return False
        if sum(1 for f in self.stack if f is fn) >= 1:
            return False
        return self.pol.inline(self, st, c, fn)

    def n_CXXNewExpr(self, fn, nid, nd, st, d):
        cls = nd["nt"]
        loc = ("o", "new", cls, fn.key, nid)
        ptr = ("ptr", loc)
        ctor = [c for c in nd.get("c", [])
                if fn.nodes[c]["k"] == "CXXConstructExpr"]
        args = []
        if ctor:
            args = fn.nodes[ctor[0]].get("c", [])
        out = []
        for vs, s in self.getall(fn, args, st, d):
            c = Call()
            c.key, c.q, c.name, c.cls = "new " + cls, "new " + cls, "new", cls
            c.recv, c.args, c.nid, c.fn = ptr, vs, nid, fn
            c.virt, c.nd, c.recvt = False, nd, cls
            r = self.pol.call(self, s, c)
            if r is not None:
                out.extend(r)
                continue
            self.kill(s, loc)
            s.mem.pop(loc, None)
            self.forget(s, lambda v: mentions(v, loc))
            if ctor and isstring(cls) and len(vs) <= 1:
                s.mem[loc] = self.rv(s, vs[0]) if vs else ("str", "")
            if ctor and cls in self.p.classes:
                for _, s2 in self.construct(fn, ctor[0], s, d, ptr):
                    out.append((ptr, s2))
            else:
                out.append((ptr, s))
        return out

    def n_CXXDeleteExpr(self, fn, nid, nd, st, d):
        out = []
        for v, s in self.get(fn, nd["c"][0], st, d):
            v = self.rv(s, v)
            c = Call()
            c.key, c.q, c.name, c.cls = "delete", "delete", "delete", nd["dt"]
            c.recv, c.args, c.nid, c.fn = None, [v], nid, fn
            c.virt, c.nd, c.recvt = False, nd, nd["dt"]
            r = self.pol.call(self, s, c)
            if r is not None:
                out.extend(r)
            else:
                out.append((("sym", "void"), s))
        return out

    # calls ------------------------------------------------------------
    def n_CallExpr(self, fn, nid, nd, st, d):
        kids = nd.get("c", [])
        if "fn" not in nd:
            # through a pointer
            out = []
            for vs, s in self.getall(fn, kids, st, d):
                f = self.rv(s, vs[0])
                target = self.p.fns.get(f[1]) if f[0] == "fn" else None
                if f[0] == "lam":
                    out.extend(self.calllam(s, f, vs[1:]))
                    continue
                c = Call()
                c.key = c.q = c.name = f[1] if f[0] == "fn" else "<indirect>"
                c.fnval = f
                c.cls, c.recv, c.args, c.nid, c.fn = None, None, vs[1:], nid, fn
                c.virt, c.nd, c.recvt = False, nd, ""
                out.extend(self.docall(s, c, target, d))
            return out
        out = []
        for vs, s in self.getall(fn, kids[1:], st, d):
            c = Call()
            c.key, c.q, c.name = nd["fn"], nd["fq"], nd["fnm"]
            c.cls, c.recv, c.args = nd.get("cls"), None, vs
            c.nid, c.fn, c.virt, c.nd, c.recvt = nid, fn, False, nd, ""
            out.extend(self.docall(s, c, self.p.fns.get(c.key), d))
        return out

    def n_CXXMemberCallExpr(self, fn, nid, nd, st, d):
        if "fn" not in nd:
            return self.n_CallExpr(fn, nid, nd, st, d)
        kids = nd.get("c", [])
        me = fn.nodes[kids[0]]
        out = []
        for vs, s in self.getall(fn, kids, st, d):
            b = vs[0]
            if me["k"] == "MemberExpr" and me.get("arrow"):
                recv = self.rv(s, b)
            elif b[0] == "loc":
                recv = ("ptr", b[1])
            else:
                recv = b
            c = Call()
            c.key, c.q, c.name = nd["fn"], nd["fq"], nd["fnm"]
            c.cls, c.recv, c.args = nd.get("cls"), recv, vs[1:]
            c.nid, c.fn, c.virt, c.nd = nid, fn, bool(nd.get("virt")), nd
            c.recvt = nd.get("objt", "")
            target = self.p.fns.get(c.key)
            if recv == ZERO:
                self.pol.nullderef(self, s, fn, nid, recv)
            if c.virt:
                key = self.dispatch(s, c)
                if key is None:
                    target = None
                else:
                    c.key = key
                    target = self.p.fns.get(key)
            out.extend(self.docall(s, c, target, d))
        return out

    def dispatch(self, st, c):
        if c.recv is not None and c.recv[0] == "ptr":
            cls = self.pol.dyncls(self, st, c.recv[1])
            if cls is None and c.recv[1][0] == "o" and c.recv[1][1] == "new":
                cls = c.recv[1][2]
            if cls is not None:
                return self.p.final(cls, c.key)
        elif c.recv is not None:
            cls = self.pol.dyncls(self, st, ("d", c.recv))
            if cls is not None:
                return self.p.final(cls, c.key)
        # no override anywhere below the static type
        st_cls = c.recvt.replace("const ", "").rstrip("*& ").strip()
        subs = self.p.derived(st_cls) if st_cls in self.p.classes else []
        finals = {self.p.final(x, c.key) for x in subs}
        if len(finals) == 1:
            return finals.pop()
        return None

    def n_CXXOperatorCallExpr(self, fn, nid, nd, st, d):
        kids = nd.get("c", [])
        out = []
        for vs, s in self.getall(fn, kids[1:], st, d):
            r = self.opcall(fn, nid, nd, s, d, vs)
            if r is not None:
                out.extend(r)
                continue
            c = Call()
            c.key, c.q, c.name = nd.get("fn", "?"), nd.get("fq", "?"), \
                nd.get("fnm", "?")
            c.cls = nd.get("cls")
            if c.cls:
                c.recv = ("ptr", vs[0][1]) if vs[0][0] == "loc" else vs[0]
                c.args = vs[1:]
                if vs[0][0] != "loc" and vs[0][0] == "lam":
                    out.extend(self.calllam(s, vs[0], vs[1:]))
                    continue
                x = self.rv(s, vs[0])
                if x[0] == "lam":
                    out.extend(self.calllam(s, x, vs[1:]))
                    continue
            else:
                c.recv, c.args = None, vs
            c.nid, c.fn, c.virt, c.nd, c.recvt = nid, fn, False, nd, ""
            out.extend(self.docall(s, c, self.p.fns.get(c.key), d))
        return out

    def calllam(self, st, lam, args):
        f = self.p.fns.get(lam[1])
        if f is None or len(self.stack) >= self.pol.maxdepth:
            return [(("sym", "lam", lam[1]), st)]
        dd = len(self.stack) + 1
        st.mem[("lamdepth", dd)] = ("int", lam[3])
        res = self.run(f, args, st, lam[2])
        for _, s in res:
            s.mem.pop(("lamdepth", dd), None)
        return res

    def opcall(self, fn, nid, nd, s, d, vs):
        op = nd["op"]
        a = vs[0]
        av = self.rv(s, a) if a[0] == "loc" else a
        at = fn.nodes[nd["c"][1]]["t"]
        isit = av[0] in ("cur", "rcur", "end", "find")
        if op in ("==", "!=") and len(vs) == 2:
            b = self.rv(s, vs[1])
            if av[0] == "ptr" or b[0] == "ptr":
                pass
            v = self.mkeq(s, av, b)
            return [(v if op == "==" else self.neg(v), s)]
        if op in ("<", ">", "<=", ">=") and len(vs) == 2:
            return [(self.binop(s, op, av, self.rv(s, vs[1])), s)]
        if isit or "iterator" in at:
            if op == "*":
                return [(("loc", self.deref(s, av, fn, nid)), s)]
            if op == "->":
                return [(("ptr", self.deref(s, av, fn, nid)), s)]
            if op in ("++", "--"):
                if av[0] in ("cur", "rcur"):
                    if a[0] == "loc":
                        # moves on when it is looked at again; the result
                        # of it++ still stands at the element
                        self.store(s, a[1], ("nxt", av))
                        return [(av if len(vs) == 2 else a, s)]
                    self.advance(s, av)
                    return [(a, s)]
                return [(a, s)]
            if op == "=":
                if a[0] == "loc":
                    self.store(s, a[1], self.rv(s, vs[1]))
                return [(a, s)]
        if op == "=" and len(vs) == 2:
            b = self.rv(s, vs[1])
            cls = nd.get("cls") or ""
            own = self.p.fns.get(nd.get("fn"))
            if own is not None and own.blocks:
                return None
            if a[0] == "loc":
                c = self.mkcall(fn, nid, nd, ("ptr", a[1]), vs[1:])
                r = self.pol.call(self, s, c)
                if r is not None:
                    return r
                if iscont(at) and b[0] == "cont":
                    self.pol.copied(self, s, b[2], a[1])
                    b = ("cont", b[1], a[1])
                if iscont(at):
                    self.touch(s, a[1])
                self.store(s, a[1], b)
                self.pol.store(self, s, a[1], b, fn, nid)
            return [(a, s)]
        if isstring(at) or (len(vs) > 1 and
                            isstring(fn.nodes[nd["c"][2]]["t"])):
            if op == "+":
                x, y = char(av), char(self.rv(s, vs[1]))
                if x[0] == "str" and y[0] == "str":
                    return [(("str", x[1] + y[1]), s)]
                if y == ("str", ""):
                    return [(x, s)]
                if x == ("str", ""):
                    return [(y, s)]
                v = ("op", "cat", x, y)
                if vsize(v) > 4 * MAXSIZE:
                    v = ("sym", "cat", fn.key, nid)
                return [(v, s)]
            if op == "+=":
                x, y = av, char(self.rv(s, vs[1]))
                if x[0] == "str" and y[0] == "str" and len(x[1]) < 200:
                    v = ("str", x[1] + y[1])
                elif x == ("str", ""):
                    v = y
                else:
                    v = ("op", "cat", x, y)
                    if vsize(v) > 4 * MAXSIZE:
                        v = ("sym", "cat", fn.key, nid)
                if a[0] == "loc":
                    self.store(s, a[1], v)
                return [(a, s)]
            if op == "[]" and isstring(at):
                i = self.rv(s, vs[1])
                if av[0] == "str" and i[0] == "int":
                    return [(("int", ord(av[1][i[1]])
                              if i[1] < len(av[1]) else 0), s)]
                return [(("op", "idx", av, i), s)]
        if iscont(at) and op == "[]":
            k = self.rv(s, vs[1])
            if a[0] == "loc":
                ident = self.ident(s, a)
                c = self.mkcall(fn, nid, nd, ("ptr", a[1]), vs[1:])
                r = self.pol.call(self, s, c)
                if r is not None:
                    return r
                f = ("find", ident, k)
                had = s.facts.get(("has", ident, k))
                out = []
                if had is not True and f in s.mem.values():
                    # an iterator that was looked up before: the end, if
                    # the key was not there
                    n = s.copy()
                    for x, y in list(n.mem.items()):
                        if y == f:
                            n.mem[x] = ("end", ident)
                    out.append(n)
                if had is not False or not out:
                    out.append(s)
                for x in out:
                    x.facts[("has", ident, k)] = True
                    x.facts.pop(("empty", ident), None)
                return [(("loc", ("elem", ident, f)), x) for x in out]
            return [(("op", "idx", av, k), s)]
        return None

    def mkcall(self, fn, nid, nd, recv, args):
        c = Call()
        c.key, c.q, c.name = nd.get("fn", "?"), nd.get("fq", "?"), \
            nd.get("fnm", "?")
        c.cls, c.recv, c.args, c.nid, c.fn = nd.get("cls"), recv, args, nid, fn
        c.virt, c.nd, c.recvt = False, nd, ""
        return c

    def touch(self, s, loc, how="any"):
        """A container at loc was modified."""
        old = self.ident(s, ("loc", loc))
        for k in [k for k in s.facts
                  if k[0] in ("empty", "has") and k[1] == old]:
            del s.facts[k]
        s.mem[loc] = ("cont", how, loc)

    # default treatment of a call
    def docall(self, st, c, target, d):
        name = c.name
        if name in ("__builtin_expect",):
            return [(self.rv(st, c.args[0]), st)]
        # assertion failures and fatal logs end the path
        if c.nd.get("noret") or name in ("abort", "exit", "_exit"):
            self.aborts += 1
            self.pol.abort(self, st, c.fn, c.nid, name)
            return []
        if name in ("g_log", "g_logv") and len(c.args) > 1:
            lv = self.rv(st, c.args[1])
            if lv[0] == "int" and lv[1] & 4:
                self.aborts += 1
                self.pol.abort(self, st, c.fn, c.nid, "g_error")
                return []
            return [(("sym", "void"), st)]
        r = self.pol.call(self, st, c)
        if r is not None:
            return r
        import models
        r = models.call(self, st, c)
        if r is not None:
            return r
        if target is not None and self.caninline(st, c, target):
            return self.run(target, c.args, st, c.recv)
        return [self.opaque(st, c)]

    def opaque(self, st, c, havoc=True, fork=None):
        """Result of a call that is not analysed."""
        fn = c.fn
        site = (fn.key, c.nid, len(self.stack))
        if c.key not in self.p.fns:
            self.unknown[c.q] = self.unknown.get(c.q, 0) + 1
        av = tuple(self.argname(st, a) for a in c.args)
        rcv = c.recv
        if vsize(av) > MAXSIZE:
            av = ("...",)
        if rcv is not None and vsize(rcv) > MAXSIZE:
            rcv = ("...",)
        res = ("ret", c.q, (rcv,) + av, site)
        self.forget(st, lambda v: self.ismention(v, site))
        if havoc:
            ptypes = self.ptypes(c)
            for i, a in enumerate(c.args):
                l = None
                if a[0] == "loc":
                    t = ptypes[i] if i < len(ptypes) else "?"
                    if t.startswith("const ") or not t.rstrip().endswith("&"):
                        continue
                    l = a[1]
                elif a[0] == "ptr":
                    t = ptypes[i] if i < len(ptypes) else "?"
                    if t.startswith("const "):
                        continue
                    l = a[1]
                if l is not None and l[0] != "o":
                    self.kill(st, l)
                    st.mem[l] = ("out", c.q, (rcv,) + av, i, site)
            self.havocheap(st, c)
        return (self.subst(st, res), st)

    def ismention(self, v, site):
        if isinstance(v, tuple):
            if v and v[0] in ("ret", "out") and v[-1] == site:
                return True
            return any(self.ismention(x, site) for x in v
                       if isinstance(x, tuple))
        return False

    def havocheap(self, st, c):
        """Repository functions that are not analysed may change any object;
        library functions do not change repository objects they are not
        given."""
        if c.key in self.p.fns or (c.q or "").startswith("ginga::"):
            h = getattr(self.pol, "havoc", None)
            if h is not None:
                h(self, st, c)

    def argname(self, st, a):
        if a[0] == "loc":
            v = self.load(st, a[1])
            return v
        return a

    def ptypes(self, c):
        key = c.key
        i = key.rfind("(")
        depth = 0
        # parameter list is the last parenthesised group
        j = len(key) - 1
        if not key.endswith(")"):
            return []
        depth = 0
        for i in range(len(key) - 1, -1, -1):
            if key[i] == ")":
                depth += 1
            elif key[i] == "(":
                depth -= 1
                if depth == 0:
                    break
        s = key[i + 1:-1]
        out = []
        cur = ""
        dep = 0
        for ch in s:
            if ch in "<([":
                dep += 1
            elif ch in ">)]":
                dep -= 1
            if ch == "," and dep == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        if cur:
            out.append(cur)
        return out


SKIP = {"CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt",
        "SwitchStmt", "CaseStmt", "DefaultStmt", "BreakStmt", "ContinueStmt",
        "GotoStmt", "LabelStmt", "NullStmt", "CXXForRangeStmt",
        "AttributedStmt"}
PASS = {"ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
        "MaterializeTemporaryExpr", "ConstantExpr",
        "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr",
        "CXXDefaultArgExpr", "CXXDefaultInitExpr", "OpaqueValueExpr",
        "CXXNoexceptExpr", "ChooseExpr", "GenericSelectionExpr"}
