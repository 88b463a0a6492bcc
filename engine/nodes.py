"""The handlers of the parser, run for every element the grammar admits, with
what the parser's own services (element cache, object stack, errors) do
modelled; the services are checked on their own."""
import own
import trans
import pp
from absint import Engine, State, ZERO, ONE, mentions
from grammar import Grammar, tables

ST, ELT, PAR, DOC = ("o", "st"), ("o", "elt"), ("o", "parent"), trans.DOC
XML = ("o", "xml")
P = "ginga::ParserState::"
VOID = ("sym", "void")
MODEL = ("ginga::Context", "ginga::Composition", "ginga::Object",
         "ginga::Media", "ginga::MediaSettings", "ginga::Switch",
         "ginga::Document", "ginga::Event", "ginga::Predicate")
PURE = ("toCPPString", "toXmlChar", "xpathisabs", "xpathisuri", "xpathbuild",
        "xpathdirname", "xpathfromuri", "xurifromsrc", "xpathmakeabs",
        "xpathbuildabs", "parse_percent")


def fnv(*a):
    return ("op", "fn") + a


def attr(e, name):
    return fnv("attr", e, ("str", name))


def data(e, key):
    return fnv("data", e, ("str", key))


class Pol(own.Fill):
    budget = 4000000

    def __init__(self, prog, g, tag, parent, top=None):
        own.Fill.__init__(self, prog, None)
        self.g = g
        self.tag = tag
        self.parent = parent
        self.tags = {("ptr", ELT): tag, ("ptr", PAR): parent}
        self.parents = {("ptr", ELT): ("ptr", PAR)}
        self.classes = {ST: "ginga::ParserState", ELT: "ginga::ParserElt",
                        PAR: "ginga::ParserElt", DOC: "ginga::Document"}
        self.isdata = lambda e, tag, key: None
        self.top = top
        self.setkeys = set()
        self.lprov = {}     # what is put in the local lists
        self.ltags = {}     # tags of the elements whose data that is

    def objclass(self, st, v):
        """Class of the object v."""
        if v[0] == "op" and v[1:3] == ("fn", "object"):
            return frozenset([v[3]])
        if v[0] == "ptr":
            if v[1] == ("o", "top"):
                return frozenset([self.classes.get(v[1])])
            if v[1][0] == "o" and v[1][1] == "new":
                return frozenset([v[1][2]])
        return None

    # -- elements
    def tagof(self, st, e):
        t = self.tags.get(e)
        if t is not None:
            return t
        if e[0] == "op" and e[1:3] == ("fn", "byid") and len(e[4]) == 1:
            return e[4][0]
        if e[0] == "at" and e[1][0] == "elem":
            l = trans.norm(e[1][1])
            if l[0] == "op" and l[1:3] == ("fn", "elements") and \
                    len(l[3]) == 1:
                return l[3][0]
            t = self.listtag(st, e)
            if t is not None:
                return t
        return st.facts.get(("tag", e))

    def dyncls(self, eng, st, loc):
        if loc in self.classes:
            return self.classes[loc]
        if loc[0] == "o" and loc[1] == "new":
            return loc[2]
        if loc[0] == "o" and loc[1] == "obj of":
            return loc[2]
        if loc[0] == "d":
            v = loc[1]
            if v[0] == "op" and v[1:3] == ("fn", "object"):
                return v[3]
        return None

    def fork(self, st, key):
        """[(bool, state)] for an unknown fact."""
        k = st.facts.get(key)
        if k is not None:
            return [(k, st)]
        t = st.copy()
        t.facts[key] = True
        st.facts[key] = False
        return [(True, t), (False, st)]

    def set(self, eng, st, a, v):
        """Store through an out parameter that may be null."""
        if a[0] == "ptr":
            eng.store(st, a[1], v)
        elif a[0] == "loc":
            eng.store(st, a[1], v)

    def has(self, st, e, name):
        """[(bool, state)]: does element e have the attribute?"""
        tag = self.tagof(st, e)
        n = name[1] if name[0] == "str" else None
        if n is not None and tag in self.g.tags:
            if self.g.required(tag, n):
                return [(True, st)]
            if n not in self.g.tags[tag]["attrs"] and \
                    tag not in self.extended:
                return [(False, st)]
            if tag in self.present:
                return [(n in self.present[tag], st)]
        return self.fork(st, ("attr", e, name))

    present = {}        # tag: the optional attributes that are there
    only = None         # the tags that the document has elements of
    extended = ()       # tags whose elements get further attributes

    def err(self, eng, st, *what):
        st.emit("err", *what)
        st.mem[("f", ST, "_error")] = ("sym", "error")
        return ZERO

    def node(self, e):
        return ("ptr", ("o", "node", e))

    def eltof(self, v):
        return v[1][2] if v[0] == "ptr" and v[1][:2] == ("o", "node") \
            else None

    def strs(self, eng, st, v):
        """Constant strings of an initialiser list."""
        out = []

        def walk(x):
            if x[0] == "str":
                out.append(x[1])
            elif x[0] in ("tuple", "op", "struct"):
                for y in x[1:]:
                    if isinstance(y, tuple):
                        walkall(y)

        def walkall(y):
            if y and isinstance(y[0], str) and y[0] in (
                    "str", "tuple", "op", "struct"):
                walk(y)
            else:
                for z in y:
                    if isinstance(z, tuple):
                        walkall(z)
        walkall(v)
        return tuple(out)

    def cached(self, st, e):
        tag = self.tagof(st, e)
        return tag is not None and self.g.tags[tag]["cache"]

    def call(self, eng, st, c):
        q = c.q
        a = None
        if q.startswith("ginga::ParserElt::") or q.startswith(P) or \
                (c.cls in MODEL and not q.startswith("new ")):
            a = [eng.rv(st, x) for x in c.args]
        if q.startswith("ginga::ParserElt::"):
            out = []
            for s in self.bytag(st, c.recv):
                r = self.elt(eng, s, c, c.recv, a)
                if r is None:
                    return None
                out.extend(r)
            return out
        if q.startswith(P):
            r = self.service(eng, st, c, c.name, a)
            if r is not None:
                return r
            return None
        if q.startswith("new "):
            if c.cls in MODEL:
                a = tuple(eng.rv(st, x) for x in c.args)
                st.emit("new", c.cls, c.recv, a)
                return [(c.recv, st)]
            return None
        if c.cls in MODEL:
            return self.model(eng, st, c, c.name, a)
        s = q.split("::")[-1]
        if s in PURE:
            a = tuple(eng.rv(st, x) for x in c.args)
            if s in ("toCPPString", "toXmlChar"):
                if a[0] == ZERO:
                    self.nulls.append((c.fn, c.nid, a[0], st.trace))
                v = a[0]
                if v[0] == "fld" and v[2] == "name" and v[1][0] == "at" and \
                        v[1][1][:2] == ("o", "node"):
                    t = self.tagof(st, v[1][1][2])
                    if t is not None:
                        v = ("str", t)
                return [(v, st)]
            return [(fnv(s, *a), st)]
        if s == "try_parse_time" and len(c.args) == 2:
            a = [eng.rv(st, x) for x in c.args]
            out = []
            for b, t in self.fork(st, ("time", a[0])):
                if b:
                    self.set(eng, t, a[1], fnv("time", a[0]))
                out.append((ONE if b else ZERO, t))
            return out
        if q.startswith("xml") or q.startswith("ginga::xml") or "#" in q and \
                s.startswith("xml"):
            return self.xml(eng, st, c, s)
        if q.startswith("Fc"):
            return [eng.opaque(st, c, havoc=False)]
        return own.Fill.call(self, eng, st, c)

    def cstring(self, eng, st, fn, nid, v):
        if v == ZERO or v[:3] in NULLABLE and (
                ONE in [x for x, s in eng.trutheq(st.copy(), v, ZERO)]
                or True in [x for x, s in eng.trutheq(st.copy(), v, ZERO)]):
            self.nullderef(eng, st, fn, nid, v)

    def xml(self, eng, st, c, s):
        a = tuple(eng.rv(st, x) for x in c.args)
        if s in ("xmlFree", "xmlFreeDoc"):
            st.emit("xmlfree", a[0])
            return [(VOID, st)]
        if s == "xmlBuildURI":
            return [(fnv("xmlBuildURI", *a), st)]
        if s == "xmlGetLastErrorAsString":
            return [(fnv(s), st)]
        if s == "xmlReadFile":
            return [(fnv(s, a[0]), st)]
        if s in ("xmlDocGetRootElement", "xmlFindAllChildren"):
            return [(fnv(s, *a), st)]
        if s == "xmlHasSettings":
            return [(ONE if b else ZERO, t) for b, t in
                    self.fork(st, ("fn", s, a))]
        return None

    def bytag(self, st, e):
        """The states in which the tag of e is one of those it may be."""
        if self.tagof(st, e) is not None:
            return [st]
        if e[0] == "op" and e[1:3] == ("fn", "byid"):
            tags = set(e[4])
        else:
            tags = self.listtags(st, e)
        if not tags:
            return [st]
        out = []
        for t in sorted(tags):
            s = st.copy()
            s.facts[("tag", e)] = t
            out.append(s)
        return out

    def listtags(self, st, e):
        return None

    # -- ParserElt
    def elt(self, eng, st, c, e, a):
        n = c.name
        if n == "getTag":
            t = self.tagof(st, e)
            return [(("str", t) if t else fnv("tag", e), st)]
        if n == "getNode":
            return [(self.node(e), st)]
        if n == "getParentNode":
            return [(self.node(self.parents.get(e, fnv("parentof", e))), st)]
        if n == "getAttribute":
            out = []
            for b, s in self.has(st, e, a[0]):
                if b:
                    self.set(eng, s, a[1], fnv("attr", e, a[0]))
                out.append((ONE if b else ZERO, s))
            return out
        if n == "setAttribute":
            st.emit("setattr", e, *a)
            k = ("attr", e, a[0])
            st.facts.setdefault(("at first",) + k, st.facts.get(k, "?"))
            st.facts[k] = True
            return [(ONE, st)]
        if n == "getAttributes":
            return [(("ptr", ("d", fnv("attrs", e))), st)]
        if n in ("getData", "setData"):
            return self.udata(eng, st, c, e, a)
        return None

    def udata(self, eng, st, c, e, a):
        key = a[0][1] if a[0][0] == "str" else None
        if c.name == "setData":
            st.emit("setdata", e, key, a[1], a[2] if len(a) > 2 else ZERO)
            st.mem[("f", ("o", "udata", e), key)] = a[1]
            return [(ONE, st)]
        v = st.mem.get(("f", ("o", "udata", e), key))
        if v is not None:
            self.set(eng, st, a[1], v)
            return [(ZERO if v == ZERO else ONE, st)]
        out = []
        tag = "" if e == ("ptr", ST) else self.tagof(st, e)
        known = self.isdata(e, tag, key)
        if known is None:
            fs = self.fork(st, ("data", e, key))
        else:
            fs = [(known, st)]
        for b, s in fs:
            if b:
                v = data(e, key)
                s.facts[("ne", v)] = frozenset({ZERO})
                if key == "conn-elt":
                    s.facts[("tag", v)] = "causalConnector"
                self.set(eng, s, a[1], v)
            out.append((ONE if b else ZERO, s))
        return out

    # -- ParserState
    def service(self, eng, st, c, n, a):
        if n.startswith("errElt"):
            return [(self.err(eng, st, n, *a), st)]
        if n in ("getData", "setData"):
            return self.udata(eng, st, c, ("ptr", ST), a)
        if n == "getURI":
            return [(fnv("uri"), st)]
        if n == "genId":
            return [(fnv("genid"), st)]
        if n == "eltCacheIndex":
            return self.index(eng, st, self.eltof(a[0]), a[0], a[1])
        if n == "eltCacheIndexParent":
            e = self.eltof(a[0])
            if e is None:
                return None
            p = self.parents.get(e, fnv("parentof", e))
            if p[0] == "op" and e[0] == "op" and e[2] in ("parentof",
                                                          "ancestor"):
                # some further ancestor
                tag = self.tagof(st, e)
                base = e
                while base[0] == "op" and base[2] in ("parentof",
                                                      "ancestor"):
                    base = base[3]
                p = fnv("ancestor", base)
                eng.forget(st, lambda x: mentions(x, p))
                if tag:
                    child = fnv("child of", p)
                    st.facts[("tag", child)] = tag
                    return self.index(eng, st, p, a[0], a[1], child)
            return self.index(eng, st, p, a[0], a[1], e)
        if n == "eltCacheIndexById":
            return self.byid(eng, st, a[0], a[1], self.strs(eng, st, a[2]))
        if n == "eltCacheIndexByTag":
            tags = self.strs(eng, st, a[0])
            v = fnv("elements", tags)
            st.emit("bytag", tags)
            if self.only is not None:
                st.facts[("empty", v)] = not (set(tags) & set(self.only))
                if a[1][0] in ("ptr", "loc"):
                    eng.store(st, a[1][1], v)
                return [(ZERO if st.facts[("empty", v)]
                         else ("op", "size", v), st)]
            if a[1][0] in ("ptr", "loc"):
                eng.store(st, a[1][1], v)
            return [(fnv("count", v), st)]
        if n in ("objStackPeek", "objStackPop"):
            s = st.mem.get(("f", ST, "#stack"), ())
            v = s[-1] if s else ("ptr", ("o", "top"))
            if n == "objStackPop":
                st.emit("pop", v)
                st.mem[("f", ST, "#stack")] = s[:-1] if s else ()
            return [(v, st)]
        if n == "objStackPush":
            st.emit("push", a[0])
            st.mem[("f", ST, "#stack")] = st.mem.get(
                ("f", ST, "#stack"), ()) + (a[0],)
            return [(VOID, st)]
        if n in ("rectStackPop", "rectStackPush"):
            st.emit(n, *a)
            return [(fnv("rect"), st)]
        if n == "rectStackPeek":
            return [(fnv("rect"), st)]
        if n == "referMapIndex":
            out = []
            for b, s in self.fork(st, ("refer", a[0])):
                s.facts.setdefault(("refer at first", a[0]), b)
                if b:
                    v = fnv("object", "ginga::Media", "refer", a[0])
                    s.facts[("ne", v)] = frozenset({ZERO})
                    self.set(eng, s, a[1], v)
                out.append((ONE if b else ZERO, s))
            return out
        if n == "referMapAdd":
            st.emit("referadd", *a)
            st.facts[("refer", a[0])] = True
            return [(("sym", "bool"), st)]
        if n == "aliasStackCombine":
            return [(fnv(n), st)]
        if n == "aliasStackPeek":
            out = []
            for b, s in self.fork(st, ("alias",)):
                if b:
                    for i, x in enumerate(a):
                        self.set(eng, s, x, fnv("aliaspeek", ("int", i)))
                out.append((ONE if b else ZERO, s))
            return out
        if n == "aliasStackPush":
            out = []
            for b, s in self.fork(st, ("circular",)):
                if not b:
                    s.emit("aliaspush", *a)
                out.append((ZERO if b else ONE, s))
            return out
        if n == "aliasStackPop":
            pushed = sum(1 for e in st.trace if e[0] == "aliaspush") - \
                sum(1 for e in st.trace if e[0] == "aliaspop")
            st.emit("aliaspop")
            return [(ONE if pushed > 0 else ZERO, st)]
        if n in ("checkNode", "processNode"):
            bad = st.copy()
            st.emit(n, *a)
            bad.emit(n, *a)
            self.err(eng, bad, n)
            v = ONE if n == "processNode" else ("ptr", ("o", "syntax"))
            return [(v, st), (ZERO, bad)]
        if n in ("resolveInterface", "resolveComponent"):
            t = self.tagof(st, a[1])
            if t is not None and t not in referrers(self.g):
                self.aborts.append((c.fn, c.nid, "a reference of an "
                                    "element that has none", st))
            bad = st.copy()
            st.emit(n, a[0], a[1])
            bad.emit(n, a[0], a[1])
            self.err(eng, bad, n)
            v = fnv(n, a[0], a[1])
            st.facts[("ne", v)] = frozenset({ZERO})
            self.set(eng, st, a[2], v)
            return [(ONE, st), (ZERO, bad)]
        if n in ("resolveParameter",):
            return [(fnv(n, *a), st)]
        if n == "obtainPredicate":
            nm = eng.load(st, ("f", eng.deref(st, a[0]), "name"))
            if {b for b, s in eng.trutheq(st.copy(), nm, ("str",
                                          "simpleCondition"))} != {True}:
                self.aborts.append((c.fn, c.nid, "the predicate of an "
                                    "element that has none", st))
            return [(fnv(n, *a), st)]
        if n == "solvePredicate":
            return [(fnv(n, *a), st)]
        return None

    def index(self, eng, st, e, node, out, child=None):
        """The element e of a node, if it is in the cache."""
        if e is None:
            e = fnv("eltof", node)
            tags = self.nodetags(st, node)
            if tags:
                r = []
                for t in sorted(tags):
                    s = st.copy()
                    s.facts[("tag", e)] = t
                    if self.g.tags[t]["cache"]:
                        s.facts[("ne", e)] = frozenset({ZERO})
                        self.set(eng, s, out, e)
                        r.append((ONE, s))
                    else:
                        r.append((ZERO, s))
                return r
            r = []
            for b, s in self.fork(st, ("cached", e)):
                if b:
                    s.facts[("ne", e)] = frozenset({ZERO})
                    self.set(eng, s, out, e)
                r.append((ONE if b else ZERO, s))
            return r
        r = []
        tags = [self.tagof(st, e)]
        if tags[0] is None and child is not None:
            t = self.tagof(st, child)
            tags = self.g.tags[t]["parents"] if t else [None]
        for t in tags:
            s = st.copy() if len(tags) > 1 else st
            if t is not None:
                s.facts[("tag", e)] = t
            here = e == ("ptr", ELT) and not self.popping
            if t is not None and self.g.tags[t]["cache"] and not here:
                s.facts[("ne", e)] = frozenset({ZERO})
                self.set(eng, s, out, e)
                r.append((ONE, s))
            elif t is None:
                for b, s2 in self.fork(s, ("cached", e)):
                    if b:
                        s2.facts[("ne", e)] = frozenset({ZERO})
                        self.set(eng, s2, out, e)
                    r.append((ONE if b else ZERO, s2))
            else:
                r.append((ZERO, s))
        return r

    popping = False

    def nodetags(self, st, node):
        """The tags of the elements that node may be the node of."""
        return None

    def listtag(self, st, e):
        """The tag of an element that was put into a list."""
        return None

    def byid(self, eng, st, i, out, tags):
        e = fnv("byid", i, tags)
        r = []
        known = self.listed(st, i, tags)
        fs = self.fork(st, ("found", e)) if known is None else [(known, st)]
        for b, s in fs:
            if b:
                s.facts[("ne", e)] = frozenset({ZERO})
                self.set(eng, s, out, e)
            r.append((ONE if b else ZERO, s))
        return r

    def listed(self, st, i, tags):
        """Is i the id of some element with one of the tags for sure?"""
        return None

    # -- the model
    def put(self, eng, st, c, ident, args):
        i = trans.norm(ident)
        if i[0] == "v":
            if len(args) == 1 and args[0] not in self.lprov.setdefault(
                    i, []):
                self.lprov[i].append(args[0])
            for x in args:
                k = keyof(x)
                if k:
                    self.ltags.setdefault(k[0], set()).add(
                        self.tagof(st, k[0]))
            if self.locals:
                self.know(eng, st, "put", (i,) + tuple(args))
                st.emit("put", c.name, i, *args)
            return
        own.Fill.put(self, eng, st, c, ident, args)

    locals = False

    def model(self, eng, st, c, n, a):
        recv = c.recv
        if c.cls == "ginga::Document":
            if n in ("getRoot", "getSettings"):
                v = fnv("object", "ginga::Context" if n == "getRoot"
                        else "ginga::MediaSettings", n)
                st.facts[("ne", v)] = frozenset({ZERO})
                return [(v, st)]
            if n in ("getObjectByIdOrAlias", "getObjectById"):
                return self.find(eng, st, n, a[0])
        if n in ("getLambda",):
            v = fnv(n, recv)
            st.facts[("ne", v)] = frozenset({ZERO})
            return [(v, st)]
        if n == "getObject" and c.cls == "ginga::Event":
            v = fnv(n, recv)
            st.facts[("ne", v)] = frozenset({ZERO})
            return [(v, st)]
        if n.startswith("add") and n.endswith("Event") and len(a) > 0:
            self.know(eng, st, n, (recv,) + tuple(a))
            st.emit("do", c.cls.split("::")[-1] + "::" + n, recv, *a)
            v = fnv("get" + n[3:], recv, a[0])
            st.facts.pop(("val", v), None)
            st.facts[("ne", v)] = frozenset({ZERO})
            return [(VOID, st)]
        if n == "hasAlias":
            return [(ONE if b else ZERO, s) for b, s in
                    self.fork(st, (n, recv, a[0]))]
        if n == "getChildren":
            return [(("ptr", ("d", fnv(n, recv))), st)]
        if n == "clone":
            v = fnv("clone", recv, len([1 for e in st.trace]))
            st.facts[("ne", v)] = frozenset({ZERO})
            return [(v, st)]
        if n == "getTest":
            for i, x in enumerate(a):
                self.set(eng, st, x, fnv(n, recv, ("int", i)))
            return [(VOID, st)]
        if n.startswith("get") or n.startswith("is") or n.startswith("has"):
            return [(fnv(n, recv, *a), st)]
        self.know(eng, st, n, (recv,) + tuple(a))
        st.emit("do", c.cls.split("::")[-1] + "::" + n, recv, *a)
        return [(VOID, st)]

    def know(self, eng, st, n, a):
        """Records what is known when something is done."""
        f = self.note
        if f:
            k = f(self, eng, st, n, a)
            if k is not None:
                st.emit("know", *k)

    note = None
    end = None

    def leaving(self, eng, st, cur):
        if self.end:
            k = self.end(self, eng, st, cur)
            if k is not None:
                st.emit("know", *k)

    def find(self, eng, st, n, i):
        cls = self.objcls(st, i)
        if cls:
            v = fnv("object", cls, "byid", i)
            st.facts[("ne", v)] = frozenset({ZERO})
            return [(v, st)]
        out = []
        for b, s in self.fork(st, (n, i)):
            if not b:
                out.append((ZERO, s))
                continue
            for cls in ("ginga::Context", "ginga::Switch", "ginga::Media"):
                t = s.copy()
                v = fnv("object", cls, n, i)
                t.facts[("ne", v)] = frozenset({ZERO})
                out.append((v, t))
        return out

    def objcls(self, st, i):
        return None

    def domain(self, eng, v):
        return None


def keyof(v):
    """(element, key) of the element data v."""
    if v[0] == "at" and v[1][0] == "d":
        v = v[1]
    if v[0] == "d":
        v = v[1]
    if v[0] == "op" and v[1:3] == ("fn", "data"):
        return v[3], v[4][1]
    return None


def idof(v):
    """The element whose id v is."""
    if v[0] == "op" and v[1:3] == ("fn", "attr") and v[4] == ("str", "id"):
        return v[3]
    return None


def field(v, name):
    if v[0] == "struct":
        for p, x in v[2]:
            if p == (name,):
                return x
        return field(v[1], name)
    return ("fld", v, name)


# results of the library that may be null
NULLABLE = {("op", "fn", x) for x in (
    "xmlBuildURI", "xmlGetProp", "g_filename_from_uri", "xpathfromuri")}


class Context:
    """What the handlers of an element may rely on, since those of the
    elements around it ran before: the data that is set, the object on top of
    the stack, the ids and elements that lists hold, the types of
    predicates."""

    def __init__(self, p, g):
        self.p, self.g = p, g
        self.keys, self.may, self.clear = {}, {}, {}
        self.pushes, self.pops, self.prov, self.preds = {}, {}, {}, {}
        self.stset, self.stclear = {}, {}
        self.filled = {}
        self.unbalanced = []
        self.analysed = set()
        self.consts = {n: set(dict(rows).values()) for n, _, rows in
                       tables(p, "ginga::Predicate::")}
        for tag, e in g.tags.items():
            for which in ("push", "pop"):
                if e[which] and tag != "ncl" or which == "push" and e[which]:
                    self.learn(tag, which)
        for tag in g.tags:
            self.keys.setdefault(tag, set())
            self.may.setdefault(tag, set())

    def learn(self, tag, which):
        g = self.g
        always = None
        for par in g.tags[tag]["parents"] or [None]:
            fn, eng, pol, res = run(self.p, g, tag, par, which,
                                    learning=True)
            self.analysed |= eng.analysed
            if which == "pop":
                self.fills(pol, tag, res)
            for v, st in res:
                if v == ZERO:
                    continue
                mine = set()
                stack = []
                npop = 0
                for e, i in trans.flat(st.trace):
                    if e[0] == "setdata":
                        t = pol.tagof(st, e[1]) if e[1] != ("ptr", ST) \
                            else ""
                        if t == "":
                            (self.stclear if e[3] == ZERO else
                             self.stset).setdefault(e[2], set()).add(tag)
                        else:
                            (self.clear if e[3] == ZERO else self.may)\
                                .setdefault(t, set()).add(e[2])
                            if e[1] == ("ptr", ELT) and e[3] != ZERO:
                                mine.add(e[2])
                        if e[2] == "pred":
                            self.preds.setdefault(t, set()).add(
                                self.ptype(st, e[3]))
                    elif e[0] == "put" and keyof(e[2]):
                        el, key = keyof(e[2])
                        t = pol.tagof(st, el)
                        for x in e[3:]:
                            self.prov.setdefault((t, key), []).append(
                                (tag, x, pol))
                    elif e[0] == "push":
                        stack.append(pol.objclass(st, e[1]))
                    elif e[0] == "pop":
                        if stack:
                            stack.pop()
                        else:
                            npop += 1
                if which == "push":
                    always = mine if always is None else always & mine
                for d, x in ((self.pushes, tuple(stack)),
                             (self.pops, npop)):
                    d.setdefault((tag, which), set()).add(x)
        if which == "push":
            self.keys[tag] = always or set()

    def ptype(self, st, v):
        for e in st.trace:
            if e[0] == "new" and e[2] == v and e[3]:
                return e[3][0]
        return None

    def types(self, tag):
        """The types that the predicate of a tag element may have."""
        out = set()
        for t in self.preds.get(tag, [None]):
            if t is not None and t[0] == "int":
                out.add(t[1])
                continue
            n = self.fromtable(t) if t is not None else None
            if n is None:
                return None
            out |= self.consts[n]
        return frozenset(out)

    def fromtable(self, v):
        """The table that v is a value of."""
        while v[0] in ("fld", "at"):
            v = v[1]
        if v[0] != "elem":
            return None
        g = trans.norm(v[1])
        if g[0] == "at":
            g = g[1]
        if g[0] == "g" and g[1] in self.consts:
            return g[1]
        return None

    def top(self, tag, parent, which):
        """The classes of object that the stack may have on top."""
        if which == "pop":
            return self.after(tag, parent)
        out = set()
        ps = self.g.tags[parent]["parents"] if parent else []
        if parent is None:
            return {None}
        for pp_ in ps or [None]:
            out |= self.after(parent, pp_)
        return out

    def after(self, tag, parent, seen=()):
        if (tag, parent) in seen:
            return set()
        out = set()
        s = self.pushes.get((tag, "push"), {()})
        for x in s:
            if x and x[-1] != frozenset([None]):
                out |= set(x[-1]) if isinstance(x[-1], frozenset) \
                    else {x[-1]}
            elif parent is None:
                out.add(None)
            else:
                for q in self.g.tags[parent]["parents"] or [None]:
                    out |= self.after(parent, q, seen + ((tag, parent),))
        return out

    def balance(self):
        """What is wrong with how handlers use the object stack."""
        for tag in self.g.tags:
            if tag == "ncl":
                continue
            up = self.pushes.get((tag, "push"), {()})
            dn = self.pops.get((tag, "pop"), {0})
            if self.pushes.get((tag, "pop"), {()}) != {()} or \
                    self.pops.get((tag, "push"), {0}) != {0} or \
                    {len(x) for x in up} != dn or len(dn) != 1:
                yield tag

    def isdata(self, pol, e, tag, key):
        g = self.g
        if e == ("ptr", ST):
            s = self.stset.get(key, set())
            if len(s) == 1 and self.stclear.get(key, set()) <= s:
                t, = s
                if g.within(pol.tag, t) and not g.within(t, t) or \
                        pol.tag == t and pol.popping:
                    return True
            if not s:
                return False
            return None
        if e == ("ptr", ELT) and not pol.popping:
            return False
        if tag is None:
            return None
        if key in self.clear.get(tag, ()):
            return None
        if key in self.keys[tag]:
            return True
        if key not in self.may[tag]:
            return False
        return None

    def listed(self, pol, st, i, tags):
        """Is the id i, taken out of a list, that of a tags element?"""
        if i[0] != "at" or i[1][0] != "elem":
            return None
        k = keyof(trans.norm(i[1][1]))
        if k is None:
            return None
        ps = self.prov.get((pol.tagof(st, k[0]), k[1]), [])
        for tag, x, q in ps:
            if idof(x) != ("ptr", ELT) or tag not in tags or \
                    not self.g.tags[tag]["cache"]:
                return None
        return True if ps else None

    def expand(self, pol, v):
        """What v may be, elements of local lists being what was put there."""
        if v[0] == "fld":
            return [field(x, v[2]) for x in self.expand(pol, v[1])]
        if v[0] == "at":
            return self.values(pol, v[1])
        return [v]

    def values(self, pol, l):
        if l[0] == "f":
            return [field(x, l[2]) for x in self.values(pol, l[1])]
        if l[0] == "elem":
            i = trans.norm(l[1])
            if i[0] == "v" and pol.lprov.get(i):
                return [y for x in pol.lprov[i] for y in self.expand(pol, x)]
        if l[0] == "d":
            out = []
            for x in self.expand(pol, l[1]):
                if x[0] == "ptr":
                    out += self.values(pol, x[1])
                else:
                    out.append(("at", ("d", x)))
            return out
        return [("at", l)]

    def storedany(self, pol, st, v):
        out = []
        for x in self.expand(pol, v):
            s = [(None, x)] if x[0] == "ptr" else self.stored(pol, st, x)
            if not s:
                return []
            out += s
        return out

    def stored(self, pol, st, v):
        """[(tag, what)]: what the handlers of the tag elements stored where
        v was taken from."""
        path = []
        while v[0] == "fld":
            path.append(v[2])
            v = v[1]
        if v[0] == "at":
            v = v[1]
        if v[0] != "elem":
            return []
        k = keyof(trans.norm(v[1]))
        if k is None:
            return []
        at = (pol.tagof(st, k[0]), k[1])
        if pol.popping and pol.tag == "ncl" and len(path) == 1 and \
                path[0] in self.filled.get(at, {}):
            return [(at[0], x) for x in self.filled[at][path[0]]]
        out = []
        for tag, x, q in self.prov.get(at, []):
            for f in reversed(path):
                x = field(x, f)
            out.append((tag, x))
        return out

    def fills(self, pol, tag, res):
        """Fields that the handler of tag sets in all elements of a list."""
        acc = {}
        for v, st in res:
            if v == ZERO:
                continue
            for e in st.trace:
                if e[0] != "each" or not keyof(trans.norm(e[1])):
                    continue
                i = trans.norm(e[1])
                el, key = keyof(i)
                if el != ("ptr", ELT):
                    continue
                for seg in e[3]:
                    got = {}
                    for x in seg:
                        if x[0] in ("set", "store") and x[1][0] == "f" and \
                                x[1][1][0] == "elem" and \
                                trans.norm(x[1][1][1]) == i:
                            got[x[1][2]] = x[2]
                    old = acc.setdefault((tag, key), None)
                    if old is None:
                        acc[(tag, key)] = {n: {y} for n, y in got.items()}
                    else:
                        acc[(tag, key)] = {n: y | {got[n]}
                                           for n, y in old.items()
                                           if n in got}
        for k, d in acc.items():
            if d:
                self.filled[k] = d

    def objcls(self, pol, st, i):
        """The class of the object with the id i, if there is one for sure."""
        e = idof(i)
        if e == ("ptr", ELT) and not pol.popping:
            return None         # not made yet
        tag = pol.tagof(st, e) if e is not None else None
        if tag in ("context", "switch"):
            return "ginga::" + tag.capitalize()
        if tag != "media":
            return None
        r = st.facts.get(("attr", e, ("str", "refer")))
        if r:
            b = fnv("byid", attr(e, "refer"), ("media",))
            if not st.facts.get(("found", b)):
                return None
            r = st.facts.get(("attr", b, ("str", "refer")))
        return "ginga::Media" if r is False else None

    def popper(self, tag):
        """A policy that stands for the handler that finishes tag."""
        p = CtxPol(self.p, self.g, tag, None)
        p.ctx = self
        p.popping = True
        return p

    def nonnull(self, pol, st, v):
        s = self.storedany(pol, st, v)
        return bool(s) and all(x[0] == "ptr" or x[:2] == ("op", "fn") and
                               x[2] in ("resolveComponent", "object")
                               for t, x in s)

    def domain(self, pol, eng, v):
        if v[0] == "op" and v[1:3] == ("fn", "getType"):
            ts = [self.typeof(pol, eng, d, d != v[3])
                  for d in self.expand(pol, v[3])]
            return None if None in ts else frozenset().union(*ts)
        return None

    def typeof(self, pol, eng, d, listed):
        """The types that the predicate d may have."""
        if d[0] == "at" and d[1][0] == "d":
            d = d[1][1]
        if d[0] == "ptr":
            for e in eng.at.trace:
                if e[0] == "new" and e[2] == d and e[3]:
                    t = e[3][0]
                    if t[0] == "int":
                        return frozenset([t[1]])
                    n = self.fromtable(t)
                    return self.consts[n] if n else None
            return None
        if d[0] == "op" and d[1:3] == ("fn", "data") and \
                d[4] == ("str", "pred"):
            e = d[3]
            t = pol.tagof(eng.at, e)
            tags = pol.ltags[e] if e in pol.ltags and listed else \
                [t] if t is not None else \
                e[4] if e[:3] == ("op", "fn", "byid") else [""]
            ts = [self.types(t) for t in tags]
            return None if None in ts else frozenset().union(*ts)
        return None


class CtxPol(Pol):
    ctx = None

    def nodetags(self, st, node):
        s = self.ctx.storedany(self, st, node)
        if s and all(self.eltof(x) == ("ptr", ELT) for t, x in s):
            return {t for t, x in s}
        return None

    def __init__(self, *a, **kw):
        Pol.__init__(self, *a, **kw)
        self.isdata = lambda e, tag, key: self.ctx.isdata(self, e, tag, key)

    def listed(self, st, i, tags):
        return self.ctx.listed(self, st, i, tags)

    def objcls(self, st, i):
        return self.ctx.objcls(self, st, i)

    def listtags(self, st, e):
        s = self.ctx.stored(self, st, e)
        if s and all(x == ("ptr", ELT) for t, x in s):
            return {t for t, x in s}
        return None

    def listtag(self, st, e):
        tags = self.listtags(st, e)
        if tags and len(tags) == 1:
            return tags.pop()
        return None

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ZERO and x[0] in ("at", "fld") and \
                    self.ctx.nonnull(self, st, x):
                return False
            # a document has a root, a string is not null
            if y == ZERO and x[0] == "op" and x[1] == "fn" and \
                    x[2] in ("xmlDocGetRootElement", "attr", "uri", "genid"):
                return False
            if y == ZERO and self.role and x[0] in ("fld", "at"):
                n = self.fieldname(x)
                if n == "predicate":
                    return self.role["ptype"] is None
        return Pol.assume_eq(self, eng, st, a, b)

    def fieldname(self, v):
        if v[0] == "fld":
            return v[2]
        if v[0] == "at" and v[1][0] == "f":
            return v[1][2]
        return None

    def domain(self, eng, v):
        if self.role:
            n = self.fieldname(v)
            if n in self.role and isinstance(self.role[n], int):
                return frozenset([self.role[n]])
            if v[0] == "op" and v[1:3] == ("fn", "getType") and \
                    self.fieldname(v[3]) == "predicate":
                return frozenset([self.role["ptype"]])
        return self.ctx.domain(self, eng, v)

    def once(self, ident):
        return ident[0] == "op" and ident[1:3] == ("fn", "elements")

    role = None         # what the roles of the connector are


def run(p, g, tag, parent, which, topcls=None, policy=Pol, tweak=None, **kw):
    """Runs the push or pop handler of tag.  [(value, state)]."""
    pol = policy(p, g, tag, parent)
    pol.__dict__.update(kw)
    pol.popping = which == "pop"
    if topcls:
        pol.classes[("o", "top")] = topcls
    eng = Engine(p, pol)
    eng.domain = lambda v: pol.domain(eng, v)
    key = g.tags[tag][which]
    fn = p.fns[key]
    st = State()
    m = st.mem
    m[("f", ST, "_doc")] = ("ptr", DOC)
    m[("f", ST, "_xml")] = ("ptr", XML)
    m[("f", ST, "_error")] = ("int", p.enum(
        "ginga::ParserState::ERROR_NONE"))
    if tweak:
        tweak(pol, st)
    return fn, eng, pol, eng.run(fn, [("ptr", ST), ("ptr", ELT)], st)


def jobs(g, c):
    """Every handler with every context that the grammar admits."""
    out = []
    for tag, e in g.tags.items():
        for which in ("push", "pop"):
            if not e[which] or tag == "ncl" and which == "pop":
                continue
            for par in e["parents"] or [None]:
                for top in sorted(c.top(tag, par, which), key=repr):
                    out.append((tag, par, which, top, {}))
    if g.tags.get("ncl", {}).get("pop"):
        for only, kws in sections(g, c):
            for kw in kws:
                out.append(("ncl", None, "pop", "ginga::Context",
                            dict(kw, only=only)))
    return out


def sections(g, c):
    """The parts of the handler that finishes the document, each with the
    elements that it is about."""
    yield [], [{}]
    yield ["media"], [{}]
    yield ["switch"], [{}]
    opt = [n for n in g.tags["transition"]["attrs"]
           if not g.required("transition", n)]
    yield ["descriptor"], [{"present": {"transition": set(x)}} for x in
                           [()] + [opt] + [[n] for n in opt] +
                           [[m for m in opt if m != n] for n in opt]]
    yield ["link"], roles(c)


def roles(c):
    ev = {n: c.p.enum("ginga::Event::" + n) for n in
          ("ATTRIBUTION", "PRESENTATION", "SELECTION", "LOOKAT")}
    out = []
    for n, e in sorted(ev.items()):
        for cond in (0, 1):
            for t in [None] + (sorted(set().union(*c.consts.values())
                                      | set(range(0, 6)))
                               if cond else []):
                out.append({"role": {"eventType": e, "condition": cond,
                                     "ptype": t}})
    return out


def runjob(p, g, c, job, **more):
    tag, par, which, top, kw = job
    return run(p, g, tag, par, which, top, policy=CtxPol, ctx=c,
               **dict(kw, **more))


def describe(job):
    tag, par, which, top, kw = job
    return "%s of <%s>%s%s" % (
        which, tag, " in <%s>" % par if par else "",
        "".join(" with " + x for x in
                [" ".join(kw.get("only", []))] if x))


_S = {}


def _one(p, a):
    import time
    view, job, more = a
    t = time.time()
    fn, eng, pol, res = runjob(p, _S["g"], _S["c"], job, **more)
    return (view(fn, eng, pol, res, job), len(res), eng,
            {"t": time.time() - t, "unknown": dict(eng.unknown)})


def context(ctx):
    g = Grammar(ctx.p)
    c = Context(ctx.p, g)
    ctx.saw(c.analysed)
    return g, c


def sweep(ctx, view, pick=None, **more):
    """[(job, what view returned)] for every handler in every context."""
    import links
    g, c = context(ctx)
    _S.update(g=g, c=c)
    js = [j for j in jobs(g, c) if pick is None or pick(j)]
    out = []
    for r, j in zip(links.parallel(ctx, _one, [(view, j, more)
                                               for j in js]), js):
        ctx.count("cases")
        ctx.count("paths", r[1])
        import os
        if os.environ.get("T"):
            print("%.1f" % r[3]["t"], describe(j), j[4])
        out.append((j, r[0]))
    return g, c, out


class ServPol(CtxPol):
    """For the services that resolve references."""
    popping = True

    def service(self, eng, st, c, n, a):
        if n == "resolveComponent":
            bad = st.copy()
            st.emit(n, a[0], a[1])
            bad.emit(n, a[0], a[1])
            self.err(eng, bad, n)
            out = [(ZERO, bad)]
            for cls in ("", "ginga::Context", "ginga::Switch",
                        "ginga::Media"):
                s = st.copy()
                v = a[0] if not cls else fnv("object", cls, "component",
                                             a[1])
                if cls:
                    s.facts[("ne", v)] = frozenset({ZERO})
                self.set(eng, s, a[2], v)
                out.append((ONE, s))
            return out
        return CtxPol.service(self, eng, st, c, n, a)

    def model(self, eng, st, c, n, a):
        if n in ("getChildByIdOrAlias", "getChildById"):
            v = fnv(n, c.recv, *a)
            return [(v, st)]
        return CtxPol.model(self, eng, st, c, n, a)

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x == ("ptr", ("o", "top")) and y[:3] == (
                    "op", "fn", "object") and y[4] == "component":
                return False
        return CtxPol.assume_eq(self, eng, st, a, b)


OUT = ("o", "out")
SCOPE = ("ptr", ("o", "top"))


def nodefields(pol, st, tag, parent):
    e = ("ptr", ELT)
    for x, t in ((e, tag), (("ptr", PAR), parent)):
        n = pol.node(x)[1]
        if t is not None:
            st.mem[("f", n, "name")] = ("str", t)
            st.mem[("f", n, "parent")] = pol.node(
                pol.parents.get(x, fnv("parentof", x)))


def runserv(p, g, c, name, args, tag=None, parent=None, scope=None,
            tweak=None, policy=ServPol, **kw):
    pol = policy(p, g, tag, parent)
    pol.ctx = c
    pol.__dict__.update(kw)
    if scope:
        pol.classes[("o", "top")] = scope
    eng = Engine(p, pol)
    eng.domain = lambda v: pol.domain(eng, v)
    fn = service(p, name)
    st = State()
    m = st.mem
    m[("f", ST, "_doc")] = ("ptr", DOC)
    m[("f", ST, "_xml")] = ("ptr", XML)
    m[("f", ST, "_error")] = ("int", p.enum(
        "ginga::ParserState::ERROR_NONE"))
    nodefields(pol, st, tag, parent)
    if tweak:
        tweak(pol, st)
    return fn, eng, pol, eng.run(fn, list(args), st, this=("ptr", ST))


def service(p, name):
    from prog import AnchorGone
    fs = [f for f in p.fns.values() if f.q == P + name]
    if len(fs) != 1:
        raise AnchorGone("%d functions %s" % (len(fs), name))
    return fs[0]


def referrers(g):
    return [t for t in g.tags if "component" in g.tags[t]["attrs"]
            or "constituent" in g.tags[t]["attrs"]]


def scopes(tag):
    return ["ginga::Switch"] if tag in ("mapping", "bindRule",
                                        "defaultComponent") else \
        ["ginga::Context"]


def resolvers(g):
    """The calls of the services that resolve references."""
    out = []
    for name in ("resolveComponent", "resolveInterface"):
        for tag in referrers(g):
            for par in g.tags[tag]["parents"] or [None]:
                for sc in ("ginga::Context", "ginga::Switch"):
                    out.append((name, tag, par, sc))
    return out
