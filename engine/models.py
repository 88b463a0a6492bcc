"""Models of the standard library, GLib and repository utility functions that
the dataflow engine knows.  call() returns None for an unknown function."""
import re

from absint import (ZERO, ONE, MAXSIZE, iscont, isstring, vsize, mentions,
                    mentions_iter, char)

VOID = ("sym", "void")

# repository helpers whose result is a function of their arguments only
PURE = {
    "ginga::xstrbuild", "ginga::__ginga_strfunc", "ginga::xstrstrip",
    "ginga::xstrup", "ginga::xpathbasename", "ginga::xpathdirname",
}
PURELIB = {
    "std::to_string", "round", "lround", "floor", "fabs", "abs", "ceil",
    "std::stod", "g_strtod", "g_ascii_strtod", "std::abs", "memcmp", "atoi", "atof", "strtol",
}
NOEFFECT = {
    "g_free", "g_print", "g_printerr", "g_log_structured", "fprintf",
    "printf", "fputs", "puts", "fflush", "fputc", "signal", "setlocale",
    "g_debug", "g_assertion_message_dummy",
}
FATAL = {"g_assertion_message", "g_assertion_message_expr",
         "g_assertion_message_cmpnum", "g_assertion_message_cmpstr",
         "g_assertion_message_error", "__assert_fail"}


def pure(eng, st, c, name=None):
    av = tuple(eng.rv(st, a) for a in c.args)
    v = ("op", "fn", name or c.q) + av
    if vsize(v) > 3 * MAXSIZE:
        v = ("sym", "fn", name or c.q, hash(v))
    return [(v, st)]


def recvloc(eng, st, c):
    r = c.recv
    if isinstance(r, tuple):
        if r[0] == "ptr":
            return r[1]
        if r[0] == "loc":
            return r[1]
        if r[0] in ("cur", "rcur", "find", "at", "fld", "ret", "out", "sym",
                    "op"):
            return ("d", r)
    return None


def call(eng, st, c):
    q = c.q or ""
    name = c.name
    if name in FATAL or q in FATAL:
        eng.aborts += 1
        eng.pol.abort(eng, st, c.fn, c.nid, name)
        return []
    if q in PURE or q in PURELIB:
        return pure(eng, st, c)
    if q in NOEFFECT or name in ("g_print", "g_printerr"):
        return [(VOID, st)]
    if q in ("ginga::xstrcasecmp", "g_ascii_strcasecmp"):
        a, b = [lower(eng.rv(st, x)) for x in c.args[:2]]
        return [(cmpval(eng, st, a, b), st)]
    if q in ("strcmp", "g_strcmp0"):
        a, b = [eng.rv(st, x) for x in c.args[:2]]
        return [(cmpval(eng, st, a, b), st)]
    if q in ("ginga::xstrhasprefix", "ginga::xstrhassuffix",
             "g_str_has_prefix", "g_str_has_suffix"):
        a, b = [eng.rv(st, x) for x in c.args[:2]]
        if a[0] == "str" and b[0] == "str":
            r = (a[1].startswith if "prefix" in q else a[1].endswith)(b[1])
            return [(ONE if r else ZERO, st)]
        if b[0] == "str" and len(b[1]) == 1 and "prefix" in q:
            return [(eng.mkeq(st, ("op", "idx", a, ZERO),
                              ("int", ord(b[1]))), st)]
        return pure(eng, st, c)
    if q in ("g_str_equal",):
        a, b = [eng.rv(st, x) for x in c.args[:2]]
        return [(eng.mkeq(st, a, b), st)]
    if q in ("g_strdup", "g_strdup_inline", "g_strchomp", "g_strchug", "std::move", "std::forward", "g_strdup_printf"):
        if q == "g_strdup_printf":
            return pure(eng, st, c)
        return [(c.args[0] if c.args[0][0] == "loc"
                 else eng.rv(st, c.args[0]), st)]
    if q in ("strlen",):
        a = eng.rv(st, c.args[0])
        if a[0] == "str":
            return [(("int", len(a[1])), st)]
        return [(("op", "len", a), st)]
    if q == "std::make_pair":
        a, b = [eng.rv(st, x) for x in c.args[:2]]
        return [(eng.mkpair(a, b), st)]
    if q in ("std::begin", "std::end", "std::next", "std::prev"):
        if q in ("std::begin", "std::end"):
            l = c.args[0][1] if c.args[0][0] == "loc" else None
            if l is not None:
                return iters(eng, st, c, l, q[5:])
        return pure(eng, st, c)
    if q == "std::advance":
        it = eng.rv(st, c.args[0])
        if it[0] in ("cur", "rcur"):
            eng.advance(st, it)
        elif c.args[0][0] == "loc":
            eng.store(st, c.args[0][1],
                      ("op", "advance", it, eng.rv(st, c.args[1])))
        return [(VOID, st)]
    if q in ("std::min", "std::max"):
        a, b = [eng.rv(st, x) for x in c.args[:2]]
        if a[0] in ("int", "flt") and b[0] in ("int", "flt"):
            r = (min if q == "std::min" else max)((a[1], a), (b[1], b))[1]
            return [(r, st)]
        out = []
        cond = eng.mklt(st, b, a)
        for t, s in eng.truth(st, cond):
            eng.pol.branch(eng, s, c.fn, c.nid, cond, t)
            less = b if t else a
            more = a if t else b
            out.append((less if q == "std::min" else more, s))
        return out
    if q.startswith("std::"):
        alg = ALGS.get(q)
        if alg is not None and len(c.args) >= 2:
            return algorithm(eng, st, c, alg)
    cls = c.cls or ""
    if cls.startswith("std::basic_string<"):
        return string(eng, st, c)
    if iscont(cls):
        return container(eng, st, c)
    if cls.startswith("std::pair<") and name == "operator=":
        l = recvloc(eng, st, c)
        if l is not None:
            eng.store(st, l, eng.rv(st, c.args[0]))
            return [(("loc", l), st)]
    if cls.startswith("std::initializer_list<"):
        l = recvloc(eng, st, c)
        x = st.mem.get(l) if l is not None else None
        if x is not None and x[0] == "tuple" and \
                name in ("begin", "end", "size"):
            n = ("int", len(x[1]))
            st.mem[("o", "il", l)] = x
            l = ("o", "il", l)
            return [(n if name == "size" else ("ptr", l) if name == "begin"
                     else eng.arith("+", ("ptr", l), n), st)]
        v = ("op", "il", c.recv)
        if name == "begin":
            return begin(eng, st, c, ("d", v), "cur")
        if name == "end":
            return [(("end", v), st)]
    return None


def lower(v):
    if v[0] == "str":
        return ("str", v[1].lower())
    if v[0] == "op" and v[1] == "lower":
        return v
    return ("op", "lower", v)


def cmpval(eng, st, a, b):
    if a[0] == "str" and b[0] == "str":
        return ("int", (a[1] > b[1]) - (a[1] < b[1]))
    if a == b:
        return ZERO
    return ("op", "cmp", a, b)


def string(eng, st, c):
    name = c.name
    l = recvloc(eng, st, c)
    if c.recv is not None and c.recv[0] not in ("ptr", "loc"):
        v = c.recv
    else:
        v = eng.load(st, l) if l is not None else ("sym", "str")
    v = eng.subst(st, v)
    if v[0] == "loc":
        v = eng.rv(st, v)
    a = [eng.rv(st, x) for x in c.args]
    k = v[0] == "str"
    if name in ("c_str", "data"):
        return [(v, st)]
    if name == "empty":
        return [(eng.mkeq(st, v, ("str", "")), st)]
    if name in ("length", "size"):
        if k:
            return [(("int", len(v[1])), st)]
        return [(("op", "len", v), st)]
    if name == "compare" and len(a) == 1:
        return [(cmpval(eng, st, v, a[0]), st)]
    if name in ("front", "back"):
        if k and v[1]:
            return [(("int", ord(v[1][0 if name == "front" else -1])), st)]
        if name == "front":
            return [(("op", "idx", v, ZERO), st)]
        return [(("op", name, v), st)]
    if name in ("at", "operator[]"):
        return [(("op", "idx", v) + tuple(a), st)]
    if name in ("find", "rfind", "find_last_of", "find_first_of", "substr",
                "find_first_not_of", "find_last_not_of"):
        if k and all(x[0] in ("int", "str") for x in a):
            s = v[1]
            if name == "substr":
                p = a[0][1] if a else 0
                n = a[1][1] if len(a) > 1 else -1
                if n < 0 or n > len(s):
                    n = len(s)
                return [(("str", s[p:p + n]), st)]
            if name == "find" and a[0][0] == "str":
                i = s.find(a[0][1], *[x[1] for x in a[1:2]])
                return [(("int", i if i >= 0 else 2 ** 64 - 1), st)]
        if name == "substr" and len(a) == 2 and a[0][0] == "int" and (
                a[1] == ("int", 2 ** 64 - 1) or a[1] == (
                    "op", "-", ("op", "len", v), a[0])):
            a = a[:1]           # all the rest
        return pureop(("op", name, v) + tuple(a), st)
    if name in ("assign", "operator="):
        if l is not None:
            nv = a[0] if len(a) == 1 else ("op", "mkstr") + tuple(a)
            eng.store(st, l, nv)
            eng.pol.store(eng, st, l, nv, c.fn, c.nid)
        return [(c.recv if c.recv[0] == "loc" else ("loc", l), st)]
    if name in ("push_back", "append", "pop_back", "clear", "erase",
                "insert", "resize", "replace"):
        if name == "clear":
            nv = ("str", "")
        elif name in ("append", "push_back") and len(a) == 1:
            x = char(a[0])
            nv = ("str", v[1] + x[1]) if k and x[0] == "str" else \
                x if v == ("str", "") else v if x == ("str", "") else \
                ("op", "cat", v, x)
        elif name == "erase" and len(a) == 2 and a[0] == ZERO and \
                a[1][0] == "int" and a[1][1] > 0:
            nv = ("op", "substr", v, a[1])
        else:
            nv = ("op", name, v) + tuple(a)
        if vsize(nv) > 4 * MAXSIZE:
            nv = ("sym", "strop", c.fn.key, c.nid)
        if l is not None:
            eng.store(st, l, nv)
            eng.pol.store(eng, st, l, nv, c.fn, c.nid)
            return [(("loc", l), st)]
        return [(VOID, st)]
    if name == "swap" and l is not None and c.args[0][0] == "loc":
        o = c.args[0][1]
        for x, w in ((l, a[0]), (o, v)):
            eng.store(st, x, w)
            eng.pol.store(eng, st, x, w, c.fn, c.nid)
        return [(VOID, st)]
    if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend"):
        if l is not None:
            return iters(eng, st, c, l, name)
    return pureop(("op", "str." + name, v) + tuple(a), st)


def pureop(v, st):
    if vsize(v) > 3 * MAXSIZE:
        v = ("sym", "big", hash(v))
    return [(v, st)]


def begin(eng, st, c, loc, kind):
    ident = eng.ident(st, ("loc", loc))
    site = (c.fn.key, c.nid)
    cur = (kind, ident, site)
    # a fresh iteration
    st.facts.pop(("open", kind, ident, site), None)
    st.facts.pop(("begun", kind, ident, site), None)
    eng.forget(st, lambda v: mentions_iter(v, ident, site))
    return [(cur, st)]


def iters(eng, st, c, loc, name):
    if name in ("begin", "cbegin"):
        return begin(eng, st, c, loc, "cur")
    if name in ("rbegin", "crbegin"):
        return begin(eng, st, c, loc, "rcur")
    return [(("end", eng.ident(st, ("loc", loc))), st)]


def has(eng, st, ident, key):
    """[(bool, state)]: does the container hold key?"""
    cv = st.mem.get(ident)
    if isinstance(cv, tuple) and cv[0] == "cont" and cv[1] == "empty":
        return [(False, st)]
    if st.facts.get(("empty", ident)) is True:
        return [(False, st)]
    k = ("has", ident, key)
    if k in st.facts:
        return [(st.facts[k], st)]
    t = st.copy()
    t.facts[k] = True
    st.facts[k] = False
    return [(True, t), (False, st)]


def emptiness(eng, st, loc):
    ident = eng.ident(st, ("loc", loc))
    cv = st.mem.get(loc)
    if isinstance(cv, tuple) and cv[0] == "cont":
        if cv[1] == "empty":
            return ONE
        if cv[1] == "some":
            return ZERO
    e = st.facts.get(("empty", ident))
    if e is not None:
        return ONE if e else ZERO
    return ("op", "==", ("op", "size", ident), ZERO)


def setfind(eng, st, ident, key):
    return ("find", ident, key)


def container(eng, st, c):
    name = c.name
    l = recvloc(eng, st, c)
    if l is None:
        return None
    # a reference or pointer parameter
    v = st.mem.get(l)
    if isinstance(v, tuple) and v[0] == "loc":
        l = v[1]
    ident = eng.ident(st, ("loc", l))
    if name in ("empty", "front", "back", "pop_front", "pop_back", "begin",
                "end", "rbegin", "rend", "size", "clear"):
        for side in ("front", "back"):
            popnext(eng, st, popcur(ident, side))
    if name == "empty":
        for side in ("front", "back"):
            a = popcur(ident, side)
            if st.facts.get(("begun",) + a) and not st.facts.get(
                    ("empty", ident)) and not st.facts.get(("open",) + a):
                return popend(eng, st, l, ident, a)
        return [(emptiness(eng, st, l), st)]
    if name == "size":
        for side in ("front", "back"):
            a = popcur(ident, side)
            if st.facts.get(("begun",) + a) and not st.facts.get(
                    ("empty", ident)) and not st.facts.get(("open",) + a):
                return [(ZERO if v == ONE else ("op", "size+", ident), s)
                        for v, s in popend(eng, st, l, ident, a)]
    if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend",
                "crbegin", "crend"):
        return iters(eng, st, c, l, name)
    if name == "size":
        e = emptiness(eng, st, l)
        if e == ONE:
            return [(ZERO, st)]
        return [(("op", "size", ident), st)]
    if name == "find":
        return [(("find", ident, eng.rv(st, c.args[0])), st)]
    if name == "count":
        key = eng.rv(st, c.args[0])
        return [(ONE if b else ZERO, s)
                for b, s in has(eng, st, ident, key)]
    if name == "at":
        key = eng.rv(st, c.args[0])
        out = []
        for b, s in has(eng, st, ident, key):
            if b:
                out.append((("loc", ("elem", ident, ("find", ident, key))),
                            s))
            else:
                eng.pol.abort(eng, s, c.fn, c.nid, "at() of a missing key")
        return out
    if name in ("front", "back"):
        el = ("elem", ident, (name,))
        if not isstale(st, eng.value(st, el)) and (
                el in st.mem or any(x[0] == "f" and eng.under(x, el)
                                    for x in st.mem)):
            return [(("loc", el), st)]
        a = popcur(ident, name)
        popopen(eng, st, a)
        distinct(eng, st, eng.value(st, el), ("elem", ident, a))
        return [(("loc", ("elem", ident, a)), st)]
    if name in ("push_back", "push_front", "insert", "emplace_back",
                "emplace", "insert_or_assign", "emplace_front"):
        args = [eng.rv(st, a) for a in c.args]
        ismap = "map<" in (c.cls or "")[:20]
        isset = "set<" in (c.cls or "")[:20]
        if len(args) == 2 and (
                ismap and name == "emplace" or
                name in ("emplace_back", "emplace_front") and
                re.match(r"(std::)?\w+<(std::)?pair<", c.cls or "")):
            args = [eng.mkpair(*args)]
        facts = {k: v for k, v in st.facts.items()
                 if k[0] == "has" and k[1] == ident}
        was = emptiness(eng, st, l)
        wasempty = was == ONE
        how = "some"
        if (isset or ismap) and len(args) == 1 and used(c):
            key = args[0] if isset else eng.field(args[0], "first")
            out = []
            for b, s in has(eng, st, ident, key):
                if not b:
                    eng.pol.put(eng, s, c, ident, args)
                    eng.touch(s, l, "some")
                    n = eng.ident(s, ("loc", l))
                    for k, v in facts.items():
                        s.facts[("has", n, k[2])] = v
                    s.facts[("has", n, key)] = True
                    if ismap:
                        e = ("elem", n, ("find", n, key))
                        eng.store(s, ("f", e, "second"),
                                  eng.field(args[0], "second"))
                n = eng.ident(s, ("loc", l))
                out.append((("struct", ("sym", "inserted", n), (
                    (("first",), ("find", n, key)),
                    (("second",), ZERO if b else ONE))), s))
            return out
        eng.pol.put(eng, st, c, ident, args)
        if len(args) >= 2 and args[-1][0] == "end" and \
                args[-2][0] in ("cur", "rcur") and args[-1][1] != ident:
            how = joined(eng, st, was, ("v", args[-1][1]))
        eng.touch(st, l, how)
        new = eng.ident(st, ("loc", l))
        eng.forget(st, lambda v: mentions(v, ("elem", new, ("back",)))
                   or mentions(v, ("elem", new, ("front",))))
        for k, v in facts.items():
            if v or not (isset or ismap):
                st.facts[("has", new, k[2])] = v
        if isset and len(args) == 1:
            st.facts[("has", new, args[0])] = True
        if ismap and len(args) == 1 and args[0][0] == "struct":
            st.facts[("has", new, eng.field(args[0], "first"))] = True
        if name == "push_back" and args and (
                ident[0] != "v" or ends(c.fn, ident, "back")):
            eng.store(st, ("elem", new, ("back",)), args[0])
        if name == "push_front" and args and (
                ident[0] != "v" or ends(c.fn, ident, "front")):
            eng.store(st, ("elem", new, ("front",)), args[0])
        if wasempty and args and name in ("push_back", "push_front") and \
                (ident[0] != "v" or ends(c.fn, ident, "front") or
                 ends(c.fn, ident, "back")):
            eng.store(st, ("elem", new, ("back",)), args[0])
            eng.store(st, ("elem", new, ("front",)), args[0])
        return [(("sym", "inserted", new), st)]
    if name in ("pop_back", "pop_front"):
        a = popcur(ident, name[4:])
        el = ("elem", ident, (name[4:],))
        if not (el in st.mem or any(x[0] == "f" and eng.under(x, el)
                                    for x in st.mem)) or \
                isstale(st, eng.value(st, el)):
            popopen(eng, st, a)
        if st.facts.get(("open",) + a):
            st.facts[("popped",) + a] = True
        eng.touch(st, l, "any")
        new = eng.ident(st, ("loc", l))
        eng.forget(st, lambda v: mentions(v, ("elem", new, ("back",)))
                   or mentions(v, ("elem", new, ("front",))))
        st.facts.pop(("empty", new), None)
        return [(VOID, st)]
    if name == "clear":
        eng.touch(st, l, "empty")
        return [(VOID, st)]
    if name == "erase":
        it = eng.rv(st, c.args[0])
        ncur = None
        if it[0] in ("cur", "rcur"):
            # the erased element; the result stands at its successor
            eng.advance(st, it)
            return [(it, st)]
        key = it[2] if it[0] == "find" else it
        old = eng.ident(st, ("loc", l))
        eng.touch(st, l, "any")
        new = eng.ident(st, ("loc", l))
        st.facts[("has", new, key)] = False
        return [(("sym", "erased", new), st)]
    if name in ("swap", "splice", "merge", "remove", "remove_if", "sort",
                "reverse", "unique", "resize", "assign"):
        if name == "remove_if" and len(c.args) == 1:
            lam = eng.rv(st, c.args[0])
        how = "any"
        was = emptiness(eng, st, l)
        if name in ("sort", "reverse", "unique"):
            how = {ONE: "empty", ZERO: "some"}.get(was, "any")
        for a in c.args:
            if a[0] == "loc" and iscont_val(eng, st, a[1]):
                if name in ("splice", "merge"):
                    how = joined(eng, st, was, a)
                eng.touch(st, a[1], "empty" if name in ("splice", "merge")
                          and len(c.args) < 3 else "any")
        eng.touch(st, l, how)
        new = eng.ident(st, ("loc", l))
        eng.forget(st, lambda v: mentions(v, ("elem", new, ("back",)))
                   or mentions(v, ("elem", new, ("front",))))
        return [(VOID, st)]
    if name == "operator=":
        return None
    if name in ("list", "map", "set", "vector"):
        return None
    return None


_ends = {}


def ends(fn, ident, side):
    """May the function look at that end of its variable?"""
    names = {"front": ("front", "pop_front"),
             "back": ("back", "pop_back")}[side]
    r = _ends.get(fn.key)
    if r is None:
        r = _ends[fn.key] = {}
        for nd in fn.nodes:
            m = nd.get("m")
            if m in ("front", "pop_front", "back", "pop_back"):
                vs = {fn.nodes[x].get("d", {}).get("id")
                      for x in fn.walk(nd["c"][0])} if nd.get("c") else set()
                r.setdefault(m, set()).update(vs)
    return any(ident[1] in r.get(n, ()) for n in names)


def used(c):
    """Is the result of the call used?"""
    n = c.nid
    par = c.fn.parents()
    while True:
        ps = par.get(n, [])
        if not ps:
            return False
        k = c.fn.nodes[ps[0]]["k"]
        if k in ("ExprWithCleanups", "ParenExpr", "CXXBindTemporaryExpr",
                 "MaterializeTemporaryExpr"):
            n = ps[0]
            continue
        return k not in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt",
                         "CXXForRangeStmt", "SwitchStmt", "CaseStmt",
                         "DefaultStmt", "DoStmt", "LabelStmt")


def joined(eng, st, was, src):
    """How full a container is after the elements of src were added."""
    if was == ZERO:
        return "some"
    e = emptiness(eng, st, src[1])
    if e == ZERO:
        return "some"
    if e == ONE and was == ONE:
        return "empty"
    return "any"


def iscont_val(eng, st, l):
    v = st.mem.get(l)
    return isinstance(v, tuple) and v[0] == "cont"


# -- iterations that consume their container --------------------------------
def popcur(ident, side):
    return ("cur" if side == "front" else "rcur", ident, ("pop", side))


def popopen(eng, st, a):
    if st.facts.get(("open",) + a):
        return
    st.facts[("open",) + a] = True
    st.facts[("begun",) + a] = True
    st.trace = st.trace + (("it", a[1], a[2], a[0]),)
    eng.pol.element(eng, st, a)


def popnext(eng, st, a):
    """The element taken out is left behind."""
    if st.facts.pop(("popped",) + a, None):
        eng.advance(st, a)


def popend(eng, st, l, ident, a):
    """empty() in an iteration that takes the elements out."""
    cv = st.mem.get(l)
    known = st.facts.get(("empty", ident))
    if known is None and isinstance(cv, tuple) and cv[0] == "cont":
        known = {"empty": True, "some": False}.get(cv[1])
    out = []
    if known is not True:
        t = st.copy()
        out.append((ZERO, t))
    if known is not False:
        st.facts.pop(("begun",) + a, None)
        st.facts[("empty", ident)] = True
        eng.closeiter(st, a)
        out.append((ONE, st))
    return out


def distinct(eng, st, v, l):
    """l has the value v, in which what an iteration was at is not what it is
    at now."""
    if not isinstance(v, tuple):
        return
    if v[0] == "struct":
        for p, y in v[2]:
            m = l
            for n in p:
                m = ("f", m, n)
            distinct(eng, st, y, m)
    if v[0] == "ptr" and v[1][0] == "elem" and v[1][2][0] == "was":
        for k in ("cur", "rcur"):
            a = (k,) + v[1][2][1:]
            if st.facts.get(("open",) + a):
                e = eng.mkeq(st, eng.load(st, l), ("ptr", ("elem", a[1], a)))
                if e[:2] == ("op", "=="):
                    st.facts[("eq",) + e[2:]] = False


def isstale(st, v):
    """Is v only known to come from some iteration?"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] in ("cur", "rcur") and \
                st.facts.get(("open",) + v):
            return isstale(st, v[1])
        if len(v) == 3 and v[0] in ("was", "cur", "rcur"):
            return True
        return any(isstale(st, x) for x in v if isinstance(x, tuple))
    return False


# -- algorithms over iterator ranges ---------------------------------------
ALGS = {"std::for_each": "for_each", "std::any_of": "any_of",
        "std::all_of": "all_of", "std::none_of": "none_of",
        "std::find_if": "find_if", "std::count_if": "count_if",
        "std::find": "find", "std::count": "count"}


def algorithm(eng, st, c, alg):
    cur = eng.rv(st, c.args[0])
    if cur[0] not in ("cur", "rcur") or eng.rv(st, c.args[1])[0] != "end":
        return None
    f = eng.rv(st, c.args[2])
    if alg in ("find", "count"):
        ident = cur[1]
        if alg == "find":
            return [(("find", ident, f), st)]
        return [(ONE if b else ZERO, s) for b, s in has(eng, st, ident, f)]
    if f[0] != "lam":
        return None
    results = []
    seen = set()
    work = [st]
    while work:
        s = work.pop()
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        for atend, s1 in eng.iterend(s, cur):
            if atend:
                r = {"for_each": VOID, "any_of": ZERO, "all_of": ONE,
                     "none_of": ONE, "find_if": ("end", cur[1]),
                     "count_if": ("sym", "count_if", c.nid)}[alg]
                results.append((r, s1))
                continue
            arg = ("loc", eng.deref(s1, cur))
            for rv, s2 in eng.calllam(s1, f, [arg]):
                if alg in ("for_each", "count_if"):
                    eng.advance(s2, cur)
                    work.append(s2)
                    continue
                for t, s3 in eng.truth(s2, rv if rv is not None else ZERO):
                    stop = t if alg in ("any_of", "none_of", "find_if") \
                        else not t
                    if stop:
                        r = {"any_of": ONE, "all_of": ZERO, "none_of": ZERO,
                             "find_if": cur}[alg]
                        results.append((r, s3))
                    else:
                        eng.advance(s3, cur)
                        work.append(s3)
    return results
