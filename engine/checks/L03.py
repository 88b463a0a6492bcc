"""Path-sensitive dataflow over Document::evalPredicate, for every type of
predicate and every comparator, with the operands and the results of the
children left open, and over Document::evalPropertyRef; the values the paths
return are compared, as terms, with the meaning of the predicate."""
import terms
import trans
import pp
from absint import Engine, State, ZERO, ONE

PR, RES = ("o", "pred"), ("o", "result")
LEFT, RIGHT = ("sym", "left"), ("sym", "right")
KIDS = trans.fld(PR, "_children")
TESTS = {"EQ": "==", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">",
         "GE": ">="}
ORDERS = (("a", "b"), ("a", "a"), ("b", "a"))
BYID = "ginga::Document::getObjectByIdOrAlias"
GETP = "ginga::Object::getProperty"


class Pol(trans.TransPolicy):
    def watch(self, ident):
        return trans.norm(ident) == KIDS

    def store(self, eng, st, loc, val, fn, nid):
        if loc == RES:
            st.emit("store", loc, val)

    def call(self, eng, st, c):
        if c.q == "ginga::Document::evalPredicate" and not eng.stack:
            return None
        return trans.TransPolicy.call(self, eng, st, c)


class RefPol(Pol):
    def call(self, eng, st, c):
        if c.q in (BYID, GETP):
            return [(("op", "fn", c.q, c.recv) + self.vals(eng, st, c), st)]
        return None


def predicate(ctx, ty, test):
    p = ctx.p
    st = State()
    st.mem[("f", PR, "_type")] = ("int", p.enum("ginga::Predicate::" + ty))
    atom = ("f", PR, "_atom")
    st.mem[("f", atom, "test")] = ("int", p.enum("ginga::Predicate::" + test))
    st.mem[("f", atom, "left")] = LEFT
    st.mem[("f", atom, "right")] = RIGHT
    pol = Pol(p, None)
    eng = Engine(p, pol)
    fn = p.fn1("ginga::Document::evalPredicate")
    res = eng.run(fn, [("ptr", PR)], st, ("ptr", trans.DOC))
    ctx.saw(eng.analysed)
    ctx.count("dataflow_states", eng.steps)
    ctx.count("paths", len(res))
    ctx.require(len(res) + len(pol.aborts), 1, "paths of evalPredicate")
    for f, n, what, s in pol.aborts:
        ctx.violation("%s aborts" % ty, "%s: evaluating a predicate of type "
                      "%s aborts (%s)" % (f.where(n), ty, what),
                      pp.trace(s.trace))
    return fn, eng, res


def bad(ctx, fn, ty, what, v, s):
    ctx.violation("%s %s" % (ty, what), "%s: predicate %s: %s (returns %s)"
                  % (fn.where(), ty, what, pp.val(v)), "facts: %s\npath: %s"
                  % ("; ".join(pp.facts(s.facts)), pp.trace(s.trace)))


def constant(ctx, ty, want):
    fn, eng, res = predicate(ctx, ty, "EQ")
    for v, s in res:
        if v != want:
            bad(ctx, fn, ty, "is not constant", v, s)


def connective(ctx, ty, unit, absorb):
    """All children `unit`: not absorb; some child not: absorb."""
    fn, eng, res = predicate(ctx, ty, "EQ")
    for v, s in res:
        kids = [e for e, i in trans.flat(s.trace) if e[0] == "pred"]
        hit = [e for e in kids if e[2] != unit]
        for e in kids:
            if not trans.elemof(e[1], KIDS):
                bad(ctx, fn, ty, "evaluates %s" % pp.val(e[1]), v, s)
        if hit:
            if v != absorb:
                bad(ctx, fn, ty, "some child is %s" % (not unit), v, s)
        else:
            ok, why = trans.foreach(
                eng, s, s.trace, KIDS,
                lambda seg: any(e[0] == "pred" for e in seg))
            if v == absorb:
                bad(ctx, fn, ty, "no child is %s" % (not unit), v, s)
            elif not ok:
                bad(ctx, fn, ty, why, v, s)


def operand(s, x):
    """The value compared for the operand x on path s, and whether the path
    may leave a reference unresolved."""
    r = s.facts.get(("resolves", x))
    if r:
        return ("op", "fn", "resolve", x), True
    if r is False:
        return x, True
    ne = s.facts.get(("ne", ("op", "idx", x, ZERO)), ())
    return x, ("int", ord("$")) in ne


def compare(ctx, test):
    fn, eng, res = predicate(ctx, "ATOM", test)
    ty = "atom " + TESTS[test]
    for v, s in res:
        l, lok = operand(s, LEFT)
        r, rok = operand(s, RIGHT)
        if not lok or not rok:
            bad(ctx, fn, ty, "a reference is not resolved", v, s)
            continue
        for a, b in ORDERS:
            env = {l: a, r: b}
            for x in (LEFT, RIGHT):
                env.setdefault(x, "unresolved")
                env.setdefault(("op", "idx", x, ZERO), None)
                env.setdefault(("op", "fn", "resolve", x), "other")
            f = {k: w for k, w in s.facts.items()
                 if not (k[0] in ("val", "ne") and k[1][1] == "idx")}
            if not terms.holds(f, env):
                continue
            want = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                    ">": a > b, ">=": a >= b}[TESTS[test]]
            try:
                got = terms.ev(v, env)
            except terms.Opaque as e:
                ctx.undecided.append("%s: value %s" % (ty, pp.val(v)))
                continue
            if bool(got) != want:
                bad(ctx, fn, ty, "wrong for operands that compare %s" % (
                    "<" if a < b else ">" if a > b else "equal"), v, s)


SAMPLES = [("$a.b", "a", "b"), ("$object.prop", "object", "prop"),
           ("$x.y.z", "x", "y.z"), ("$n.", "n", ""), ("a.b", None, None),
           ("$ab", None, None), ("", None, None), ("ab", None, None)]


def references(ctx):
    p = ctx.p
    pol = RefPol(p, None)
    eng = Engine(p, pol)
    fn = p.fn1("ginga::Document::evalPropertyRef")
    REF = ("sym", "ref")
    res = eng.run(fn, [REF, ("ptr", RES)], State(), ("ptr", trans.DOC))
    ctx.saw(eng.analysed)
    ctx.count("paths", len(res))
    ctx.require(len(res), 2, "paths of evalPropertyRef")

    def fail(what, v, s):
        ctx.violation("ref " + what, "%s: property reference: %s" % (
            fn.where(), what), "facts: %s\npath: %s" % (
                "; ".join(pp.facts(s.facts)), pp.trace(s.trace)))
    for s_, oid, name in SAMPLES:
        env = {REF: s_}
        env[("fn", BYID)] = lambda d, i: ("object", i)
        env[("fn", GETP)] = lambda o, n: ("property", o, n)
        hit = 0
        for v, s in res:
            obj = None      # is the object missing on this path
            f = dict(s.facts)
            for k, w in s.facts.items():
                if k[0] in ("val", "ne") and k[1][:3] == ("op", "fn", BYID):
                    obj = k[0] == "val"
                    f.pop(k)
            try:
                if not terms.holds(f, env):
                    continue
                st = [e for e in s.trace if e[0] == "store"]
                if v == ZERO:
                    if st:
                        fail("%r is refused but sets the result" % s_, v, s)
                    if oid is not None and not obj:
                        fail("%r is not resolved" % s_, v, s)
                    continue
                if oid is None:
                    fail("%r is taken for a reference" % s_, v, s)
                    continue
                hit += 1
                if len(st) != 1:
                    fail("%r resolves to nothing" % s_, v, s)
                    continue
                got = terms.ev(st[0][2], env)
                if got != ("property", ("object", oid), name):
                    fail("%r resolves to %r" % (s_, got), v, s)
            except terms.Opaque as e:
                ctx.undecided.append("reference %r: %s" % (s_, e))
        ctx.count("reference_shapes")


def check(ctx):
    ctx.rule("false/true are constant; a comparison compares the operands, "
             "property references replaced by the value of the property, as "
             "its comparator says for every order of the two")
    ctx.rule("not holds iff no child holds; and iff every child does; or iff "
             "some child does; children are evaluated until it is decided")
    ctx.rule("a reference is '$', an object id or alias, '.' and a property "
             "name; it resolves to the current value of the property, and "
             "anything else resolves to nothing")
    constant(ctx, "FALSUM", ZERO)
    constant(ctx, "VERUM", ONE)
    for t in TESTS:
        compare(ctx, t)
        ctx.sample("atom " + TESTS[t])
    connective(ctx, "NEGATION", False, ZERO)
    connective(ctx, "CONJUNCTION", True, ZERO)
    connective(ctx, "DISJUNCTION", False, ONE)
    references(ctx)
