"""Path-sensitive dataflow over the handlers of connectors, statements and
rules, for every word of their vocabulary (reserved roles, types of event,
transitions, connectives, comparators) and words outside it: the record of a
role and the predicates they make are compared with what NCL says the words
mean."""
import services
import grammar
import links
import nodes
import own
import pp
import trans
from absint import ZERO, ONE, mentions
from nodes import ELT, PAR, ST, fnv, attr, data

E = ("ptr", ELT)
OTHER = "another-word"
OPTIONAL = ("duration", "delay", "key", "value")
TYPES = {"presentation": "PRESENTATION", "attribution": "ATTRIBUTION",
         "selection": "SELECTION", "lookat": "LOOKAT"}
TRANS = {"start": "START", "starts": "START", "stop": "STOP",
         "stops": "STOP", "pause": "PAUSE", "pauses": "PAUSE",
         "resume": "RESUME", "resumes": "RESUME", "abort": "ABORT",
         "aborts": "ABORT"}
ROLES = {
    "onBegin": ("PRESENTATION", "START"), "onEnd": ("PRESENTATION", "STOP"),
    "onAbort": ("PRESENTATION", "ABORT"),
    "onPause": ("PRESENTATION", "PAUSE"),
    "onResume": ("PRESENTATION", "RESUME"),
    "onBeginAttribution": ("ATTRIBUTION", "START"),
    "onEndAttribution": ("ATTRIBUTION", "STOP"),
    "onSelection": ("SELECTION", "START"),
    "onBeginSelection": ("SELECTION", "START"),
    "onEndSelection": ("SELECTION", "STOP"),
    "onLookAt": ("LOOKAT", "START"), "onLookAway": ("LOOKAT", "STOP"),
    "start": ("PRESENTATION", "START"), "stop": ("PRESENTATION", "STOP"),
    "abort": ("PRESENTATION", "ABORT"), "pause": ("PRESENTATION", "PAUSE"),
    "resume": ("PRESENTATION", "RESUME"), "set": ("ATTRIBUTION", "START"),
}
CONNECTIVES = {"and": "CONJUNCTION", "or": "DISJUNCTION", "not": "NEGATION"}
TESTS = {"eq": "EQ", "ne": "NE", "lt": "LT", "lte": "LE", "gt": "GT",
         "gte": "GE"}
WORDS = sorted(set(TYPES) | set(TRANS) | set(ROLES) | set(CONNECTIVES) |
               set(TESTS) | {OTHER})


def val(x):
    if isinstance(x, (tuple, list)):
        return None
    return ("int", int(x)) if not isinstance(x, str) else ("str", x)


def vocabulary(p, st):
    """What the constant tables of the program hold for the words."""
    n = 0
    for name, rows in grammar.words(p):
        if not set(k for k, v in rows) & set(WORDS):
            continue
        n += 1
        i = ("at", ("g", name))
        d = {}
        for k, v in rows:
            d.setdefault(k, v)
        st.facts[("empty", i)] = not d
        for w in sorted(set(WORDS) | set(d)):
            k = ("str", w)
            st.facts[("has", i, k)] = w in d
            if w not in d:
                continue
            e = ("elem", i, ("find", i, k))
            st.mem[("f", e, "first")] = k
            s = ("f", e, "second")
            if isinstance(d[w], tuple):
                for f, x in zip(("first", "second"), d[w]):
                    st.mem[("f", s, f)] = val(x)
            else:
                st.mem[s] = st.mem[e] = val(d[w])
    return n


class Pol(nodes.CtxPol):
    values = {}

    def elt(self, eng, st, c, e, a):
        if c.name == "getAttribute" and e == E and a[0][0] == "str" and \
                a[0][1] in self.values:
            v = self.values[a[0][1]]
            if v is None:
                return [(ZERO, st)]
            self.set(eng, st, a[1], ("str", v))
            return [(ONE, st)]
        return nodes.CtxPol.elt(self, eng, st, c, e, a)


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def run(ctx, g, c, tag, par, which, values, more=None):
    def tw(pol, st):
        if not vocabulary(ctx.p, st):
            from prog import AnchorGone
            raise AnchorGone("tables of words")
        if more:
            more(pol, st)
    fn, eng, pol, res = nodes.run(ctx.p, g, tag, par, which, policy=Pol,
                                  ctx=c, values=values, tweak=tw)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + fn.q)
    return fn, eng, pol, res


def evtype(p, n):
    return ("int", p.enum("ginga::Event::" + n))


def role(p, tag, r, t, a):
    """(type, transition) or None (an error)."""
    if r in ROLES:
        ty, tr = ROLES[r]
        if (tag == "simpleCondition") != r.startswith("on"):
            return None
        if t is not None and TYPES.get(t) != ty:
            return None
        if a is not None and TRANS.get(a) != tr:
            return None
        return ty, tr
    if t not in TYPES or a not in TRANS:
        return None
    return TYPES[t], TRANS[a]


def part(eng, st, v, f):
    if v[0] == "struct":
        for p, x in v[2]:
            if p == (f,):
                return eng.rv(st, x)
        v = v[1]
    return eng.rv(st, eng.field(v, f))


G = {}


def roles(ctx):
    for tag, name in (("simpleCondition", "transition"),
                      ("simpleAction", "actionType")):
        for r in sorted(ROLES) + [OTHER]:
            yield words, (tag, name, r)
        yield attributes, (tag, name)


def words(ctx, tag, name, r):
    """Every type and transition with a role; all attributes are there."""
    ts = [None, OTHER] + sorted(TYPES)
    if r in ROLES and (tag == "simpleCondition") != r.startswith("on"):
        ts = [None]
    for t in ts:
        as_ = [None, OTHER] + sorted(TRANS)
        if len(ts) == 1 or t == OTHER:
            as_ = [None]
        for a in as_:
            one(ctx, G["g"], G["c"], tag, name, r, t, a)


def attributes(ctx, tag, name):
    """Attributes are there or not."""
    for r, t, a in (("set", None, None), ("onSelection", None, None),
                    ("start", None, None), ("onBegin", None, None),
                    (OTHER, "selection", "stop"),
                    (OTHER, "attribution", "start"),
                    (OTHER, "presentation", "start"),
                    (OTHER, "lookat", "start")):
        one(ctx, G["g"], G["c"], tag, name, r, t, a, False)


def job(ctx, f, args):
    f(ctx, *args)


def one(ctx, g, c, tag, name, r, t, a, attrs=True):
    p = ctx.p
    par = g.tags[tag]["parents"][0]
    values = {"role": r, "eventType": t, name: a}
    if attrs:
        for n in OPTIONAL:
            if n in g.tags[tag]["attrs"]:
                values[n] = "the " + n
    fn, eng, pol, res = run(ctx, g, c, tag, par, "push", values)
    want = role(p, tag, r, t, a)
    cond = tag == "simpleCondition"
    key = "%s %s %s %s" % (tag, r, t, a)
    about = "<%s role='%s'%s%s>" % (
        tag, r, " eventType='%s'" % t if t else "",
        " %s='%s'" % (name, a) if a else "")
    for v, st in res:
        had = {n: values[n] is not None if n in values else
               n in g.tags[tag]["attrs"] and
               st.facts.get(("attr", E, ("str", n))) for n in OPTIONAL}
        w = want
        if w and not cond and w[0] == "ATTRIBUTION" and \
                had["value"] is not True:
            if had["value"] is None:
                bad(ctx, fn, key + " value", "%s: whether there is a value "
                    "is not looked at" % about, st)
            w = None
        puts = [e for e, i in own.effects(st.trace) if e[0] in (
            "put", "take") and nodes.keyof(trans.norm(e[2]))]
        if v == ZERO:
            if w:
                bad(ctx, fn, key + " refused", about + " is refused", st)
            elif puts:
                bad(ctx, fn, key + " both", about + " is refused and used",
                    st)
            continue
        if not w:
            bad(ctx, fn, key + " accepted", about + " is accepted", st)
            continue
        k = nodes.keyof(trans.norm(puts[0][2])) if len(puts) == 1 else None
        if k != (data(("ptr", ST), "conn-elt"), "roles") or \
                puts[0][1] not in ("push_back", "emplace_back"):
            bad(ctx, fn, key + " put", "%s is not appended to the roles of "
                "its connector, once" % about, st)
            continue
        x = puts[0][3]
        fields = {"role": ("str", r), "node": pol.node(E),
                  "condition": ONE if cond else ZERO,
                  "eventType": evtype(p, w[0]),
                  "transition": evtype(p, w[1]), "predicate": ZERO}
        more = []
        if not cond:
            more += ["duration", "delay"]
            if w[0] == "ATTRIBUTION":
                more.append("value")
        if w[0] == "SELECTION":
            more.append("key")
        for n in more:
            if had[n] is None:
                bad(ctx, fn, key + " " + n, "%s: its %s is not looked at" % (
                    about, n), st)
                continue
            fields[n] = ("str", "") if not had[n] else \
                ("str", values[n]) if n in values else attr(E, n)
        for f, y in sorted(fields.items()):
            z = part(eng, st, x, f)
            if z != y and not (y == ("str", "") and blank(x, z)):
                bad(ctx, fn, key + " " + f, "%s: its %s becomes %s, not %s"
                    % (about, f, pp.val(z), pp.val(y)), st)


def blank(x, z):
    """z is a field of the record that nothing was put into."""
    return z[0] in ("at", "fld", "cont") and not mentions(z, E)


# -- predicates

PP, MP = data(("ptr", PAR), "pred"), data(E, "pred")
FALSE, TRUE = (None, "false", "False"), ("true", "TRUE")


def pred(p, x, ty, n):
    """The predicate x has a type and n operands."""
    def tw(pol, st):
        st.facts[("val", fnv("getType", x))] = (
            "int", p.enum("ginga::Predicate::" + ty))
        i = ("at", ("d", fnv("getChildren", x)))
        st.facts[("empty", i)] = n == 0
        st.facts[("val", ("op", "size", i))] = ("int", n)
    return tw


def parents(p, g, tag):
    """[(tag of the parent, description, environment, is it full)]"""
    for par in g.tags[tag]["parents"]:
        if par == "ruleBase":
            yield par, "", None, False
            continue
        ts = ("CONJUNCTION",) if par == "compoundCondition" else \
            ("CONJUNCTION", "DISJUNCTION", "NEGATION")
        for t in ts:
            for n in (0, 1, 2) if t != "NEGATION" else (0, 1):
                yield par, " of %d in a %s" % (n, t.lower()), \
                    pred(p, PP, t, n), t == "NEGATION" and n == 1


def made(st):
    """What a path makes of predicates."""
    types, kids, tests, setd, other = {}, [], {}, [], []
    for e, i in trans.flat(st.trace):
        if e[0] == "new" and e[1] == "ginga::Predicate":
            types[e[2]] = e[3][0] if e[3] else None
        elif e[0] == "do" and e[1] == "Predicate::addChild":
            kids.append((e[2], e[3]))
        elif e[0] == "do" and e[1] == "Predicate::setTest":
            tests[e[2]] = e[3:]
        elif e[0] == "do" and e[1].endswith("::delete"):
            for k in list(types):
                if k == e[3]:
                    del types[k]
        elif e[0] == "do":
            other.append(e)
        elif e[0] == "setdata":
            setd.append(e)
    return types, kids, tests, setd, other


def built(p, st, par, want, test=None, negated=False, keep=True):
    """None, or in what the predicate made differs: of type want, with the
    test, an operand (negated) of the parent's if there is one, kept as the
    element's."""
    types, kids, tests, setd, other = made(st)

    def ty(n):
        return ("int", p.enum("ginga::Predicate::" + n))
    mine = [x for e in setd if e[1] == E and e[2] == "pred"
            for x in [e[3]]] if keep else \
        [x for x, t in types.items() if t == ty(want)]
    if len(mine) != 1 or mine[0] not in types:
        return "no predicate is made, or not kept"
    m = mine[0]
    if types[m] != ty(want):
        return "a predicate of type %s is made, not %s" % (
            pp.val(types[m]), want)
    if test:
        t = tests.get(m)
        w = (test[0], ty(test[1]), test[2])
        if t is None or tuple(t) != w:
            return "its test is (%s), not (%s)" % (
                ", ".join(pp.val(x) for x in t or ()),
                ", ".join(pp.val(x) for x in w))
    edges = []
    top = m
    if negated:
        n = [x for x in types if x != m]
        if len(n) != 1 or types[n[0]] != ty("NEGATION"):
            return "it is not negated"
        edges.append((n[0], m))
        top = n[0]
    elif len(types) != 1:
        return "%d predicates are made" % len(types)
    if par != "ruleBase":
        edges.append((PP, top))
    if sorted(map(repr, kids)) != sorted(map(repr, edges)):
        return "its place is not that of the element"
    if other:
        return "further effects: " + pp.event(other[0])
    return None


def judge(ctx, fn, key, about, v, st, refuse, wrong):
    """A path that must refuse the element, or make what wrong() accepts."""
    if v == ZERO:
        if not refuse:
            bad(ctx, fn, key + " refused", about + " is refused", st)
        return
    if refuse:
        bad(ctx, fn, key + " accepted", about + " is accepted", st)
        return
    w = wrong()
    if w:
        bad(ctx, fn, key, "%s: %s" % (about, w), st)


def statements(ctx):
    p, g, c = ctx.p, G["g"], G["c"]
    tag = "compoundStatement"
    for par, d, env, full in parents(p, g, tag):
        for op in sorted(CONNECTIVES) + [OTHER]:
            for neg in FALSE + TRUE + (OTHER,):
                fn, eng, pol, res = run(ctx, g, c, tag, par, "push", {
                    "operator": op, "isNegated": neg}, env)
                for v, st in res:
                    judge(ctx, fn, "%s %s %s %s%s" % (tag, op, neg, par, d),
                          "<%s operator='%s' isNegated='%s'>%s" % (
                              tag, op, neg, d), v, st,
                          full or op == OTHER or neg == OTHER,
                          lambda: built(p, st, par, CONNECTIVES[op],
                                        negated=neg in TRUE))
    par = g.tags[tag]["parents"][0]
    for t in sorted(CONNECTIVES.values()):
        for n in range(0, 2 if t == "NEGATION" else 4):
            fn, eng, pol, res = run(ctx, g, c, tag, par, "pop", {},
                                    pred(p, MP, t, n))
            few = n < (1 if t == "NEGATION" else 2)
            for v, st in res:
                judge(ctx, fn, "end %s %d" % (t, n), "a %s of %d operands" % (
                    t.lower(), n), v, st, few, lambda: None)
    # conditions
    tag = "compoundCondition"
    for par in g.tags[tag]["parents"]:
        fn, eng, pol, res = run(ctx, g, c, tag, par, "push", {})
        for v, st in res:
            judge(ctx, fn, tag + " " + par, "<%s>" % tag, v, st, False,
                  lambda: built(p, st, "ruleBase", "CONJUNCTION"))


def assessments(ctx):
    p, g, c = ctx.p, G["g"], G["c"]
    tag = "assessmentStatement"
    sides = ("left", "right")
    vals = [("at", ("d", data(E, x))) for x in sides]
    for par, d, env, full in parents(p, g, tag):
        for op in sorted(TESTS) + [OTHER]:
            for n in (0, 1, 2):
                def tw(pol, st):
                    env(pol, st)
                    for i, x in enumerate(sides):
                        st.facts[("data", E, x)] = i < n
                fn, eng, pol, res = run(ctx, g, c, tag, par, "pop", {
                    "comparator": op}, tw)
                for v, st in res:
                    judge(ctx, fn, "%s %s %d %s%s" % (tag, op, n, par, d),
                          "<%s comparator='%s'> of %d sides%s" % (
                              tag, op, n, d), v, st,
                          full or op == OTHER or n < 2,
                          lambda: built(p, st, par, "ATOM", (
                              vals[0], TESTS.get(op), vals[1]), keep=False))
    for tag in ("attributeAssessment", "valueAssessment"):
        par = g.tags[tag]["parents"][0]
        for n in (0, 1, 2):
            def tw(pol, st):
                for i, x in enumerate(sides):
                    st.facts[("data", ("ptr", PAR), x)] = i < n
            fn, eng, pol, res = run(ctx, g, c, tag, par, "push", {
                "role": "r", "value": "$v"}, tw)
            for v, st in res:
                judge(ctx, fn, "%s %d" % (tag, n), "<%s> after %d" % (tag, n),
                      v, st, n == 2, lambda: side(
                          eng, st, tag, sides[n], "$r" if tag[0] == "a"
                          else "$v"))


def side(eng, st, tag, name, text):
    sets = [e for e, i in trans.flat(st.trace) if e[0] == "setdata"]
    if [e[1:3] for e in sets] != [(("ptr", PAR), name)]:
        return "it does not become the %s side" % name
    v = eng.rv(st, eng.load(st, eng.deref(st, sets[0][3])))
    if v != ("str", text):
        return "the %s side is %s, not %s" % (name, pp.val(v), text)
    puts = [e for e, i in own.effects(st.trace) if e[0] in ("put", "take")
            and nodes.keyof(trans.norm(e[2]))]
    want = []
    if tag == "attributeAssessment":
        want = [((data(("ptr", ST), "conn-elt"), "tests"), (("str", "r"),))]
    if [(nodes.keyof(trans.norm(e[2])), e[3:]) for e in puts] != want:
        return "its role is not among those that are tested" if want else \
            "a role is among those that are tested"
    return None


def rules(ctx):
    p, g, c = ctx.p, G["g"], G["c"]
    for tag, name, words_ in (("rule", "comparator", TESTS),
                              ("compositeRule", "operator", CONNECTIVES)):
        for par, d, env, full in parents(p, g, tag):
            for op in sorted(words_) + [OTHER]:
                fn, eng, pol, res = run(ctx, g, c, tag, par, "push", {
                    name: op, "var": "x.y", "value": "$v"}, env)
                test = (("str", "$__settings__.x.y"), words_.get(op),
                        ("str", "$v")) if tag == "rule" else None
                for v, st in res:
                    judge(ctx, fn, "%s %s %s%s" % (tag, op, par, d),
                          "<%s %s='%s'>%s" % (tag, name, op, d), v, st,
                          full or op == OTHER, lambda: built(
                              p, st, par, "ATOM" if test else
                              words_[op], test))


# -- the predicate of a condition

COUNTS = ([], [0], [1], [2], [0, 0], [0, 1], [1, 2], [2, 2], [0, 2, 1],
          [1, 1, 1], [2, 0, 0])


def chain(p, ns):
    """A condition inside compound conditions (the innermost first) whose
    statements are so many."""
    cc = [("ptr", ("o", "compound%d" % i)) for i in range(len(ns))]
    conn = ("ptr", ("o", "connector"))
    es = [E] + cc + [conn]

    def tw(pol, st):
        pol.tags = {E: "simpleCondition", conn: "causalConnector"}
        pol.tags.update((x, "compoundCondition") for x in cc)
        pol.parents = dict(zip(es, es[1:]))
        for a, b in zip(es, es[1:] + [None]):
            n = pol.node(a)[1]
            st.mem[("f", n, "name")] = ("str", pol.tags[a])
            if b:
                st.mem[("f", n, "parent")] = pol.node(b)
        for x, n in zip(cc, ns):
            pred(p, data(x, "pred"), "CONJUNCTION", n)(pol, st)
            st.facts[("data", x, "pred")] = True
    return [data(x, "pred") for x in cc], tw


def kidsof(x):
    return ("at", ("d", fnv("getChildren", x)))


def size(eng, st, x):
    """What is known about the number of operands of x."""
    i = kidsof(x)
    if st.facts.get(("empty", i)) is True:
        return 0
    for n in (0, 1, 2):
        r = {b for b, s in eng.trutheq(st.copy(), ("op", "size", i),
                                       ("int", n))}
        if r == {True}:
            return n
    return None


def cursor(cur):
    return ("at", ("elem", cur[1], cur))


def leaving(pol, eng, st, cur):
    i = trans.norm(cur[1])
    if i[0] != "v":
        return None
    x = cursor(cur)
    return ("left", x, size(eng, st, x), typeof(eng, st, x),
            solved(eng, st, x, 0), solved(eng, st, x, 2))


def noting(pol, eng, st, n, a):
    if n != "addChild":
        return None
    c = a[1]
    if c[:3] == ("op", "fn", "clone"):
        x = c[3]
        o = ofkids(x)
        return ("part", c, x if o is None else o, o is not None,
                size(eng, st, x if o is None else o))
    return ("part", c, None, None, None)


def ofkids(x):
    """The predicate whose operand x is."""
    if x[0] == "at" and x[1][0] == "elem":
        i = trans.norm(x[1][1])
        if i[0] == "at" and i[1][0] == "d" and \
                i[1][1][:3] == ("op", "fn", "getChildren"):
            return i[1][1][3]
    return None


def feasible(st, lists):
    """Do the facts agree with how many elements a local list has?"""
    for i, xs in lists.items():
        k = ("op", "size", i)
        v = st.facts.get(("val", k))
        if v is not None and v != ("int", len(xs)):
            return False
        if ("int", len(xs)) in st.facts.get(("ne", k), ()):
            return False
        e = st.facts.get(("empty", i))
        if e is not None and e != (not xs):
            return False
    return True


def obtained(ctx):
    for ns in COUNTS:
        preds, tw = chain(ctx.p, ns)
        fn, eng, pol, res = nodes.runserv(
            ctx.p, G["g"], G["c"], "obtainPredicate", [pol_node()],
            tag="simpleCondition", parent="compoundCondition" if ns else
            "causalConnector", tweak=tw, locals=True, note=noting,
            end=leaving)
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("paths", len(res))
        about = "a condition within %s statements" % (
            "no" if not ns else " + ".join(map(str, ns)))
        some = False
        for v, st in res:
            lists = {}
            for e in st.trace:
                if e[0] == "put" and trans.norm(e[2])[0] == "v" and \
                        len(e) == 4:
                    lists.setdefault(trans.norm(e[2]), []).append(e[3])
            if not feasible(st, lists):
                continue
            some = True
            w = whole(ctx.p, eng, st, v, preds, ns, lists)
            if w:
                bad(ctx, fn, "obtain %s" % ns, "%s: %s" % (about, w), st)
        for f, n, what, s in pol.aborts:
            bad(ctx, fn, "obtain %s aborts" % ns, "%s: aborts (%s)" % (
                about, what), s)
        ctx.require(int(some), 1, "paths of obtainPredicate for %s" % ns)


def pol_node():
    return ("ptr", ("o", "node", E))


def whole(p, eng, st, v, preds, ns, lists):
    """Is v the conjunction of all the statements?"""
    need = {x for x, n in zip(preds, ns) if n}
    count = dict(zip(preds, ns))
    if v == ZERO:
        return None if not need else "its statements are lost"
    if v[:3] == ("op", "fn", "clone"):
        got, why = covered(v[3], preds, count, lists)
        if why:
            return why
        return None if need <= got else "some of its statements are lost"
    new = [e for e in st.trace if e[0] == "new" and e[2] == v]
    if len(new) != 1 or new[0][3] != (("int", p.enum(
            "ginga::Predicate::CONJUNCTION")),):
        return "its predicate is %s" % pp.val(v)
    got = set()
    for e in st.trace:
        if e[0] == "do" and e[1] == "Predicate::addChild":
            if e[2] != v:
                return "a predicate changes: " + pp.event(e)
            c = e[3]
            if c[:3] != ("op", "fn", "clone"):
                return "its predicate shares %s" % pp.val(c)
            g, why = covered(c[3], preds, count, lists)
            if why:
                return why
            got |= g
        elif e[0] == "each":
            i = trans.norm(e[1])
            g, why = gone(e, i, v, lists)
            if why:
                return why
            got |= g
    return None if need <= got else "some of its statements are lost"


def covered(x, preds, count, lists):
    """The predicates whose statements x stands for."""
    o = ofkids(x)
    if o is not None:
        if o in count and count[o] == 1:
            return {o}, None
        return set(), "only one of several statements is used"
    if x in count:
        return {x}, None
    e = x[1] if x[0] == "at" and x[1][0] == "elem" else None
    xs = lists.get(trans.norm(e[1])) if e else None
    if xs and len(xs) == 1:
        return covered(xs[0], preds, count, lists)
    return set(), "its predicate is a copy of %s" % pp.val(x)


def gone(e, i, v, lists):
    segs = [s for s in e[3]]
    if not any(x[0] == "do" for s in segs for x in s):
        return set(), None
    if i not in lists:
        return set(), "statements are taken from %s" % pp.ident(i)
    if e[4] is not True:
        return set(), "not all its statements are gone through"
    for s in segs:
        does = [x for x in s if x[0] == "do"]
        parts = [x for x in s if x[0] == "know" and x[1] == "part"]
        left = [x for x in s if x[0] == "know" and x[1] == "left"]
        if not does:
            if not left or any(x[3] != 0 for x in left):
                return set(), "statements are left out"
            continue
        if len(does) != 1 or does[0][1] != "Predicate::addChild" or \
                does[0][2] != v or len(parts) != 1:
            return set(), "statements are used as " + "; ".join(
                pp.event(x) for x in does)
        _, _, c, x, one, n = parts[0]
        if c != does[0][3] or x is None or x[0] != "at" or \
                x[1][0] != "elem" or trans.norm(x[1][1]) != i:
            return set(), "its predicate has %s" % pp.val(c)
        if one and n != 1:
            return set(), "only one of several statements is used"
    return set(lists[i]), None


# -- references of a predicate to roles

PRED, TR = ("o", "pred"), ("o", "table")


def typeof(eng, st, x):
    v = st.facts.get(("val", fnv("getType", x)))
    return v


def solved(eng, st, x, n):
    """What the operand n of x is to become, or None."""
    o = fnv("getTest", x, ("int", n))
    d = {b for b, s in eng.trutheq(st.copy(), ("op", "idx", o, ZERO),
                                   ("int", ord("$")))}
    if d == {False}:
        return o
    if d != {True}:
        return None
    for k, b in st.facts.items():
        if k[0] == "has" and names(k[2], o) and trans.norm(k[1]) in (
                TR, ("at", TR)):
            if b is False:
                return o
            return ("second", k[1], k[2])
    return None


def names(k, o):
    return k[:2] == ("op", "substr") and k[2] == o and \
        k[3] == ONE and len(k) == 4


def becomes(x, w):
    if w is None:
        return False
    if w[0] != "second":
        return x == w
    f = ("find", w[1], w[2])
    e = ("elem", w[1], f)
    return x in (("at", ("f", e, "second")), ("fld", ("at", e), "second"),
                 ("at", e))


def solving(ctx):
    p = ctx.p
    fn, eng, pol, res = nodes.runserv(
        p, G["g"], G["c"], "solvePredicate", [("ptr", PRED), ("ptr", TR)],
        tag="link", parent="context", locals=True, end=leaving)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of solvePredicate")
    for f, n, what, s in pol.aborts:
        bad(ctx, fn, "solve aborts", "aborts (%s)" % what, s)
    for v, st in res:
        w = resolved(p, eng, st, v)
        if w:
            bad(ctx, fn, "solve", w, st)


def resolved(p, eng, st, v):
    if v[:4] != ("op", "fn", "clone", ("ptr", PRED)):
        return "the result is %s, not a copy" % pp.val(v)
    put = [e for e in st.trace if e[0] == "put" and e[3:] == (v,)]
    if len(put) != 1:
        return "the copy is not gone through"
    w = trans.norm(put[0][2])
    own_ = [e for e in st.trace if e is not put[0] and not (
        e[0] == "each" and trans.norm(e[1]) == w)]
    rest = [e for e in st.trace if e[0] == "each" and
            trans.norm(e[1]) == w and e[3]]
    if any(e[0] in ("do", "each", "put") for e in own_) or not rest:
        x = judge1(p, own_, v, typeof(eng, st, v), solved(eng, st, v, 0),
                   solved(eng, st, v, 2), w)
        if x:
            return x
    for e in rest:
        if e[4] is not True:
            return "not all parts of the predicate are gone through"
        for s in e[3]:
            left = [x for x in s if x[0] == "know" and x[1] == "left" and
                    trans.norm(x[2][1][1]) == w]
            if len(left) != 1:
                return "a part of the predicate is gone through twice"
            x = judge1(p, s, left[0][2], *left[0][4:], w)
            if x:
                return x
    return None


def judge1(p, seg, x, ty, l, r, w):
    seg = [e for e in seg if e[0] in ("do", "put", "each", "new")]
    names_ = {("int", p.enum("ginga::Predicate::" + n)): n for n in (
        "FALSUM", "VERUM", "ATOM", "NEGATION", "CONJUNCTION",
        "DISJUNCTION")}
    n = names_.get(ty)
    if n is None:
        return "the type of a part of the predicate is not looked at"
    if n in ("FALSUM", "VERUM"):
        return "a constant changes" if seg else None
    if n == "ATOM":
        if len(seg) != 1 or seg[0][:3] != ("do", "Predicate::setTest", x):
            return "a test is not solved"
        a = seg[0][3:]
        if a[1] != fnv("getTest", x, ONE):
            return "the comparator of a test becomes %s" % pp.val(a[1])
        for y, z, side_ in ((a[0], l, "left"), (a[2], r, "right")):
            if not becomes(y, z):
                return "the %s side of a test becomes %s" % (
                    side_, pp.val(y))
        return None
    if len(seg) != 1 or seg[0][0] != "each" or trans.norm(
            seg[0][1]) != kidsof(x) or seg[0][4] is not True:
        return "not all operands are gone through"
    for s in seg[0][3]:
        d = [e for e in s if e[0] in ("do", "put", "each", "new")]
        if len(d) != 1 or d[0][0] != "put" or trans.norm(d[0][2]) != w or \
                ofkids(d[0][3]) != x:
            return "an operand is not gone through"
    return None


def check(ctx):
    services.verify(ctx, "cache elements data")
    ctx.rule("a role: refused iff it is reserved for the other use, its "
             "words contradict it, or it has none; otherwise recorded with "
             "the type, the transition and the attributes it has")
    g, c = nodes.context(ctx)
    G.update(g=g, c=c)
    jobs = list(roles(ctx)) + [(f, ()) for f in (
        statements, assessments, rules, obtained, solving)]
    ctx.rule("the predicate of a condition: the conjunction of the "
             "statements of all the compound conditions around it, copied")
    ctx.rule("solving: a copy, in which each side of each test that names a "
             "role of the table is what the table has for it; nothing else "
             "differs")
    ctx.rule("a statement, assessment or rule: refused iff a word is unknown "
             "or there is no room for it; otherwise a predicate of the type, "
             "test and operands that its words stand for")
    links.spread(ctx, job, jobs)
