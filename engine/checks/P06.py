"""Path-sensitive dataflow over ParserState::resolveComponent and
resolveInterface, for every element that may refer to an object: what each
path yields is compared with what the facts it established call for."""
import services
import nodes
import pp
from absint import ZERO, ONE
from nodes import ELT, SCOPE, OUT, fnv, attr

E = ("ptr", ELT)


def equal(eng, st, a, b):
    r = {x for x, s in eng.trutheq(st.copy(), a, b)}
    return r.pop() if len(r) == 1 else None


def isnull(eng, st, v):
    return equal(eng, st, v, ZERO)


def disj(*xs):
    if True in xs:
        return True
    return None if None in xs else False


def component(eng, pol, st, tag):
    comp = attr(E, "constituent" if tag == "bindRule" else "component")
    me = disj(equal(eng, st, comp, fnv("getId", SCOPE)),
              st.facts.get(("hasAlias", SCOPE, comp)))
    child = fnv("getChildByIdOrAlias", SCOPE, comp)
    if me:
        return SCOPE
    if me is None:
        return "whether it is the scope itself"
    n = isnull(eng, st, child)
    if n is None:
        return "whether it is a child of the scope"
    if n is False:
        return child
    r = st.facts.get(("refer", comp))
    if r is None:
        return "whether it is a reference to an object"
    return fnv("object", "ginga::Media", "refer", comp) if r else None


def first(eng, st, *vs):
    for v in vs:
        n = isnull(eng, st, v)
        if n is None:
            return "whether there is %s" % pp.val(v)
        if not n:
            return v
    return None


def interface(eng, pol, st, tag, g):
    cs = [e for e in st.trace if e[0] == "resolveComponent"]
    if len(cs) != 1 or cs[0][1:3] != (SCOPE, E):
        return "the component of the element in the scope"
    if any(e[:2] == ("err", "resolveComponent") for e in st.trace):
        return None
    obj = [v for v in (SCOPE,) + tuple(
        fnv("object", "ginga::" + c, "component", E)
        for c in ("Context", "Switch", "Media"))
        if v == SCOPE or ("ne", v) in st.facts]
    obj = obj[-1]
    i = attr(E, "interface")
    if "interface" not in g.tags[tag]["attrs"] or \
            st.facts.get(("attr", E, ("str", "interface"))) is False:
        return fnv("getLambda", obj)
    if not st.facts.get(("attr", E, ("str", "interface"))):
        return "whether there is an interface"
    cls = pol.objclass(st, obj)
    cls = set(cls).pop()
    att = fnv("getAttributionEvent", obj, i)
    pres = fnv("getPresentationEvent", obj, i)
    if cls == "ginga::Media":
        return first(eng, st, pres, att)
    if cls == "ginga::Switch":
        return first(eng, st, pres)
    if obj == SCOPE:
        return first(eng, st, att)
    port = fnv("byid", i, ("port",))
    f = st.facts.get(("found", port))
    if f is None:
        return "whether it is a port"
    if not f:
        return first(eng, st, att)
    par = fnv("parentof", port)
    t = st.facts.get(("tag", par))
    if t == "body":
        ctx = fnv("object", "ginga::Context", "getRoot")
    else:
        ctx = fnv("object", "ginga::Context", "byid", attr(par, "id"))
    mine = equal(eng, st, fnv("getId", ctx), fnv("getId", obj))
    if mine is None:
        mine = equal(eng, st, ctx, obj)
    if mine is None:
        return "whether it is a port of the object"
    if not mine:
        return first(eng, st, att)
    if any(e[:2] == ("err", "resolveInterface") for e in st.trace):
        return None
    return fnv("resolveInterface", ctx, port)


def check(ctx):
    services.verify(ctx, "cache aliases refers objects elements")
    p = ctx.p
    g, c = nodes.context(ctx)
    for name, tag, par, sc in nodes.resolvers(g):
        fn, eng, pol, res = nodes.runserv(
            p, g, c, name, [SCOPE, E, ("ptr", OUT)], tag, par, sc)
        ctx.saw(eng.analysed)
        ctx.count("cases")
        ctx.count("dataflow_states", eng.steps)
        for v, st in res:
            ctx.count("paths")
            want = component(eng, pol, st, tag) \
                if name == "resolveComponent" else \
                interface(eng, pol, st, tag, g)
            got = st.mem.get(OUT)
            where = "%s:%d: %s for <%s> in a %s" % (
                fn.file, fn.line, name, tag, sc.split("::")[1])
            facts = "; ".join(pp.facts(st.facts))[:700]
            if isinstance(want, str):
                ctx.violation(name + " depends", "%s yields %s without "
                              "regard to %s" % (
                                  where, "an error" if v == ZERO else
                                  pp.val(got), want), facts)
            elif want is None and v != ZERO:
                ctx.violation(name + " accepts", "%s yields %s though there "
                              "is nothing to refer to" % (
                                  where, pp.val(got)), facts)
            elif want is not None and (v != ONE or got is None or
                                       equal(eng, st, got, want) is not
                                       True):
                ctx.violation(name + " target", "%s yields %s instead of %s"
                              % (where, "an error" if v == ZERO else
                                 pp.val(got) if got else "nothing",
                                 pp.val(want)), facts)
    ctx.rule("a component is the scope itself, else a child of it, else a "
             "reference to another object, else an error; an interface is "
             "an anchor or property of the object found, a port of another "
             "context standing for what it maps to, else an error")
