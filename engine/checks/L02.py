"""Path-sensitive dataflow over Document::evalAction and the functions it
calls, for an event of an object in every kind of place of a document: the
number of passes over the links of each context related to the object, per
path, and the lists in which triggered actions travel to the loop that
performs them."""
import links
import trans
import pp
from links import PC, GC, AC, OBJ, SW, SWPORTS

NO = (False, False)


def places():
    out = []
    for cls in ("ginga::Media", "ginga::Switch", "ginga::Context",
                "ginga::MediaSettings"):
        own = {OBJ: 1} if cls == "ginga::Context" else {}
        out.append((dict(cls=cls, parent=None), own))
        for occ in (True, False):
            e = dict(own)
            if occ:
                e[PC] = 1
            out.append((dict(cls=cls, parent=PC, occurring=occ), e))
            for gocc in (True, False):
                for port in (True, False):
                    g = dict(e)
                    if occ and gocc and port:
                        g[GC] = "port"
                    out.append((dict(cls=cls, parent=PC, occurring=occ,
                                     grand=True, gocc=gocc, port=port), g))
        for grand in (True, False):
            for mapped in (True, False):
                out.append((dict(cls=cls, parent=SW, grand=grand,
                                 mapped=mapped), dict(own)))
    for cls in ("ginga::Media", "ginga::MediaSettings"):
        out.append((dict(cls=cls, parent=None, aliases=True), {AC: "each"}))
        out.append((dict(cls=cls, parent=PC, aliases=True),
                    {AC: "each", PC: 1}))
    return out


def name(kw):
    p = {None: "no parent", PC: "a context", SW: "a switch"}[kw["parent"]]
    s = "%s in %s" % (kw["cls"].split("::")[1], p)
    for k in ("occurring", "grand", "gocc", "port", "mapped", "aliases"):
        if k in kw:
            s += " %s=%s" % (k, kw[k])
    return s


def count(kw, st, c, want):
    """None or what is wrong with the passes over the links of c."""
    ps = links.passes(st, c)
    for e, inside in ps:
        if e[0] == "it":
            return "the pass over the links is left early"
        if not e[4]:
            return "the pass over the links may be left early"
    al = links.own(OBJ, "_aliases")
    ports = links.own(PC, "_ports")
    if want == "each":
        ok, why = trans.foreach(
            None, st, st.trace, al, lambda seg: sum(
                1 for e, i in links.walk(seg)
                if e[0] == "each" and trans.norm(e[1]) == links.links(c)) == 1)
        return None if ok else why
    if want == "port":
        if st.facts.get(("empty", ports)) is True:
            want = 0
        else:
            inl = [e for e, i in links.walk(st.trace) if e[0] == "each"
                   and trans.norm(e[1]) == ports]
            for e in inl:
                hit = [any(x[0] == "each" and
                           trans.norm(x[1]) == links.links(c)
                           for x, i in links.walk(seg)) for seg in e[3]]
                if hit and all(hit) and e[4]:
                    return "evaluated once for every port"
                if any(hit):
                    return None     # guarded by something in the loop
            want = 1
    if len(ps) != want:
        return "evaluated %d times" % len(ps)
    return None


CNAME = {PC: "parent", GC: "grandparent", AC: "referring context",
         OBJ: "object itself"}


def digest(prog, job):
    kw, want, kind, tr = job
    out = []
    fn, eng, pol, res = links.scenario(prog, match=NO, trans_=tr, **kw)
    nm = name(kw)
    for v, st in res + [(None, s) for s in pol.dead]:
        for c in (PC, GC, AC, OBJ):
            w = count(kw, st, c, want.get(c, 0))
            if w:
                out.append(("%s %s" % (CNAME[c], w),
                            "%s: %s, %s: links of the %s: %s" % (
                                fn.where(), nm, tr, CNAME[c], w),
                            pp.trace(st.trace)))
        w = switch(prog, kw, st, tr)
        if w:
            out.append((w.split(":")[0], "%s: %s, %s: %s" % (
                fn.where(), nm, tr, w), pp.trace(st.trace)))
    return out, len(res), eng, nm


def switch(prog, kw, st, tr):
    evals = [(e, i) for e, i in links.walk(st.trace) if e[0] == "eval"]
    if kw["parent"] != SW or not kw["mapped"]:
        if evals:
            return "evaluates %s" % pp.event(evals[0][0])
        return None
    for e, i in evals:
        ev = e[1]
        pres = ("int", prog.enum("ginga::Event::PRESENTATION"))
        if ev[:4] != ("op", "fn", "getEvent", ("ptr", SW)) or \
                len(ev) != 6 or ev[4] != pres or ev[5][0] != "fld" or \
                ev[5][2] != "first" or not trans.elemof(ev[5], SWPORTS):
            return "switch port: the event is %s" % pp.val(ev)
        if e[2] != trans.tconst(prog, tr):
            return "switch port: the transition is %s" % trans.tname(
                prog, e[2])
    if not kw["grand"]:
        return None
    ok, why = trans.foreach(
        None, st, st.trace, SWPORTS,
        lambda seg: any(e[0] == "eval" for e, i in links.walk(seg)))
    return None if ok else "switch port: " + why


# -- order -------------------------------------------------------------------
def order(prog, job):
    kw, want = job
    from absint import Budget
    try:
        fn, eng, pol, res = links.scenario(prog, match=(True, True),
                                           delay="zero", refs=False,
                                           single=False, **kw)
    except Budget:
        return [], 0, trans.Engine(prog, links.Pol(prog, None)), \
            ["order of the triggered actions (too many paths)"]
    out = []
    w, und = flow(prog, [st for v, st in res])
    if w:
        out.append((w.split(":")[0], "%s: %s" % (fn.where(), w), ""))
    return out, len(res), eng, und


def flow(prog, sts):
    """Where the actions of a link go: list they are pushed to, through the
    lists it is inserted into, to the list that is consumed."""
    lists = {}
    edges = {}
    cons = {}
    moved = False
    for st in sts:
        evs = list(links.walk(st.trace))
        for e, inside in evs:
            if e[0] == "push" and e[3][0] not in ("struct",):
                src = [i for i in inside if i[0] == "fld"
                       and i[2] == "second"]
                loc = [i for i in inside if i[0] == "v"]
                if src:
                    par = parity(inside_each(st.trace, src[-1]))
                    par ^= (e[1] == "front")
                    lists.setdefault(e[2], set()).add(par)
                elif loc:
                    p2 = parity(inside_each(st.trace, loc[-1]))
                    p2 ^= (e[1] == "front")
                    edges.setdefault(loc[-1], set()).add((e[2], p2))
            elif e[0] == "list":
                moved = True
                ed = transfer(e)
                if ed:
                    edges.setdefault(ed[0], set()).add((ed[1], ed[2]))
            elif e[0] == "each" and trans.norm(e[1])[0] == "v" and any(
                    x[0] == "next" for x, i in links.walk((e,))):
                cons.setdefault(trans.norm(e[1]), set()).add(
                    1 if e[2] == "rcur" else 0)
                bad = [s for s in e[3] if sum(1 for x in s if x[0] == "next")
                       != 1]
                if bad or not e[4]:
                    return "a triggered action is not performed once: %s" % \
                        pp.trace(bad[0] if bad else ()), []
                for s in e[3]:
                    for x in s:
                        if x[0] == "next" and (
                                links.act_of(x[1], "event") is None or
                                links.act_of(x[2], "transition")
                                != links.act_of(x[1], "event")):
                            return "performs %s" % pp.event(x), []
    if not lists:
        return None, ["no list of triggered actions"]
    if not cons:
        return "the triggered actions are not performed", []
    und = []
    for l, pars in lists.items():
        got = set()
        seen = set()
        todo = [(l, p) for p in pars]
        while todo:
            x, p = todo.pop()
            if (x, p) in seen:
                continue
            seen.add((x, p))
            for q in cons.get(x, ()):
                got.add(p ^ q)
            for y, q in edges.get(x, ()):
                todo.append((y, p ^ q))
        if not got:
            if moved:
                und.append("flow of the list of triggered actions")
            else:
                return "the triggered actions are not performed", []
        elif got == {1}:
            return "order: the actions of a link are performed in reverse " \
                "order", []
        elif len(got) > 1:
            und.append("order of the triggered actions")
    return None, und


def inside_each(trace, ident):
    for e, i in links.walk(trace):
        if e[0] == "each" and trans.norm(e[1]) == ident:
            return e
    return None


def parity(e):
    return 1 if e is not None and e[2] == "rcur" else 0


def transfer(e):
    """(from, to, reversed) of a list operation."""
    op, dst = e[1], trans.norm(e[2])
    a = e[3:]
    if op in ("insert", "assign"):
        its = [x for x in a if isinstance(x, tuple) and x[0] in
               ("cur", "rcur", "end") and trans.norm(x[1]) != dst]
        if not its:
            return None
        return trans.norm(its[0][1]), dst, 1 if its[0][0] == "rcur" else 0
    if op in ("copy", "splice", "merge", "swap"):
        src = [x for x in a if isinstance(x, tuple) and x[0] == "list"]
        if src:
            return trans.norm(src[0][1]), dst, 0
    return None


def check(ctx):
    ctx.rule("a transition that succeeds evaluates, exactly once each: the "
             "links of the parent context if it occurs; those of the "
             "grandparent context if it occurs and a port of the parent maps "
             "the object; those of the object if it is a context; those of "
             "each context that refers to it; no others")
    ctx.rule("a transition of a component of a switch is repeated on the "
             "label of every port of the switch that maps the component")
    ctx.rule("every action a link triggers reaches the loop that performs "
             "actions, which performs each once, those of one link in "
             "document order")
    jobs = [(kw, want, "", t) for kw, want in places()
            for t in ("START", "STOP")]
    n = 0
    for out, k, _, name_ in links.parallel(ctx, digest, jobs):
        ctx.count("cases")
        ctx.count("paths", k)
        n += k
        ctx.sample(name_)
        for v in out:
            ctx.violation(*v)
    for out, k, _, und in links.parallel(ctx, order, [
            (kw, w) for kw, w in (
                (dict(parent=PC), 0),
                (dict(parent=None, cls="ginga::Context"), 0),
                (dict(parent=None, aliases=True), 0),
                (dict(parent=PC, grand=True, port=True), 0))]):
        ctx.count("order_cases")
        for v in out:
            ctx.violation(*v)
        for u in und:
            if u not in ctx.undecided:
                ctx.undecided.append(u)
    ctx.require(n, len(jobs), "paths")
