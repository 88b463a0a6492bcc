"""Path-sensitive dataflow over Document::evalAction (both forms) and the
functions it calls, for an action whose transition succeeds or is refused, on
every type of event and in every kind of place: what the event is given before
its transition, what follows from it, and the number that is returned."""
import links
import trans
import pp
from absint import ZERO, ONE
from links import PC, OBJ, SW


def digest(prog, job):
    kw, ok = job
    fn, eng, pol, res = links.scenario(prog, ok=ok, **kw)
    out = []
    lab = "%s %s event of a %s in %s" % (
        kw["trans_"].lower(), kw["etype"].lower(), kw["cls"].split("::")[1],
        {None: "no parent", PC: "a context", SW: "a switch"}[kw["parent"]])

    def bad(what, st):
        out.append(("%s %s" % (what.split(":")[0], kw["etype"].lower()),
                    "%s: %s: %s" % (fn.where(), lab, what),
                    pp.trace(st.trace)))
    for v, st in res + [(None, s) for s in pol.dead]:
        evs = [e for e, i in links.walk(st.trace)]
        go = [e for e in evs if e[0] == "go"]
        if len(go) != 1:
            bad("the transition is requested %d times" % len(go), st)
            continue
        if go[0][1] != trans.tconst(prog, kw["trans_"]):
            bad("the transition requested is %s"
                % trans.tname(prog, go[0][1]), st)
        va, du = go[0][2]
        if kw["etype"] == "ATTRIBUTION" and va != links.VALUE:
            bad("value: the event has the value %s" % pp.val(va), st)
        if du != links.DURATION:
            bad("duration: the event has the duration %s" % pp.val(du), st)
        if v is not None and v != (ONE if ok else ZERO):
            bad("returns %s" % pp.val(v), st)
        if not ok:
            eff = [e for e in evs if e[0] in ("delay", "eval")
                   or e[0] == "push" and e[3][0] != "struct"]
            if eff:
                bad("refused, yet: %s" % pp.event(eff[0]), st)
    return out, len(res), eng, lab


def check(ctx):
    ctx.rule("an action requests its transition of its event once, after "
             "giving the event its duration and, for an attribution, its "
             "value")
    ctx.rule("a refused action triggers no link, schedules nothing and is "
             "not counted; a performed one is counted once")
    jobs = []
    for ty in trans.TYPES:
        for t in ("START", "STOP", "PAUSE"):
            for ok in (True, False):
                jobs.append((dict(etype=ty, trans_=t, parent=PC, match=(
                    False, False) if ok else (True, True),
                    cls="ginga::Media", delay="zero", refs=False), ok))
    for cls, par in (("ginga::Context", None), ("ginga::Media", SW),
                     ("ginga::Switch", PC), ("ginga::MediaSettings", PC)):
        for ok in (True, False):
            jobs.append((dict(etype="PRESENTATION", trans_="START",
                              parent=par, match=(False, False), cls=cls,
                              delay="zero", refs=False), ok))
    n = 0
    for out, k, _, lab in links.parallel(ctx, digest, jobs):
        ctx.count("cases")
        ctx.count("paths", k)
        n += k
        ctx.sample(lab)
        for v in out:
            ctx.violation(*v)
    ctx.require(n, len(jobs), "paths")
    # the short form
    forward(ctx)


def forward(ctx):
    p = ctx.p
    from absint import Engine, State
    fn = [f for f in p.byq.get("ginga::Document::evalAction", [])
          if len(f.params) == 3]
    if not fn:
        return
    pol = links.Pol(p, "ginga::Media")
    eng = Engine(p, pol)
    st = State()
    ev, tr, va = ("ptr", trans.EVT), ("sym", "tr"), ("sym", "value")
    st.mem[("f", trans.EVT, "_type")] = ("int", p.enum(
        "ginga::Event::ATTRIBUTION"))
    res = eng.run(fn[0], [ev, tr, va], st, ("ptr", trans.DOC))
    ctx.saw(eng.analysed)
    ctx.count("paths", len(res))
    for v, s in res:
        es = [e for e, i in links.walk(s.trace) if e[0] == "eval"]
        if len(es) != 1 or es[0][1:4] != (ev, tr, va):
            ctx.violation("forward", "%s: evalAction (event, transition, "
                          "value) performs %s" % (fn[0].where(), "; ".join(
                              pp.event(e) for e in es) or "nothing"),
                          pp.trace(s.trace))
