"""Path-sensitive dataflow over Document::evalAction and the functions it
calls, with the links of the contexts of the event abstracted to one generic
link with a generic condition and a generic action: what each pass over the
links does when the condition matches the event and transition, when it does
not, when its predicate fails, and when the links of the context are off."""
import links
import trans
import pp
from links import PC, GC, AC, OBJ

PLACES = [
    ("parent", dict(parent=PC), PC),
    ("grandparent", dict(parent=PC, grand=True, port=True), GC),
    ("itself", dict(parent=None, cls="ginga::Context"), OBJ),
    ("referring context", dict(parent=None, aliases=True), AC),
]


def run(prog, kw, place):
    name, pkw, c = place
    d = dict(pkw)
    d.update(kw)
    fn, eng, pol, res = links.scenario(prog, **d)
    out = []
    n = 0
    m, status = kw.get("match"), kw.get("status", True)
    for v, st in res + [(None, s) for s in pol.dead]:
        n += 1
        loops = links.passes(st, c)
        w = None
        if m == (True, True) and status:
            for e, i in loops:
                if e[0] == "it":
                    w = "the pass over the links is left early"
                else:
                    w = links.link_pass(e, c, kw["delay"], kw["refs"])
                if w:
                    break
        else:
            eff = links.linkstatus_effects(st)
            if eff:
                w = "%s: %s" % ("the links are off" if not status else
                                "no condition of the link matches",
                                pp.event(eff[0]))
        if w:
            out.append(("%s %s" % (name, w.split(":")[0]),
                        "%s: links of the %s of the event: %s" % (
                            fn.where(), name, w),
                        pp.trace(st.trace)))
    return out, n, eng, name


def digest(prog, job):
    return run(prog, *job)


def check(ctx):
    ctx.rule("a condition triggers its link iff its event and its transition "
             "are those of the action and its predicate, if any, holds")
    ctx.rule("a triggered link performs each of its actions exactly once: "
             "without delay at once, unchanged; with a delay by scheduling "
             "event, transition, value and duration on the context of the "
             "link, after the (resolved) delay")
    ctx.rule("every condition of every link is examined; none when the links "
             "of the context are switched off")
    jobs = []
    for pl in PLACES:
        for d in ("zero", "pos"):
            for r in (True, False):
                jobs.append((dict(match=(True, True), delay=d, refs=r), pl))
        for m in ((True, False), (False, True), (False, False)):
            jobs.append((dict(match=m), pl))
        jobs.append((dict(match=(True, True), status=False, delay="zero",
                          refs=False), pl))
    n = 0
    for out, k, eng, name in links.parallel(ctx, digest, jobs):
        ctx.count("cases")
        ctx.count("paths", k)
        n += k
        ctx.sample(name)
        for v in out:
            ctx.violation(*v)
    ctx.require(n, len(jobs), "paths")
