"""Path-sensitive dataflow over the functions of Object that add and look up
events (constructor of Event analysed in place): with an event of the given
type and id present, with one that differs in type, in id or in both, and
with none at all."""
import own
import trans
import pp
from absint import ZERO, ONE
from trans import OBJ

EVENTS = trans.EVENTS
ID, LABEL = ("sym", "id"), ("sym", "label")
BEGIN, END = ("sym", "begin"), ("sym", "end")
OTHERID, OTHERLABEL = ("sym", "otherid"), ("sym", "otherlabel")
TYPES = {"Presentation": "PRESENTATION", "Attribution": "ATTRIBUTION",
         "Selection": "SELECTION", "LookAt": "LOOKAT"}
E = ("o", "existingevent")


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s: %s" % (fn.where(), fn.q, what),
                  "facts: %s\\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def present(p, ty, eid, label, some=True):
    """Every event of the object is of that type, id and label."""
    def elem(eng, st, cur):
        if trans.norm(cur[1]) != EVENTS:
            return
        st.mem[("elem", cur[1], cur)] = ("ptr", E)
        st.mem[("f", E, "_type")] = ("int", p.enum("ginga::Event::" + ty))
        st.mem[("f", E, "_id")] = eid
        st.mem[("f", E, "_label")] = label
        st.mem[("f", E, "_object")] = ("ptr", OBJ)

    def tweak(p, st):
        st.facts[("empty", EVENTS)] = not some
    return elem, tweak


def differ(eng, st, a, b):
    if {a, b} == {ID, OTHERID} or {a, b} == {LABEL, OTHERLABEL}:
        return False
    for x, y in ((a, b), (b, a)):
        if y == ("str", "@lambda") and x in (ID, OTHERID):
            return False
    return None


def run(ctx, q, args, ty, eid, label, some=True, n=None):
    p = ctx.p
    elem, tweak = present(p, ty, eid, label, some)
    fn, eng, pol, res = own.perform(
        p, "ginga::Object::" + q, OBJ, args, {OBJ: "ginga::Media",
                                              E: "ginga::Event"},
        tweak, elem, eq=differ, n=n)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    ctx.require(len(res), 1, "paths of " + q)
    return fn, eng, res


def lookups(ctx):
    p = ctx.p
    for q, ty in [("getEvent", None)] + [
            ("get%sEvent" % t, v) for t, v in TYPES.items()] + [
            ("getPresentationEventByLabel", "PRESENTATION")]:
        bylabel = q.endswith("Label")
        for want in ([ty] if ty else TYPES.values()):
            args = ([] if ty else [("int", p.enum("ginga::Event::" + want))])
            args.append(LABEL if bylabel else ID)
            for have in TYPES.values():
                for same in (True, False):
                    eid = OTHERID if bylabel else ID if same else OTHERID
                    lab = LABEL if bylabel and same else OTHERLABEL
                    fn, eng, res = run(ctx, q, args, have, eid, lab)
                    match = have == want and same
                    for v, st in res:
                        eff = own.effects(st.trace)
                        if eff:
                            bad(ctx, fn, q + " effect", pp.event(eff[0][0]),
                                st)
                        if v != (("ptr", E) if match else ZERO):
                            bad(ctx, fn, "%s %s" % (q, match),
                                "%s returned though %s" % (
                                    "none" if v == ZERO else pp.val(v),
                                    "there is one" if match else
                                    "there is none with that type and id"),
                                st)
                        if not match and not trans.foreach(
                                eng, st, st.trace, EVENTS,
                                lambda seg: True)[0]:
                            bad(ctx, fn, q + " search", "not every event is "
                                "compared", st)


def created(ctx, fn, eng, st, e, ty, want):
    """e: the put of a new event into _events."""
    ev = e[3]
    if ev[0] != "ptr" or ev[1][0] != "o" or ev[1][1] != "new":
        return "puts %s" % pp.val(ev)
    l = ev[1]
    for f, w in want:
        x = eng.load(st, ("f", l, f))
        if x != w:
            return "its %s is %s, not %s" % (f, pp.val(x), pp.val(w))
    return None


def adds(ctx):
    p = ctx.p
    table = [("addAttributionEvent", "ATTRIBUTION", [ID], None, []),
             ("addSelectionEvent", "SELECTION", [ID], None, []),
             ("addLookAtEvent", "LOOKAT", [ID], None, []),
             ("addPresentationEvent", "PRESENTATION", [ID, BEGIN, END], 3,
              [("_begin", BEGIN), ("_end", END)]),
             ("addPresentationEvent", "PRESENTATION", [ID, LABEL], 2,
              [("_label", LABEL)])]
    for q, ty, args, n, more in table:
        tv = ("int", p.enum("ginga::Event::" + ty))
        want = [("_type", tv), ("_id", ID), ("_object", ("ptr", OBJ)),
                ("_state", trans.tconst(p, "SLEEPING"))] + more
        for have in TYPES.values():
            for eid in (ID, OTHERID):
                for some in (True, False):
                    if not some and (have, eid) != (ty, ID):
                        continue
                    fn, eng, res = run(ctx, q, args, have, eid, OTHERLABEL,
                                       some, n)
                    exists = some and have == ty and eid == ID
                    for v, st in res:
                        puts = [e for e, i in own.effects(st.trace)
                                if e[0] in ("put", "take")]
                        if exists:
                            if own.effects(st.trace):
                                bad(ctx, fn, q + " again", "a second event "
                                    "of that type and id is added, or the "
                                    "existing one changed", st)
                            continue
                        if len(puts) != 1 or trans.norm(puts[0][2]) != EVENTS:
                            bad(ctx, fn, q + " new", "%d events are added"
                                % len(puts), st)
                            continue
                        w = created(ctx, fn, eng, st, puts[0], ty, want)
                        if w:
                            bad(ctx, fn, q + " new event", w, st)


def check(ctx):
    ctx.rule("get...Event (type, id) returns the event of that type and id, "
             "and none only after every event was compared; so does the "
             "look-up by label, for presentation events")
    ctx.rule("add...Event adds nothing when there is an event of that type "
             "and id; otherwise one new event: sleeping, of that type, id, "
             "object, interval and label")
    lookups(ctx)
    adds(ctx)
    ctx.require(ctx.counts["cases"], 60, "cases")
