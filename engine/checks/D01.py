"""Path-sensitive dataflow over Document::addObject and the look-ups by id and
alias (callees analysed in place), for every class of object and for every
combination of the object being in the document already, its id being taken
and its id being an alias of another object; containers are abstracted to a
generic element."""
import own
import trans
import pp
from absint import ZERO, ONE
from trans import DOC

X = ("o", "newobject")
OLD = ("o", "oldobject")
ID = ("fld", ("at", X), "_id")
KEY = ("sym", "key")
SETS = {"Media": "_medias", "MediaSettings": "_medias",
        "Context": "_contexts", "Switch": "_switches"}


def d(name):
    return trans.fld(DOC, name)


def alias_eq(ident, match):
    """Does an alias of an object of the document equal ident?"""
    def eq(eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ident and x[0] == "fld" and x[2] == "first" and \
                    "_aliases" in repr(x):
                return match
            if y == ident and x[0] == "fld" and x[2] == "_id" and \
                    x[1] != ("at", X):
                return False    # the id is known not to be taken
            if y == ZERO and x[0] == "at" and x[1][0] == "elem":
                return False
        return None
    return eq


def remote(eng, st, c):
    if c.q == "ginga::PlayerRemote::usesPlayerRemote":
        out = []
        r, s = eng.opaque(st, c, havoc=False)
        for b, s2 in eng.truth(s, r):
            s2.emit("remote", eng.rv(s2, c.args[0]), b)
            out.append((ONE if b else ZERO, s2))
        return out


def elements(ident):
    """Objects of the document have aliases."""
    def elem(eng, st, cur):
        n = trans.norm(cur[1])
        if n in (d("_objects"), d("_objectsById")):
            st.facts[("empty", ("fld", ("at", ("d", ("at", (
                "elem", cur[1], cur)))), "_aliases"))] = False
    return elem


def bad(ctx, fn, key, what, st):
    ctx.violation(key, "%s: %s" % (fn.where(), what),
                  "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                           pp.trace(st.trace)))


def searched(eng, st):
    """Every alias of every object was looked at."""
    def ok(seg):
        return any(e[0] == "each" and e[4] and "_aliases" in repr(e[1])
                   for e in seg)
    return any(trans.foreach(eng, st, st.trace, d(n), ok)[0]
               for n in ("_objects", "_objectsById"))


def add(ctx, cls, present, taken, alias):
    def tweak(p, st):
        st.mem[("f", X, "_doc")] = ("ptr", DOC) if present else ZERO
        st.facts[("has", d("_objects"), ("ptr", X))] = present
        st.facts[("has", d("_objectsById"), ID)] = taken
        if cls == "MediaSettings":
            st.mem[("f", DOC, "_settings")] = ZERO
        for n in ("_objects", "_objectsById"):
            st.facts[("empty", d(n))] = False
        if taken:
            e = ("elem", d("_objectsById"), ("find", d("_objectsById"), ID))
            st.mem[e] = ("ptr", OLD)
            st.mem[("f", e, "second")] = ("ptr", OLD)
    fn, eng, pol, res = own.perform(
        ctx.p, "ginga::Document::addObject", DOC, [("ptr", X)],
        {X: "ginga::" + cls, DOC: "ginga::Document"}, tweak, elements(ID),
        remote, eq=alias_eq(ID, alias))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    lab = "addition of a %s%s%s%s" % (
        cls, ", already in the document" if present else "",
        ", id taken" if taken else "",
        ", id is the alias of another object" if alias else "")
    ctx.sample(lab)
    ctx.require(len(res), 1, "paths of the " + lab)
    refuse = present or taken or alias
    for v, st in res:
        eff = own.effects(st.trace)
        if v not in (ZERO, ONE):
            bad(ctx, fn, "%s result" % cls, "%s: undetermined result %s" % (
                lab, pp.val(v)), st)
            continue
        if refuse and v == ONE:
            bad(ctx, fn, "%s accepted" % cls, "%s succeeds" % lab, st)
        if not refuse and v == ZERO:
            bad(ctx, fn, "%s refused" % cls, "%s fails" % lab, st)
        if v == ZERO:
            if eff:
                bad(ctx, fn, "%s refused effect" % cls,
                    "%s fails, but: %s" % (lab, pp.event(eff[0][0])), st)
            continue
        if refuse:
            continue
        if not searched(eng, st):
            bad(ctx, fn, "%s search" % cls, "%s: not every alias of every "
                "object is compared" % lab, st)
        want = {"_objects", SETS[cls]}
        rem = [e for e, i in trans.flat(st.trace) if e[0] == "remote"
               and e[1] == ("ptr", X)]
        if "Media" in cls:
            if not rem:
                bad(ctx, fn, "%s remote" % cls, "%s: nobody asks whether it "
                    "has a remote player" % lab, st)
            if any(e[2] for e in rem):
                want.add("_mediasRemote")
        puts = {}
        owner = byid = 0
        for e, i in eff:
            if e[0] == "put":
                n = e[2][2] if e[2][0] == "fld" else pp.ident(e[2])
                if n == "_objectsById":
                    w = e[3:]
                    byid += 1
                    if len(w) == 1 and not (
                            eng.field(w[0], "first") == ID and
                            eng.field(w[0], "second") == ("ptr", X)) or \
                            len(w) == 2 and w != (ID, ("ptr", X)):
                        bad(ctx, fn, "%s by id" % cls, "%s: %s" % (
                            lab, pp.event(e)), st)
                elif e[3:] != (("ptr", X),):
                    bad(ctx, fn, "%s stranger" % cls, "%s: %s" % (
                        lab, pp.event(e)), st)
                else:
                    puts[n] = puts.get(n, 0) + 1
            elif e[0] == "store" and e[1] == ("f", X, "_doc") and \
                    e[2] == ("ptr", DOC):
                owner += 1
            elif e[0] == "store" and e[1][0] == "elem" and \
                    trans.norm(e[1][1]) == d("_objectsById"):
                byid += 1
                if e[1][2] != ("find", e[1][1], ID) or \
                        e[2] != ("ptr", X):
                    bad(ctx, fn, "%s by id" % cls, "%s: %s" % (
                        lab, pp.event(e)), st)
            else:
                bad(ctx, fn, "%s other" % cls, "%s: %s" % (
                    lab, pp.event(e)), st)
        if set(puts) != want:
            bad(ctx, fn, "%s sets" % cls, "%s: it is in %s, not in %s" % (
                lab, ", ".join(sorted(puts)), ", ".join(sorted(want))), st)
        if byid != 1:
            bad(ctx, fn, "%s by id" % cls, "%s: it is not found by its id"
                % lab, st)
        if owner != 1:
            bad(ctx, fn, "%s owner" % cls, "%s: its document is not set"
                % lab, st)


def lookup(ctx, q, taken, alias):
    def tweak(p, st):
        st.facts[("has", d("_objectsById"), KEY)] = taken
        for n in ("_objects", "_objectsById"):
            st.facts[("empty", d(n))] = False
        if taken:
            e = ("elem", d("_objectsById"), ("find", d("_objectsById"), KEY))
            st.mem[e] = ("ptr", OLD)
            st.mem[("f", e, "second")] = ("ptr", OLD)
    fn, eng, pol, res = own.perform(
        ctx.p, "ginga::Document::" + q, DOC, [KEY],
        {DOC: "ginga::Document"}, tweak, elements(KEY),
        eq=alias_eq(KEY, alias))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    lab = "%s of %s" % (q, "the id of an object" if taken else
                        "the alias of an object" if alias else
                        "something else")
    ctx.sample(lab)
    ctx.require(len(res), 1, "paths of " + lab)
    for v, st in res:
        eff = own.effects(st.trace)
        if eff:
            bad(ctx, fn, q + " effect", "%s: %s" % (lab, pp.event(eff[0][0])),
                st)
        if taken:
            ok = v == ("ptr", OLD)
        elif alias and q.endswith("Alias"):
            ok = v[0] != "int" and own.isel(v, d("_objects")) or \
                v[0] == "fld" and own.isel(v, d("_objectsById"), ("second",))
        else:
            ok = v == ZERO
            if ok and q.endswith("Alias") and not searched(eng, st):
                bad(ctx, fn, q + " search", "%s: not every alias of every "
                    "object is compared" % lab, st)
        if not ok:
            bad(ctx, fn, q, "%s returns %s" % (lab, pp.val(v)), st)


def check(ctx):
    ctx.rule("addObject: refused, without any effect, iff the object is in "
             "the document or its id is the id or an alias of an object of "
             "the document")
    ctx.rule("addObject succeeds: the object refers to the document, is in "
             "its set of objects, in the set of its class and no other, among "
             "the remote media iff it is played remotely, and is found by its "
             "id")
    ctx.rule("look-up: the object with that id, else one that has it as an "
             "alias, else none")
    for cls in SETS:
        for present in (False, True):
            for taken in (False, True):
                for alias in (False, True):
                    if present and not taken:
                        continue
                    add(ctx, cls, present, taken, alias)
    for q in ("getObjectById", "getObjectByIdOrAlias"):
        for taken in (True, False):
            for alias in (True, False):
                lookup(ctx, q, taken, alias)
