"""What a handler of the parser should do, as a function of what it can ask of
the document: the specification is tried with every answer that the path it is
compared with has not obtained."""
import nodes
import pp
import trans
from absint import ZERO, ONE, mentions
from nodes import ELT, PAR, ST, SCOPE, fnv, attr

E = ("ptr", ELT)
ERROR = "an error"


class Ask(Exception):
    pass


class Q:
    """Answers from the facts of a path, or else from an assignment."""

    def __init__(self, eng, pol, st, tag, given):
        self.eng, self.pol, self.st, self.tag = eng, pol, st, tag
        self.given = given

    def ask(self, key):
        if key not in self.given:
            raise Ask(key)
        return self.given[key]

    def fact(self, key):
        k = self.st.facts.get(key)
        return self.ask(key) if k is None else k

    def attr(self, name, e=E, tag=None):
        g = self.pol.g
        tag = tag or self.tag
        if g.required(tag, name):
            return True
        if name not in g.tags[tag]["attrs"]:
            return False
        return self.fact(("attr", e, ("str", name)))

    def eq(self, a, b):
        if a == b:
            return True
        if a[0] == "str" and b[0] == "str":
            return a == b
        r = {x for x, s in self.eng.trutheq(self.st.copy(), a, b)}
        if len(r) == 1:
            return r.pop()
        return self.ask(("eq", a, b))

    def null(self, v):
        return self.eq(v, ZERO)


def outcomes(spec, eng, pol, st, tag, limit=256):
    """[(assignment, what the specification calls for)]."""
    work, out = [{}], []
    while work:
        g = work.pop()
        try:
            out.append((g, spec(Q(eng, pol, st, tag, g))))
        except Ask as e:
            for b in (False, True):
                work.append(dict(g, **{}) | {e.args[0]: b})
        if len(out) + len(work) > limit:
            return None
    return out


def effects(st, canon):
    out = []
    for e, i in trans.flat(st.trace):
        x = canon(e, i)
        if x is not None:
            out.append(x)
    return out


def show(x):
    if isinstance(x, str):
        return x
    return "; ".join(sorted(" ".join(
        y if isinstance(y, str) else pp.val(y) for y in e)
        for e in x)) or "nothing"


def compare(spec, eng, pol, st, tag, got):
    """None or what is wrong; got: the effects of the path, or ERROR."""
    outs = outcomes(spec, eng, pol, st, tag)
    if outs is None:
        return "it depends on too much"
    for g, want in outs:
        if want is None:
            continue                    # cannot be
        if isinstance(want, str) or isinstance(got, str):
            same = want == got
        else:
            same = sorted(map(repr, want)) == sorted(map(repr, got))
        if not same:
            s = "%s instead of %s" % (show(got), show(want))
            if g:
                s += " if " + ", ".join(
                    "%s%s" % ("" if b else "not ", key(k))
                    for k, b in g.items())
            return s
    return None


def key(k):
    return " ".join(x if isinstance(x, str) else pp.val(x)
                    if isinstance(x, tuple) and x and
                    isinstance(x[0], str) and x[0] in (
                        "op", "str", "ptr", "int", "fld", "at", "sym")
                    else "/".join(map(str, x)) if isinstance(x, tuple)
                    else str(x) for x in k)
