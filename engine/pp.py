"""Readable form of abstract values, locations and traces for reports."""


def short(q):
    return q.replace("ginga::", "")


def loc(l):
    if not isinstance(l, tuple):
        return str(l)
    k = l[0]
    if k == "v":
        return "local#%s" % (l[1] % 1000000,)
    if k == "g":
        return short(str(l[1]))
    if k == "o":
        if l[1] == "new":
            return "new %s" % short(l[2])
        return "/".join(str(x) for x in l[1:] if not isinstance(x, tuple))
    if k == "d":
        return "*(%s)" % val(l[1])
    if k == "f":
        b = l[1]
        if b[0] == "d":
            return "%s->%s" % (val(b[1]), l[2])
        return "%s.%s" % (loc(b), l[2])
    if k == "e":
        return "%s[%s]" % (loc(l[1]), val(l[2]))
    if k == "elem":
        it = l[2]
        if isinstance(it, tuple) and it and it[0] == "find":
            return "%s[%s]" % (ident(l[1]), val(it[2]))
        if isinstance(it, tuple) and len(it) == 1:
            return "%s.%s()" % (ident(l[1]), it[0])
        return "each(%s)" % ident(l[1])
    return str(l)


def ident(i):
    if isinstance(i, tuple) and i[0] in ("v", "g", "o", "f", "e", "elem", "d"):
        return loc(i)
    return val(i)


def val(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k in ("int", "flt"):
        return str(v[1])
    if k == "str":
        return '"%s"' % v[1]
    if k == "ptr":
        return "&" + loc(v[1])
    if k == "at":
        return loc(v[1])
    if k == "fld":
        b = v[1]
        if b[0] == "at":
            b = b[1]
            if b[0] == "d":
                return "%s->%s" % (val(b[1]), v[2])
            return "%s.%s" % (loc(b), v[2])
        return "%s.%s" % (val(b), v[2])
    if k == "loc":
        return "<" + loc(v[1]) + ">"
    if k == "op":
        if len(v) == 4 and v[1] in ("+", "-", "*", "/", "==", "<", "%", "cat"):
            return "(%s %s %s)" % (val(v[2]), v[1], val(v[3]))
        if v[1] == "!":
            return "!" + val(v[2])
        if v[1] == "fn":
            return "%s(%s)" % (short(str(v[2])),
                               ", ".join(val(x) for x in v[3:]))
        return "%s(%s)" % (v[1], ", ".join(val(x) for x in v[2:]))
    if k == "ret":
        a = v[2][1:] if len(v) > 2 else ()
        r = v[2][0] if len(v) > 2 else None
        return "%s%s(%s)" % ((val(r) + "->") if r else "", short(str(v[1])),
                             ", ".join(val(x) for x in a))
    if k == "out":
        return "out(%s)" % short(str(v[1]))
    if k in ("cur", "rcur"):
        return "it(%s)" % ident(v[1])
    if k == "find":
        return "find(%s,%s)" % (ident(v[1]), val(v[2]))
    if k == "end":
        return "end(%s)" % ident(v[1])
    if k == "cont":
        return "{%s}" % v[1]
    if k == "struct":
        return "{%s}" % ", ".join("%s=%s" % (".".join(p), val(x))
                                  for p, x in v[2])
    if k == "sym":
        return "?" + ":".join(str(x) for x in v[1:2])
    return str(v)


def event(e):
    if e[0] == "each":
        return "each %s: %s" % (ident(e[1]), " | ".join(
            "[" + "; ".join(event(x) for x in seg) + "]"
            for seg in sorted(e[3], key=repr)))
    if e[0] == "it":
        return "in iteration over %s" % ident(e[1])
    if e[0] == "store":
        return "%s := %s" % (loc(e[1]), val(e[2]))
    out = []
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out.append("(" + ", ".join(val(y) for y in x) + ")")
        elif isinstance(x, tuple):
            out.append(val(x))
        else:
            out.append(short(str(x)))
    return e[0] + " " + " ".join(out)


def trace(t):
    return "; ".join(event(e) for e in t)


def facts(f):
    out = []
    for k, v in f.items():
        if k[0] == "val":
            out.append("%s==%s" % (val(k[1]), val(v)))
        elif k[0] == "ne":
            out.append("%s not in {%s}" % (val(k[1]),
                                           ",".join(val(x) for x in v)))
        elif k[0] == "isa":
            out.append("%s%s isa %s" % ("" if v else "!", val(k[1]),
                                        short(k[2])))
        elif k[0] == "has":
            out.append("%s%s has %s" % ("" if v else "!", ident(k[1]),
                                        val(k[2])))
        elif k[0] == "empty":
            out.append("%s %s" % (ident(k[1]),
                                  "empty" if v else "not empty"))
        elif k[0] in ("eq", "lt"):
            out.append("%s%s %s %s" % ("" if v else "!", val(k[1]),
                                       "==" if k[0] == "eq" else "<",
                                       val(k[2])))
    return out
