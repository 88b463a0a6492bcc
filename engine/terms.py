"""Evaluation of abstract values (terms) under an assignment of the opaque
ones; None-free: raises Opaque when a term is not understood."""

NPOS = 2 ** 64 - 1


class Opaque(Exception):
    pass


def ev(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k in ("int", "flt", "str"):
        return t[1]
    if k != "op":
        raise Opaque(t)
    op = t[1]
    if op == "fn":
        f = env.get(("fn", t[2]))
        if f is None:
            raise Opaque(t)
        return f(*[arg(x, env) for x in t[3:]])
    a = [ev(x, env) for x in t[2:]]
    if op == "!":
        return not a[0]
    if op in ("==", "<", "<=", ">", ">=", "!=") and len(a) == 2:
        x, y = a
        if isinstance(x, str) != isinstance(y, str):
            raise Opaque(t)
        return {"==": x == y, "<": x < y, "<=": x <= y, ">": x > y,
                ">=": x >= y, "!=": x != y}[op]
    if op == "+" and isinstance(a[0], str):
        return a[0] + (a[1] if isinstance(a[1], str) else chr(a[1]))
    if op == "cat":
        return "".join(x if isinstance(x, str) else chr(x) for x in a)
    if op in ("+", "-", "*"):
        r = {"+": a[0] + a[1], "-": a[0] - a[1], "*": a[0] * a[1]}[op]
        return r & NPOS if isinstance(r, int) else r
    if op == "idx":
        return ord(a[0][a[1]]) if a[1] < len(a[0]) else 0
    if op in ("find", "rfind", "find_first_of", "find_last_of"):
        s, x = a[0], a[1]
        x = x if isinstance(x, str) else chr(x)
        r = s.find(x, a[2] if len(a) > 2 else 0) if op.startswith("find_f") \
            or op == "find" else s.rfind(x)
        return r if r >= 0 else NPOS
    if op == "substr":
        s, i = a[0], a[1]
        n = a[2] if len(a) > 2 else NPOS
        if i > len(s):
            raise Opaque(("out of range", t))
        return s[i:] if n >= len(s) - i else s[i:i + n]
    if op == "size":
        return len(a[0])
    if op in ("compare", "cmp"):
        return (a[0] > a[1]) - (a[0] < a[1])
    raise Opaque(t)


def arg(x, env):
    try:
        return ev(x, env)
    except Opaque:
        return x


def holds(facts, env):
    """Do the facts of a path hold?  Facts about opaque terms are taken to
    be possible."""
    for k, v in facts.items():
        try:
            if k[0] == "val":
                if ev(k[1], env) != v[1]:
                    return False
            elif k[0] == "ne":
                x = ev(k[1], env)
                if any(x == y[1] for y in v if y[0] in ("int", "str")):
                    return False
            elif k[0] == "eq":
                if (ev(k[1], env) == ev(k[2], env)) != v:
                    return False
            elif k[0] == "lt":
                if (ev(k[1], env) < ev(k[2], env)) != v:
                    return False
        except Opaque:
            continue
    return True
