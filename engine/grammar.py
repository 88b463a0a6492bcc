"""Constant tables of the parser, read from their initialisers."""
from prog import AnchorGone
from absint import isstring, iscont


def read(g):
    nodes = g["nodes"]

    def ev(i):
        nd = nodes[i]
        k = nd["k"]
        if k == "DeclRefExpr" and nd.get("d", {}).get("dk") == "func":
            return ("fn", nd["d"]["key"])
        if "cv" in nd:
            return nd["cv"]
        if k == "StringLiteral":
            return nd.get("v", "")
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return None
        c = [x for x in nd.get("c", [])
             if nodes[x]["k"] != "CXXDefaultArgExpr"]
        if k == "InitListExpr":
            vs = [ev(x) for x in c]
            return dict(zip(nd["fields"], vs)) if "fields" in nd else vs
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            cls = nd["cls"]
            if cls.startswith("std::pair<") and len(c) == 2:
                return (ev(c[0]), ev(c[1]))
            if not c:
                return "" if isstring(cls) else []
            return ev(c[0])
        if k == "ImplicitValueInitExpr":
            return 0
        if len(c) == 1:
            return ev(c[0])
        raise AnchorGone("table initialiser: %s at line %s"
                         % (k, nd.get("l")))
    return ev(g["init"])


def tables(p, valtype):
    """The constant maps from strings to valtype (prefix) of the program."""
    out = []
    for n, g in sorted(p.globals.items()):
        t = g["t"].replace("const ", "")
        if "init" in g and g.get("def") and t.startswith(
                "std::map<std::basic_string<char>, " + valtype):
            out.append((n, g, read(g)))
    return out


def words(p):
    """The constant maps from strings to numbers, strings or pairs of those:
    [(name, rows)]."""
    out = []
    for n, g in sorted(p.globals.items()):
        t = g["t"].replace("const ", "")
        if "init" not in g or not g.get("def") or not t.startswith((
                "std::map<std::basic_string<char>, ",
                "std::unordered_map<std::basic_string<char>, ")):
            continue
        try:
            rows = read(g)
        except AnchorGone:
            continue
        if isinstance(rows, list) and all(
                isinstance(r, tuple) and len(r) == 2 and
                isinstance(r[0], str) and (
                    isinstance(r[1], (int, str)) or
                    isinstance(r[1], tuple) and all(
                        isinstance(x, (int, str)) for x in r[1]))
                for r in rows):
            out.append((n, rows))
    return out


def table(p, valtype):
    ts = tables(p, valtype)
    if len(ts) != 1:
        raise AnchorGone("%d tables of %s" % (len(ts), valtype))
    return ts[0]


class Grammar:
    def __init__(self, p):
        n, g, rows = table(p, "ginga::ParserSyntaxElt")
        self.where = "%s:%d" % (g["file"].split("/repo/")[-1], g["line"])
        self.p = p
        self.dup = []
        self.tags = {}
        fl = {k: p.enum("ginga::PARSER_SYNTAX_" + k) for k in (
            "ELT_CACHE", "ELT_GEN_ID", "ATTR_NONEMPTY", "ATTR_REQUIRED",
            "ATTR_TYPE_ID", "ATTR_TYPE_IDREF", "ATTR_TYPE_NAME",
            "ATTR_UNIQUE")}
        self.flag = fl
        for tag, e in rows:
            if tag in self.tags:
                self.dup.append(tag)
                continue
            self.tags[tag] = {
                "push": e["push"][1] if e["push"] else None,
                "pop": e["pop"][1] if e["pop"] else None,
                "cache": bool(e["flags"] & fl["ELT_CACHE"]),
                "genid": bool(e["flags"] & fl["ELT_GEN_ID"]),
                "parents": list(e["parents"]),
                "attrs": {a["name"]: a["flags"] for a in e["attributes"]},
                "attrlist": [a["name"] for a in e["attributes"]],
            }

    def required(self, tag, name):
        t = self.tags[tag]
        f = t["attrs"].get(name)
        return f is not None and (
            bool(f & self.flag["ATTR_REQUIRED"])
            or name == "id" and t["genid"])

    def children(self, tag):
        return [t for t, e in self.tags.items() if tag in e["parents"]]

    def chains(self, tag):
        """Do all chains of ancestors of tag end at a root?"""
        seen = set()
        work = [tag]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            work.extend(self.tags[t]["parents"])
        return seen

    def within(self, tag, anc):
        """Is every tag element inside an anc element?"""
        if tag == anc:
            return False
        seen = set()
        work = [tag]
        while work:
            t = work.pop()
            if t in seen:
                continue
            seen.add(t)
            ps = self.tags[t]["parents"]
            if not ps:
                return False
            work.extend(x for x in ps if x != anc)
        return True
