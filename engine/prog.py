"""Program model: loads the facts that gfacts dumps (one JSON per translation
unit) and offers resolved functions, classes, enums and globals."""
import json
import os
from collections import defaultdict


class Fn:
    __slots__ = ("key", "q", "n", "file", "line", "endline", "ret", "params",
                 "cls", "lam", "virt", "static", "ctor", "dtor", "over",
                 "nodes", "blocks", "entry", "exit", "body", "internal",
                 "noret", "_cross", "_newctor", "_live", "_ownvars", "_defblk",
                 "access", "_parents", "_refvars")

    def __init__(self, o, base):
        self.key = o["key"]
        self.q = o["q"]
        self.n = o["n"]
        self.file = o["file"]
        self.line = o["line"]
        self.endline = o.get("endline", self.line)
        self.ret = o["ret"]
        self.params = o["params"]
        for p in self.params:
            p["id"] += base
        self.cls = o.get("cls")
        self.lam = o.get("lambda", False)
        self.virt = bool(o.get("virt"))
        self.static = bool(o.get("static"))
        self.ctor = bool(o.get("ctor"))
        self.dtor = bool(o.get("dtor"))
        self.over = o.get("over", [])
        self.access = o.get("access", 0)
        self.internal = bool(o.get("internal"))
        self.noret = bool(o.get("noret"))
        self.nodes = o["nodes"]
        for nd in self.nodes:
            remap(nd, base)
        cfg = o["cfg"]
        self.body = o["body"]
        self.blocks = {}
        if cfg:
            self.blocks = {int(k): v for k, v in cfg["b"].items()}
            self.entry = cfg["entry"]
            self.exit = cfg["exit"]
        else:
            self.entry = self.exit = None
        self._cross = None
        self._newctor = None
        self._live = None
        self._ownvars = None
        self._parents = None
        self._refvars = None

    # -- helpers
    def kids(self, nid):
        return self.nodes[nid].get("c", [])

    def where(self, nid=None):
        if nid is None:
            return "%s:%d" % (self.file, self.line)
        nd = self.nodes[nid]
        return "%s:%d" % (nd.get("f", self.file), nd["l"])

    def parents(self):
        if self._parents is None:
            p = {}
            for i, nd in enumerate(self.nodes):
                for c in nd.get("c", []):
                    p.setdefault(c, []).append(i)
                for d in nd.get("decls", []):
                    if "init" in d:
                        p.setdefault(d["init"], []).append(i)
            self._parents = p
        return self._parents

    def walk(self, nid=None):
        """All node ids under nid (the whole body, ctor initialisers
        included, when nid is None)."""
        if nid is None:
            yield from range(len(self.nodes))
            return
        seen = set()
        st = [nid]
        while st:
            x = st.pop()
            if x in seen or x < 0:
                continue
            seen.add(x)
            yield x
            nd = self.nodes[x]
            st.extend(nd.get("c", []))
            for d in nd.get("decls", []):
                if "init" in d:
                    st.append(d["init"])

    def ownvars(self):
        if self._ownvars is None:
            s = {p["id"] for p in self.params}
            for nd in self.nodes:
                for d in nd.get("decls", []):
                    s.add(d["id"])
            self._ownvars = s
        return self._ownvars

    def newctor(self):
        """Constructor expressions that are the initialiser of a new."""
        if self._newctor is None:
            s = set()
            for nd in self.nodes:
                if nd["k"] == "CXXNewExpr":
                    for c in nd.get("c", []):
                        if self.nodes[c]["k"] == "CXXConstructExpr":
                            s.add(c)
            self._newctor = s
        return self._newctor

    def cross(self):
        """Nodes whose value is used outside the block that computes it."""
        if self._cross is not None:
            return self._cross
        defblk = {}
        for b, blk in self.blocks.items():
            for e in blk["e"]:
                if isinstance(e, int):
                    defblk[e] = b
        res = set()

        def use(nid, b, seen):
            if nid in seen:
                return
            seen.add(nid)
            d = defblk.get(nid)
            if d is not None:
                if d != b:
                    res.add(nid)
                return
            nd = self.nodes[nid]
            for c in nd.get("c", []):
                use(c, b, seen)
            for dd in nd.get("decls", []):
                if "init" in dd:
                    use(dd["init"], b, seen)

        for b, blk in self.blocks.items():
            for e in blk["e"]:
                if isinstance(e, int):
                    nd = self.nodes[e]
                    seen = set()
                    for c in nd.get("c", []):
                        use(c, b, seen)
                    for dd in nd.get("decls", []):
                        if "init" in dd:
                            use(dd["init"], b, seen)
                elif e.get("expr", -1) >= 0:
                    use(e["expr"], b, set())
            t = blk.get("t")
            if t and t.get("c", -1) >= 0:
                use(t["c"], b, set())
        self._cross = res
        return res

    def live(self):
        """Per block: ids of local variables live on entry.  A variable whose
        address is taken, or bound to a reference or captured, stays live in
        its scope."""
        if self._live is not None:
            return self._live
        sticky = set()
        use, decl, mark = {}, {}, {}
        for b, blk in self.blocks.items():
            u, dc = set(), set()
            seen = set()

            def visit(nid):
                if nid in seen:
                    return
                seen.add(nid)
                nd = self.nodes[nid]
                if nd["k"] == "DeclRefExpr" and "d" in nd and "id" in nd["d"]:
                    if nd["d"]["id"] not in dc:
                        u.add(nd["d"]["id"])
                if nd["k"] == "LambdaExpr":
                    for c in nd.get("c", []):
                        if self.nodes[c]["k"] == "DeclRefExpr":
                            sticky.add(self.nodes[c]["d"].get("id"))
                for c in nd.get("c", []):
                    visit(c)
                for dd in nd.get("decls", []):
                    if "init" in dd:
                        visit(dd["init"])

            m = []
            for e in blk["e"]:
                if isinstance(e, int):
                    visit(e)
                    m.append(e)
                    if self.nodes[e]["k"] == "DeclStmt":
                        for dd in self.nodes[e].get("decls", []):
                            dc.add(dd["id"])
                elif e.get("expr", -1) >= 0:
                    visit(e["expr"])
                    m.append(e["expr"])
            t = blk.get("t")
            if t and t.get("c", -1) >= 0:
                visit(t["c"])
                m.append(t["c"])
            use[b], decl[b], mark[b] = u, dc, m
        # address taken / bound to a reference
        for i, nd in enumerate(self.nodes):
            if nd["k"] == "UnaryOperator" and nd.get("op") == "&":
                for x in self.walk(nd["c"][0]):
                    d = self.nodes[x].get("d")
                    if d and "id" in d:
                        sticky.add(d["id"])
            for dd in nd.get("decls", []):
                if dd.get("ref") and "init" in dd:
                    for x in self.walk(dd["init"]):
                        d = self.nodes[x].get("d")
                        if d and "id" in d:
                            sticky.add(d["id"])
        live = {b: set() for b in self.blocks}
        scope = self.scopes(sticky)
        for b in self.blocks:
            for v in sticky:
                s = scope.get(v)
                if s is None or any(x in s for x in mark[b]):
                    live[b].add(v)
        changed = True
        while changed:
            changed = False
            for b, blk in self.blocks.items():
                n = use[b] | live[b]
                for s in blk["s"]:
                    if s is not None and s in live:
                        x = live[s] - decl[b]
                        if mark[b]:
                            # out of scope
                            x = {v for v in x if v not in sticky}
                        n |= x
                if n != live[b]:
                    live[b] = n
                    changed = True
        self._live = live
        return live

    SCOPES = ("CompoundStmt", "ForStmt", "CXXForRangeStmt", "IfStmt",
              "WhileStmt", "SwitchStmt", "CXXCatchStmt", "DoStmt")

    def scopes(self, vs):
        """The nodes in the scope of each of the variables declared here."""
        out = {}
        par = self.parents()
        memo = {}
        for i, nd in enumerate(self.nodes):
            for dd in nd.get("decls", []):
                if dd["id"] not in vs:
                    continue
                n = i
                while n is not None and \
                        self.nodes[n]["k"] not in self.SCOPES:
                    n = par.get(n, [None])[0]
                if n is None:
                    continue
                if n not in memo:
                    memo[n] = set(self.walk(n))
                out[dd["id"]] = memo[n]
        return out


def remap(nd, base):
    d = nd.get("d")
    if d is not None and "id" in d:
        d["id"] += base
    for dd in nd.get("decls", []):
        dd["id"] += base


class Prog:
    def __init__(self, jdir, names=None):
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        self.units = []
        self.errors = []
        files = sorted(f for f in os.listdir(jdir) if f.endswith(".json"))
        for i, f in enumerate(files):
            if names is not None and f[:-5] not in names:
                continue
            with open(os.path.join(jdir, f)) as fh:
                o = json.load(fh)
            self.units.append(f[:-5])
            if o["errors"]:
                self.errors.append(f)
            base = (i + 1) * 1000000
            for fo in o["functions"]:
                if fo["key"] in self.fns:
                    continue
                self.fns[fo["key"]] = Fn(fo, base)
            for c in o["classes"]:
                self.classes.setdefault(c["n"], c)
            for e in o["enums"]:
                self.enums.setdefault(e["n"], e)
            for g in o["globals"]:
                old = self.globals.get(g["n"])
                if old is None or ("init" in g and "init" not in old):
                    for nd in g["nodes"]:
                        remap(nd, base)
                    self.globals[g["n"]] = g
        self.byq = defaultdict(list)
        for f in self.fns.values():
            self.byq[f.q].append(f)
        self.over = defaultdict(set)     # method key -> direct overriders
        for c in self.classes.values():
            for m in c["methods"]:
                for o in m["over"]:
                    self.over[o].add((c["n"], m["key"]))
        self.enumval = {}
        self.enumname = {}
        for e in self.enums.values():
            for k in e["c"]:
                self.enumval[k["n"]] = k["v"]
                self.enumname[(e["n"], k["v"])] = k["n"]

    # -- classes
    def bases(self, c):
        """c and all its bases, nearest first."""
        out = []
        work = [c]
        while work:
            x = work.pop(0)
            if x in out:
                continue
            out.append(x)
            if x in self.classes:
                work.extend(self.classes[x]["bases"])
        return out

    def isa(self, c, b):
        return b in self.bases(c)

    def derived(self, b):
        return [c for c in self.classes if self.isa(c, b)]

    def final(self, cls, mkey):
        """The method that a virtual call to mkey runs on an exact cls."""
        chain = self.bases(cls)
        roots = self.rootset(mkey)
        for c in chain:
            if c not in self.classes:
                continue
            for m in self.classes[c]["methods"]:
                if m["key"] == mkey or (self.rootset(m["key"]) & roots):
                    return m["key"]
        return mkey

    def rootset(self, mkey):
        cache = self.__dict__.setdefault("_roots", {})
        if mkey in cache:
            return cache[mkey]
        idx = self.__dict__.get("_midx")
        if idx is None:
            idx = {}
            for c in self.classes.values():
                for m in c["methods"]:
                    idx[m["key"]] = m
            self._midx = idx
        m = idx.get(mkey)
        if m is None or not m["over"]:
            r = {mkey}
        else:
            r = set()
            for o in m["over"]:
                r |= self.rootset(o)
        cache[mkey] = r
        return r

    def fn1(self, q, nparams=None):
        """The one function with that qualified name (and arity)."""
        c = [f for f in self.byq.get(q, [])
             if nparams is None or len(f.params) == nparams]
        if len(c) != 1:
            raise AnchorGone("expected exactly one definition of %s%s, found %d"
                             % (q, "" if nparams is None else "/%d" % nparams,
                                len(c)))
        return c[0]

    def method(self, cls, name, nparams=None):
        """The definition of the method that an exact cls runs."""
        for c in self.bases(cls):
            k = [f for f in self.byq.get(c + "::" + name, [])
                 if nparams is None or len(f.params) == nparams]
            if len(k) == 1:
                return k[0]
        raise AnchorGone("no method %s of %s" % (name, cls))

    def enum(self, n):
        if n not in self.enumval:
            raise AnchorGone("enum constant %s is gone" % n)
        return self.enumval[n]


class AnchorGone(Exception):
    pass
