"""Path-sensitive dataflow over Player::setProperty with the hooks of every
class of player analysed in place, for every known property name (and unknown
ones), the tables of properties and aliases being read from their
initialisers: what a path leaves in the player, as terms over the value, the
size of the screen and the other properties, against the meaning of the
property."""
import re
import grammar
import own
import pp
import terms
import trans
from absint import Engine, State, ZERO, ONE, mentions

PL, M, FM, AN = ("o", "player"), ("o", "media"), ("o", "formatter"), \
    ("o", "animator")
PROP = ("f", PL, "_prop")
PROPS = trans.fld(PL, "_properties")
MAX = 2 ** 31 - 1
NONE = 2 ** 64 - 1
W, H, RW, RH = 1000, 700, 130, 90
V = ("sym", "value")
WAVES = ("sine square saw triangle silence white-noise pink-noise sine-table "
         "ticks gaussian-noise red-noise blue-noise violet-noise").split()

DEFAULTS = {
    "background": "", "backgroundColor": "", "bottom": "0%",
    "bounds": "0%,0%,100%,100%", "debug": "false", "duration": "indefinite",
    "explicitDur": "indefinite", "focusIndex": "",
    "focusBorderColor": "yellow", "focusBorderWidth": "4",
    "focusBorderTransparency": "0%", "selBorderColor": "yellow",
    "height": "100%", "left": "0", "location": "0,0", "right": "0%",
    "size": "100%,100%", "top": "0", "transparency": "0%",
    "visible": "true", "width": "100%", "zIndex": "0", "zOrder": "0",
    "uri": "", "type": "application/x-ginga-timer",
    "transIn": "", "transOut": "", "someProperty": ""}

TEXT = {
    "fontColor": "black", "fontBgColor": "", "fontFamily": "sans",
    "fontSize": "12", "fontStyle": "", "fontVariant": "", "fontWeight": "",
    "horzAlign": "left", "vertAlign": "top"}
WORDS = {
    "fontStyle": ("", "normal", "italic"), "fontVariant": ("", "small-caps"),
    "fontWeight": ("", "normal", "bold"),
    "horzAlign": ("", "left", "right", "center", "justified"),
    "vertAlign": ("", "top", "middle", "bottom")}
SIGGEN = {"freq": "440", "wave": "sine", "volume": "100%"}

# what the base sets anew with each reset; the others would overwrite those
INIT = ("background debug duration focusIndex focusBorderColor "
        "focusBorderWidth focusBorderTransparency selBorderColor height left "
        "top transparency visible width zIndex zOrder uri type").split()
NOINIT = "bottom bounds location right size".split()

FIELDS = {
    "bgColor": (), "rect.x": (), "rect.y": (), "rect.width": (),
    "rect.height": (), "duration": (), "debug": (), "visible": (),
    "alpha": (), "zindex": (), "zorder": (), "focusIndex": (),
    "focusBorderColor": (), "focusBorderWidth": (),
    "focusBorderTransparency": (), "selBorderColor": (), "type": (),
    "uri": ()}


# -- What the utilities yield for the values tried --------------------------

def percent(s, base, lo, hi):
    n = {"100%": base, "0": 0, "0%": 0, "-": -50, "+": 10 ** 12}.get(
        s, base * 3 // 10)
    return max(lo, min(hi, n))


def pixel(s):
    return int(s) if s.isdigit() else percent(s, 255, 0, 255)


def toint(s, base=10):
    return {"4": 4, "0": 0}.get(s, -17) if base == 10 else 999


def boolean(s):
    return int(s == "true")


def time(s):
    return NONE if s == "indefinite" else 5000


def color(s):
    return "color of " + s


def number(s, end=None):
    return "number " + s


FUNS = {"ginga::parse_percent": percent, "ginga::parse_pixel": pixel,
        "ginga::xstrtoint": toint, "ginga::parse_bool": boolean,
        "ginga::parse_time": time, "ginga::parse_color": color,
        "ginga::xstrtodorpercent": number,
        "ginga::Formatter::getOptionInt": {"width": W, "height": H}.get}


def expected(name, v, env, cls):
    """(fields, media's properties set, animator called?)  None: refused."""
    d = dict(DEFAULTS)
    if cls == "ginga::PlayerText":
        d.update(TEXT)
    if cls == "ginga::PlayerSigGen":
        d.update(SIGGEN)
    e = d[name] if v == "" else v
    side = lambda p: [(p, env["prop"])] if env["prop"] else []
    one = lambda f, x: ({f: x}, [], False)
    if cls == "ginga::PlayerText" and name in TEXT:
        if name in WORDS and e not in WORDS[name]:
            return None
        return one(name, color(e) if name.endswith("Color") else e)
    if cls == "ginga::PlayerSigGen" and name in SIGGEN:
        if name == "wave":
            return one(name, WAVES.index(e)) if e in WAVES else ({}, [], 0)
        return one(name, number(e))
    if name in ("background", "backgroundColor"):
        return one("bgColor", color(e) if e else None)
    if name in ("bounds", "location", "size"):
        if env["list"] != (4 if name == "bounds" else 2):
            return None
        return {}, {"bounds": ["left", "top", "width", "height"],
                    "location": ["left", "top"],
                    "size": ["width", "height"]}[name], False
    if name == "left":
        return one("rect.x", percent(e, W, 0, MAX))
    if name == "top":
        return one("rect.y", percent(e, H, 0, MAX))
    if name == "right":
        return one("rect.x", W - RW - percent(e, W, 0, MAX))
    if name == "bottom":
        return one("rect.y", H - RH - percent(e, H, 0, MAX))
    if name == "width":
        return {"rect.width": percent(e, W, 0, MAX)}, side("right"), False
    if name == "height":
        return {"rect.height": percent(e, H, 0, MAX)}, side("bottom"), False
    if name == "transparency":
        return one("alpha", 255 - pixel(e))
    if name == "focusBorderTransparency":
        return one(name, 255 - pixel(e))
    if name in ("focusBorderColor", "selBorderColor"):
        return one(name, color(e))
    if name == "focusBorderWidth":
        return one(name, toint(e))
    if name in ("zIndex", "zOrder"):
        return one(name.lower(), toint(e))
    if name in ("debug", "visible"):
        return one(name, boolean(e))
    if name in ("duration", "explicitDur"):
        return one("duration", time(e))
    if name in ("focusIndex", "uri", "type"):
        return one(name, e)
    return {}, [], name in ("transIn", "transOut")


def values(name, cls):
    if name in ("bounds", "location", "size"):
        return ["", "q"]
    if name in ("debug", "visible"):
        return ["", "true", "false"]
    if name in ("transparency", "focusBorderTransparency"):
        return ["", "0", "1", "128", "255"]
    if name in ("duration", "explicitDur"):
        return ["", "indefinite", "q"]
    if name in ("left", "right", "top", "bottom", "width", "height"):
        return ["", "q", "-", "+"] if name not in ("right", "bottom") \
            else ["", "q", "-"]
    if cls == "ginga::PlayerText" and name in WORDS:
        return list(WORDS[name]) + ["q"]
    if cls == "ginga::PlayerSigGen" and name == "wave":
        return WAVES + ["q"]
    return ["", "q"]


# -- The player under analysis -----------------------------------------------

class Pol(own.Fill):
    nohook = False
    init = True

    def element(self, eng, st, cur):
        st.mem[("f", ("f", ("elem", cur[1], cur), "second"), "init")] = \
            ONE if self.init else ZERO

    def vals(self, eng, st, c):
        return tuple(eng.rv(st, a) for a in c.args)

    def call(self, eng, st, c):
        q = c.q
        m = re.match("ginga::try_parse_(.*)$", q)
        if m and len(c.args) == 2:
            a = self.vals(eng, st, c)
            f = ("op", "fn", "ginga::parse_" + m.group(1), a[0])
            t = st.copy()
            if a[1][0] in ("ptr", "loc"):
                eng.store(t, a[1][1], f)
                self.store(eng, t, a[1][1], f, c.fn, c.nid)
            ok = ("op", "fn", q, a[0])
            st.facts[("val", ok)] = ZERO
            t.facts[("val", ok)] = ONE
            return [(ONE, t), (ZERO, st)]
        if m or q in FUNS or q.startswith("ginga::parse_"):
            return [(("op", "fn", q) + self.vals(eng, st, c), st)]
        if q.startswith("ginga::Formatter::getOption"):
            return [(("op", "fn", q) + self.vals(eng, st, c), st)]
        if c.recv == ("ptr", M) and c.name == "getProperty":
            return [(("op", "fn", "property") + self.vals(eng, st, c)[:1],
                     st)]
        if c.recv == ("ptr", M) and c.name == "setProperty":
            st.emit("setprop", *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if c.recv == ("ptr", PL) and c.name == "getProperty":
            return [(("op", "fn", "own property") +
                     self.vals(eng, st, c)[:1], st)]
        if c.name == "ncluaw_send_ncl_event":
            st.emit("lua", *self.vals(eng, st, c)[1:])
            return [(ONE, st)]
        if c.cls == "ginga::PlayerAnimator":
            st.emit("anim", c.name, *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if self.nohook and c.recv == ("ptr", PL) and c.name == "setProperty":
            st.emit("set", *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        if self.nohook and c.recv == ("ptr", PL) and \
                c.name in ("reload", "resetProperties"):
            st.emit(c.name, *self.vals(eng, st, c))
            return [(("sym", "void"), st)]
        return own.Fill.call(self, eng, st, c)

    def store(self, eng, st, loc, val, fn, nid):
        l = loc
        while l[0] == "f":
            l = l[1]
        if l == PL or l[0] == "elem":
            st.emit("store", loc, val)


def tables(ctx, st, names):
    """What the tables of properties and aliases hold."""
    n = 0
    info = {}
    for name, g in sorted(ctx.p.globals.items()):
        t = g["t"].replace("const ", "")
        if "init" not in g or not g.get("def"):
            continue
        m = re.match(r"std::(?:unordered_)?map<std::basic_string<char>, (.*?)>"
                     "?$", t)
        if not m or "Player" not in name or not (
                m.group(1).startswith("ginga::PlayerPropertyInfo") or
                m.group(1).startswith("std::basic_string<char>")):
            continue
        d = {}
        for k, v in grammar.read(g):
            d.setdefault(k, v)
        if not set(d) & set(names):
            continue
        n += 1
        i = ("at", ("g", name))
        st.facts[("empty", i)] = not d
        for w in sorted(set(names) | set(d)):
            k = ("str", w)
            st.facts[("has", i, k)] = w in d
            if w not in d:
                continue
            e = ("elem", i, ("find", i, k))
            st.mem[("f", e, "first")] = k
            s = ("f", e, "second")
            if isinstance(d[w], dict):
                for f, x in d[w].items():
                    st.mem[("f", s, f)] = st.mem[("f", e, f)] = \
                        ("str", x) if isinstance(x, str) else ("int", x)
                info.setdefault(w, d[w])
            else:
                st.mem[s] = st.mem[e] = ("str", d[w])
    ctx.require(n, 1, "tables of player properties")
    return info


def fieldloc(f):
    l = PROP
    for x in f.split("."):
        l = ("f", l, x)
    return l


def play(ctx, cls, q, args, nohook=False, names=(), tweak=None, n=None):
    p = ctx.p
    pol = Pol(p, None)
    pol.nohook = nohook
    pol.classes = {PL: cls, M: "ginga::Media", FM: "ginga::Formatter"}
    eng = Engine(p, pol)
    st = State()
    for f, o in (("_media", M), ("_formatter", FM), ("_animator", AN)):
        st.mem[("f", PL, f)] = ("ptr", o)
    tables(ctx, st, names or list(DEFAULTS))
    if tweak:
        tweak(st)
    fn = p.fn1(q, len(args) if n is None else n)
    res = eng.run(fn, list(args), st, ("ptr", PL))
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    return fn, eng, pol, res


def show(st):
    return "facts: %s\npath: %s" % (
        "; ".join(x for x in pp.facts(st.facts) if "_table" not in x and
                  "property_" not in x), pp.trace(st.trace))


def known(f):
    def g(*a):
        if a and not isinstance(a[0], str):
            raise terms.Opaque(a[0])
        return f(*a)
    return g


def environment(v, e):
    t = {V: v, ("fld", ("fld", ("fld", ("at", PL), "_prop"), "rect"),
                "width"): RW,
         ("fld", ("fld", ("fld", ("at", PL), "_prop"), "rect"),
          "height"): RH}
    for k, f in FUNS.items():
        t[("fn", k)] = known(f)
    t[("fn", "property")] = lambda n: e["prop"]
    t[("fn", "own property")] = lambda n: e.get("type", "")
    t[("fn", "ginga::try_parse_list")] = lambda s, sep, lo, hi, *a: int(
        sep in (44, ",") and lo <= e["list"] <= hi)
    t[("fn", "ginga::try_parse_color")] = lambda *a: 1
    return t


def value(t, env):
    try:
        return terms.ev(t, env)
    except (terms.Opaque, KeyError, TypeError, AttributeError):
        return ("not understood", pp.val(t))


def field_value(eng, st, f, want, env):
    l = fieldloc(f)
    if want is None:            # no color at all
        sub = [value(eng.load(st, ("f", l, x)), env)
               for x in ("red", "green", "blue", "alpha")]
        return None if all(x == 0 and not isinstance(x, tuple)
                           for x in sub) else sub
    return value(eng.load(st, l), env)


def names_of(cls):
    n = list(DEFAULTS)
    if cls == "ginga::PlayerText":
        n += list(TEXT)
    if cls == "ginga::PlayerSigGen":
        n += list(SIGGEN)
    return n


def setting(ctx, cls, name):
    fn, eng, pol, res = play(ctx, cls, "ginga::Player::setProperty",
                             [("str", name), V], names=names_of(cls))
    lab = "%s of a %s" % (name, cls.split("::")[1])
    key = "%s %s" % (cls.split("::")[1], name)
    fresh = State()
    own_fields = [f for f in list(TEXT) + list(SIGGEN)
                  if f in names_of(cls)]

    def bad(what, v, st, k=""):
        ctx.violation("%s%s" % (key, k), "%s: setting %s to \"%s\" %s" % (
            fn.where(), lab, v, what), show(st) if st else "")

    for v in values(name, cls):
        for e in [{"prop": x, "list": n} for x in ("", "17")
                  for n in range(6)]:
            if e["list"] and name not in ("bounds", "location", "size") or \
                    e["prop"] and name not in ("width", "height"):
                continue
            want = expected(name, v, e, cls)
            env = environment(v, e)
            live = [st for _, st in res if terms.holds(st.facts, env)]
            ctx.count("obligations")
            if want is None:
                for st in live:
                    bad("is not refused", v, st, " refused")
                continue
            if not live:
                bad("never succeeds", v, None, " never")
                continue
            fields, media, anim = want
            for st in live:
                for f in list(FIELDS) + own_fields:
                    if f in fields:
                        x = field_value(eng, st, f, fields[f], env)
                        if x != fields[f]:
                            bad("leaves %s %s, not %s" % (
                                f, x, fields[f]), v, st, " " + f)
                    else:
                        l = fieldloc(f)
                        if eng.load(st, l) != eng.load(fresh, l):
                            bad("changes " + f, v, st, " changes " + f)
                if ("rect.width" in fields or "rect.height" in fields) and \
                        st.mem.get(("f", PL, "_dirty")) != ONE:
                    bad("does not have the player drawn anew", v, st,
                        " dirty")
                check_media(bad, v, st, media, fields, env, eng)
                a = [x for x, i in trans.flat(st.trace) if x[0] == "anim"]
                if bool(a) != bool(anim) or anim and not (
                        len(a) == 1 and a[0][1] == "setTransitionProperties"
                        and a[0][2] == ("str", name) and
                        value(a[0][3], env) == v):
                    bad("does not reach the animator as it should", v, st,
                        " animator")
                if value(remembered(eng, st, name), env) != v:
                    bad("is not remembered as it was given", v, st,
                        " remembered")


def remembered(eng, st, name):
    """What the table of the player holds for the name in the end."""
    k = ("str", name)
    e = ("elem", PROPS, ("find", PROPS, k))
    x = ("none",)
    for ev, i in trans.flat(st.trace):
        if ev[0] == "store" and ev[1] in (e, ("f", e, "second")):
            x = ev[2]
        elif ev[0] == "put" and trans.norm(ev[2]) == PROPS:
            a = ev[3:]
            if len(a) == 1:
                a = (eng.field(a[0], "first"), eng.field(a[0], "second"))
            if len(a) == 2 and a[0] == k:
                x = a[1]
    return x


def lua(ctx):
    """The script of an NCLua player is told of each property."""
    p = ctx.p
    for name in ("left", "someProperty"):
        fn, eng, pol, res = play(
            ctx, "ginga::PlayerLua", "ginga::Player::setProperty",
            [("str", name), V], tweak=lambda st: st.mem.update({
                ("f", PL, "_state"): ("int", p.enum(
                    "ginga::Player::OCCURRING")),
                ("f", PL, "_nw"): ("ptr", ("o", "nw"))}))
        e = {"prop": "", "list": 0, "type": "application/x-ginga-NCLua"}
        for v in ("", "q"):
            env = environment(v, e)
            live = [st for _, st in res if terms.holds(st.facts, env)]
            want = v or DEFAULTS[name]
            for st in live:
                got = [tuple(value(x, env) for x in ev[1:])
                       for ev, i in trans.flat(st.trace) if ev[0] == "lua"]
                if got != [("attribution", w, name, want)
                           for w in ("start", "stop")]:
                    ctx.violation(
                        "PlayerLua " + name, "%s: the script is told %s when "
                        "%s is set to \"%s\"" % (fn.where(), got, name, v),
                        show(st))
            if not live:
                ctx.violation("PlayerLua %s never" % name, "%s: setting %s "
                              "never returns" % (fn.where(), name), "")


def check_media(bad, v, st, media, fields, env, eng):
    flat = [x for x, i in trans.flat(st.trace)]
    sets = [(i, x) for i, x in enumerate(flat) if x[0] == "setprop"]
    got = [(value(x[1], env), value(x[2], env)) for i, x in sets]
    if media and isinstance(media[0], str):
        if [g[0] for g in got] != media:
            bad("sets %s of the media, not %s" % (
                [g[0] for g in got], media), v, st, " parts")
        return
    if got != media:
        bad("sets %s of the media, not %s" % (got, media), v, st, " other")
        return
    for i, x in sets:
        after = [y for y in flat[i:] if y[0] == "store" and
                 y[1] in [fieldloc(f) for f in fields]]
        if after:
            bad("sets %s before %s is known" % (
                pp.val(x[1]), "/".join(fields)), v, st, " early")


# -- The rest of the player --------------------------------------------------

def resets(ctx):
    p = ctx.p
    st0 = State()
    info = tables(ctx, st0, list(DEFAULTS))
    fn = p.fn1("ginga::Player::getPlayerProperty")
    for n in INIT:
        if n not in info or not info[n].get("init"):
            ctx.violation("reset " + n, "%s: a reset leaves %s as it was"
                          % (fn.where(), n), "")
    for n in NOINIT:
        if n in info and info[n].get("init"):
            ctx.violation("reset " + n, "%s: a reset of %s overwrites that "
                          "of the properties it stands for" % (
                              fn.where(), n), "")
    for init in (True, False):
        Pol.init = init
        fn, eng, pol, res = play(ctx, "ginga::Player",
                                 "ginga::Player::resetProperties", [],
                                 nohook=True)
        done = 0
        for _, st in res:
            flat = [e for e, i in trans.flat(st.trace)]
            take = [i for i, e in enumerate(flat) if e[0] == "take" and
                    e[1] == "clear" and e[2] == PROPS]
            late = [e for e in flat[take[-1]:] if e[0] == "set"] \
                if take else []
            if not take or late:
                ctx.violation("reset forgets", "%s: a reset remembers "
                              "properties" % fn.where(), show(st))
            one = 0
            for e in flat:
                if e[0] != "set":
                    continue
                if e[1][0] == "str":
                    one |= init and e[1][1] in INIT
                    good = init or e[1][1] not in NOINIT
                else:
                    good = init and e[1][0] == "fld" and e[1][2] == "first"
                    one |= good
                if not good or e[2] != ("str", ""):
                    ctx.violation("reset to", "%s: a reset sets %s to %s" % (
                        fn.where(), pp.val(e[1]), pp.val(e[2])), show(st))
            done += one
            for e in st.trace:
                if e[0] == "each" and not e[4] and any(
                        x[0] == "set" for g in e[3]
                        for x, i in trans.flat(g)):
                    ctx.violation("reset pass", "%s: a reset leaves out "
                                  "properties" % fn.where(), show(st))
        if init and not done:
            ctx.violation("reset sets", "%s: a reset sets nothing"
                          % fn.where(), "")


def fld(name):
    return lambda eng, st: eng.load(st, ("f", PL, name))


def prop(name):
    return lambda eng, st: eng.load(st, fieldloc(name))


def accessors(ctx):
    p = ctx.p

    def one(name, args, what, good, tweak=None):
        fn, eng, pol, res = play(ctx, "ginga::Player",
                                 "ginga::Player::" + name, args, nohook=True,
                                 tweak=tweak)
        if not res:
            ctx.violation(name, "%s: %s never returns" % (fn.where(), name),
                          "")
        for v, st in res:
            if not good(eng, v, st):
                ctx.violation(name, "%s: %s %s" % (fn.where(), name, what),
                              show(st))
    fresh = State()

    def gives(get):
        def good(eng, v, st):
            return v == get(eng, fresh)
        return good

    for name, get in (("getTime", fld("_time")), ("getEOS", fld("_eos")),
                      ("getState", fld("_state")),
                      ("getDuration", prop("duration"))):
        one(name, [], "yields something else", gives(get))
    one("setDuration", [("sym", "t")], "sets something else",
        lambda eng, v, st: prop("duration")(eng, st) == ("sym", "t"))
    one("setEOS", [("sym", "t")], "sets something else",
        lambda eng, v, st: fld("_eos")(eng, st) == ("sym", "t"))
    t0 = ("fld", ("at", PL), "_time")

    def summed(eng, v, st):
        try:
            return terms.ev(fld("_time")(eng, st), {
                t0: 70, ("sym", "t"): 5}) == 75
        except terms.Opaque:
            return False
    one("incTime", [("sym", "t")], "does not add to the time", summed)
    z, o = ("o", "z"), ("o", "order")
    one("getZ", [("ptr", z), ("ptr", o)], "yields something else",
        lambda eng, v, st: st.mem.get(z) == prop("zindex")(eng, fresh) and
        st.mem.get(o) == prop("zorder")(eng, fresh))
    fi = ("fld", ("fld", ("at", PL), "_prop"), "focusIndex")
    fn = p.fn1("ginga::Player::isFocused")
    fn, eng, pol, res = play(ctx, "ginga::Player", "ginga::Player::isFocused",
                             [])
    cur = None
    for name, g in p.globals.items():
        if name.endswith("Player::_currentFocus"):
            cur = name
    for a in ("", "1", "2"):
        for b in ("", "1"):
            env = {fi: a, ("at", ("g", cur)): b, ("g", cur): b}
            live = [(v, st) for v, st in res if terms.holds(st.facts, env)]
            want = a != "" and a == b
            for v, st in live:
                try:
                    x = bool(terms.ev(v, env))
                except terms.Opaque:
                    x = None
                if x != want:
                    ctx.violation("isFocused", "%s: a player with focus index"
                                  " \"%s\" is %sfocused when the focus is at "
                                  "\"%s\"" % (fn.where(), a,
                                              "" if x else "not ", b),
                                  show(st))


def check(ctx):
    p = ctx.p
    classes = ["ginga::Player"] + sorted(
        c for c in p.derived("ginga::Player") if c != "ginga::Player")
    for cls in classes:
        for name in names_of(cls):
            setting(ctx, cls, name)
    if "ginga::PlayerLua" in classes:
        lua(ctx)
    resets(ctx)
    accessors(ctx)
    ctx.rule("each property leaves in the player what it means, and nothing "
             "else, in each class of player")
