"""Path-sensitive dataflow over Formatter::redraw and Formatter::resize (a
sorted GList being iterated like any linked list), the comparison that orders
the list, analysed for two media with any order each, and the redraw and getZ
of media in every state."""
import own
import pp
import terms
import trans
from absint import Engine, State, ZERO, ONE, mentions
from prog import AnchorGone

OBJ, DOC = trans.OBJ, trans.DOC
MEDIAS = trans.fld(DOC, "_medias")
CHAIN = ("chain", ("o", "sorted list"), "first")
CUR = ("cur", CHAIN, ("chain",))
A, B = ("o", "one media"), ("o", "other media")
MEDIA, PLAYER, LAM = ("o", "media"), ("o", "player"), ("o", "lambda")
CR = ("sym", "cr")
VOID = ("sym", "void")
SIX = ("top", "left", "width", "height", "bottom", "right")
OPTS = ("f", OBJ, "_opts")


class Pol(own.Fill):
    chains = ("sorted list",)
    have = None                 # which properties the media have
    each = None                 # the state of each media

    def element(self, eng, st, cur):
        if self.each is None:
            return
        l = ("elem", cur[1], cur)
        v = eng.load(st, ("f", l, "data") if cur[1] == CHAIN else l)
        st.mem[("f", ("d", v), "_lambda")] = ("ptr", LAM)
        st.mem[("f", LAM, "_state")] = self.each

    def call(self, eng, st, c):
        v = [eng.rv(st, a) for a in c.args]
        q, name = c.q, c.name
        if name in ("g_list_insert_sorted", "g_list_insert_sorted_with_data"):
            st.emit("sorted", v[1], v[2])
            st.facts[("empty", CHAIN)] = False
            return [(CUR, st)]
        if name in ("g_list_append", "g_list_prepend"):
            st.emit("listed", v[1])
            st.facts[("empty", CHAIN)] = False
            return [(CUR, st)]
        if name == "g_list_sort":
            st.emit("order", v[1])
            return [(CUR, st)]
        if name in ("g_list_delete_link", "g_list_remove_link"):
            return [(("sym", "rest"), st)]
        if name in ("g_list_free", "g_list_free_full"):
            return [(VOID, st)]
        if q in ("std::sort", "std::stable_sort"):
            if len(v) == 3:
                st.emit("order", "less", v[2])
                return [(VOID, st)]
        if q.endswith("::sort") and len(v) == 1 and c.cls:
            st.emit("order", "less", v[0])
            return [(VOID, st)]
        if c.cls == "ginga::Media" or q.startswith("ginga::Object::") and \
                c.recv is not None and self.have is not None:
            if name == "redraw" and c.recv != ("ptr", MEDIA):
                st.emit("draw", c.recv, *v)
                return [(VOID, st)]
            if name == "getZ" and c.recv in (("ptr", A), ("ptr", B)):
                t = st.copy()
                for x, f in zip(v, ("z", "order")):
                    if x[0] in ("ptr", "loc"):
                        eng.store(t, x[1], ("op", "fn", f, c.recv))
                k = ("op", "fn", "has", c.recv)
                st.facts[("val", k)] = ZERO
                t.facts[("val", k)] = ONE
                return [(ONE, t), (ZERO, st)]
        if self.have is not None and name == "getProperty" and v and \
                v[0][0] == "str":
            return [(("str", "given" if v[0][1] in self.have else ""), st)]
        if self.have is not None and name == "setProperty" and v:
            st.emit("set", c.recv, *v)
            return [(VOID, st)]
        if name.startswith("cairo_") or q.startswith("ginga::GL::"):
            st.emit("paint", name, *v)
            return [(("sym", "paint", c.nid), st)]
        if q.startswith("ginga::PlayerText::"):
            return [(("sym", "text"), st)]
        if c.recv == ("ptr", PLAYER):
            st.emit("player", name, *v)
            return [(VOID, st)]
        return own.Fill.call(self, eng, st, c)

    def put(self, eng, st, c, ident, args):
        st.emit("put", c.name, trans.norm(ident), *args)

    def store(self, eng, st, loc, val, fn, nid):
        if loc[0] == "f" and loc[1] == OPTS:
            st.emit("option", loc[2], val)

    def assume_eq(self, eng, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y == ZERO and own.isel(x, MEDIAS):
                return False
        return own.Fill.assume_eq(self, eng, st, a, b)


def play(ctx, q, args, this, tweak, have=None, fn=None, each=None):
    p = ctx.p
    pol = Pol(p, None)
    pol.have = have
    if each:
        pol.each = trans.tconst(p, each)
    pol.classes = {OBJ: "ginga::Formatter", DOC: "ginga::Document",
                   A: "ginga::Media", B: "ginga::Media",
                   MEDIA: "ginga::Media", LAM: "ginga::Event",
                   PLAYER: "ginga::Player"}
    eng = Engine(p, pol)
    st = State()
    tweak(st)
    fn = fn or p.fn1(q, len(args))
    res = eng.run(fn, list(args), st, this)
    ctx.saw(eng.analysed)
    ctx.count("cases")
    ctx.count("paths", len(res))
    return fn, eng, pol, res


def world(p, state, empty=False):
    def tweak(st):
        st.mem[("f", OBJ, "_state")] = ("int",
                                        p.enum("GINGA_STATE_" + state))
        st.mem[("f", OBJ, "_doc")] = ("ptr", DOC) if state == "PLAYING" \
            else ZERO
        st.facts[("empty", MEDIAS)] = empty
    return tweak


def show(st):
    return "facts: %s\npath: %s" % ("; ".join(pp.facts(st.facts)),
                                    pp.trace(st.trace))


def of(v, e):
    """Is v the element (or its data) that the pass e stands at?"""
    if not isinstance(v, tuple):
        return False
    if v[0] == "fld" and v[2] == "data":
        v = v[1]
    if v[0] == "at":
        v = v[1]
    return v[0] == "elem" and v[1] == e[1]


def inside(st, kind):
    """[(index, pass or None, event)] of the events of a kind."""
    out = []
    for i, e in enumerate(st.trace):
        if e[0] == kind:
            out.append((i, None, e))
        elif e[0] == "each":
            for g in e[3]:
                for x, _ in trans.flat(g):
                    if x[0] == kind:
                        out.append((i, e, x))
    return out


def count(g, kind):
    return [x for x, _ in trans.flat(g) if x[0] == kind]


# -- redraw -------------------------------------------------------------------

def redraws(ctx):
    p = ctx.p
    fn, eng, pol, res = play(ctx, "ginga::Formatter::redraw", [CR],
                             ("ptr", OBJ), world(p, "STOPPED"))
    if not res:
        ctx.violation("redraw stopped", "%s: redraw of a stopped formatter "
                      "never returns" % fn.where(), "")
    for _, st in res:
        if any(inside(st, k) for k in ("draw", "paint")):
            ctx.violation("redraw stopped", "%s: a stopped formatter draws"
                          % fn.where(), show(st))
    comparisons = set()
    for each in ("SLEEPING", "OCCURRING", "PAUSED"):
        draw(ctx, each, comparisons)
    return comparisons


def draw(ctx, each, comparisons):
    p = ctx.p
    awake = each != "SLEEPING"      # otherwise it need not be drawn
    fn, eng, pol, res = play(ctx, "ginga::Formatter::redraw", [CR],
                             ("ptr", OBJ), world(p, "PLAYING"), each=each)
    if not res:
        ctx.violation("redraw", "%s: redraw never returns" % fn.where(), "")

    def bad(key, what, st):
        ctx.violation("redraw " + key, "%s: redraw %s" % (fn.where(), what),
                      show(st))
    for _, st in res:
        if st.facts.get(("empty", CHAIN)) is True:
            continue
        draws = inside(st, "draw")
        passes = {i: e for i, e, x in draws}
        if not draws and not awake:
            continue
        if len(passes) != 1 or None in passes.values():
            bad("pass", "draws the media in %d passes" % len(passes), st)
            continue
        (i, e), = passes.items()
        if not e[4]:
            bad("left", "leaves out media", st)
        if any(len(count(g, "draw")) not in ((1,) if awake else (0, 1))
               for g in e[3]) or \
                not all(of(x[1][1] if x[1][0] == "ptr" else x[1], e)
                        or of(x[1], e) for _, _, x in draws):
            bad("once", "does not draw each media once", st)
        if any(x[2:] != (CR,) for _, _, x in draws):
            bad("surface", "draws on something else", st)
        ident = trans.norm(e[1])
        paint(ctx, bad, eng, st, i)
        # what is drawn is in order
        order = inside(st, "sorted") + inside(st, "order")
        order = [(j, d, x) for j, d, x in order if j < i]
        if not order:
            bad("order", "draws media in no order", st)
            continue
        for j, d, x in order:
            comparisons.add((x[1] == "less", x[-1]))
        if ident == MEDIAS:
            bad("order", "draws media in no order", st)
        if e[1] == CHAIN:
            # each media is in the list once
            ins = inside(st, "sorted") + inside(st, "listed")
            ps = {j: d for j, d, x in ins}
            if len(ps) != 1 or None in ps.values():
                bad("fill", "does not take each media", st)
                continue
            (j, d), = ps.items()
            if trans.norm(d[1]) != MEDIAS or not d[4] or any(
                    len(count(g, "sorted") + count(g, "listed"))
                    not in ((1,) if awake else (0, 1)) for g in d[3]) or not all(of(x[1], d)
                                              for _, _, x in ins):
                bad("fill", "does not take each media once", st)


def num(t, env):
    try:
        return float(terms.ev(t, env))
    except (terms.Opaque, TypeError, ValueError):
        return ("not understood", pp.val(t))


def paint(ctx, bad, eng, st, upto):
    """What is painted before the media: black, then the background."""
    f = lambda *n: eng.load(st, _loc(n))
    bg = [f("_background", x) for x in ("red", "green", "blue", "alpha")]
    size = [f("_opts", x) for x in ("width", "height")]
    for alpha in (0.0, 0.5):
        for gl in (0, 1):
            env = dict(zip(bg, (.1, .2, .3, alpha)))
            env.update(zip(size, (640, 480)))
            env[f("_opts", "opengl")] = gl
            if not terms.holds(st.facts, env):
                continue
            got = []
            src = rect = None
            for e in st.trace[:upto]:
                if e[0] != "paint":
                    continue
                v = [num(x, env) for x in e[3:]]
                if e[1] == "cairo_set_source_rgba":
                    src = tuple(v)
                elif e[1] == "cairo_set_source_rgb":
                    src = tuple(v) + (1.0,)
                elif e[1] == "cairo_rectangle":
                    rect = tuple(v)
                elif e[1] == "cairo_paint":
                    got.append((src, (0.0, 0.0, 640.0, 480.0)))
                elif e[1] in ("cairo_fill", "cairo_fill_preserve"):
                    got.append((src, rect))
                elif e[1] == "clear_scene":
                    v = [num(x, env) for x in e[2:]]
                    got.append(((0, 0, 0, 1.0), (0.0, 0.0) + tuple(v)))
                elif e[1] == "draw_quad":
                    v = [num(x, env) for x in e[2:]]
                    got.append((tuple(v[4:]), tuple(v[:4])))
            all_ = (0.0, 0.0, 640.0, 480.0)
            want = [((0.0, 0.0, 0.0, 1.0), all_)]
            if alpha:
                want.append(((.1, .2, .3, alpha), all_))
            ctx.count("obligations")
            if got != want:
                bad("background", "paints %s before the media, not %s" % (
                    got, want), st)


def _loc(path):
    l = OBJ
    for x in path:
        l = ("f", l, x)
    return l


def comparison(ctx, less, f):
    """The order of two media, by index and then by order."""
    p = ctx.p
    args = [("ptr", A), ("ptr", B)]
    if f[0] == "fn" and f[1] in p.fns:
        fn, eng, pol, res = play(ctx, None, args, None, lambda st: None,
                                 fn=p.fns[f[1]])
    elif f[0] == "lam":
        pol = Pol(p, None)
        pol.classes = {A: "ginga::Media", B: "ginga::Media"}
        eng = Engine(p, pol)
        res = eng.calllam(State(), f, args)
        fn = p.fn1("ginga::Formatter::redraw")
    else:
        raise AnchorGone("the order of media: %s" % pp.val(f))
    if not res:
        ctx.violation("order never", "%s: the comparison of media never "
                      "returns" % fn.where(), "")
    R = (-1, 0, 1)
    worlds = [(ha, za, oa) for ha in (0, 1) for za in R for oa in R
              if ha or not (za or oa)]
    for wa in worlds:
        for wb in worlds:
            env = {("fn", "has"): lambda r: (wa if r[1] == A else wb)[0],
                   ("fn", "z"): lambda r: (wa if r[1] == A else wb)[1],
                   ("fn", "order"): lambda r: (wa if r[1] == A else wb)[2]}
            x = (wa[1:] > wb[1:]) - (wa[1:] < wb[1:])
            ctx.count("obligations")
            for v, st in res:
                if not terms.holds(st.facts, env):
                    continue
                try:
                    g = terms.ev(v, env)
                    if g > 2 ** 63:         # of a signed type
                        g -= 2 ** 64
                except terms.Opaque:
                    g = None
                if less:
                    ok = g is not None and bool(g) == (x < 0)
                else:
                    ok = g is not None and (g > 0) - (g < 0) == x
                if not ok:
                    ctx.violation(
                        "order", "%s: a media with order %s compares %s to "
                        "one with %s" % (fn.where(), wa[1:], g, wb[1:]),
                        show(st))


# -- Media ----------------------------------------------------------------------

def media(ctx):
    p = ctx.p
    z, o = ("o", "z"), ("o", "order")
    for state in ("SLEEPING", "OCCURRING", "PAUSED"):
        for player in (True, False):
            def tweak(st):
                st.mem[("f", MEDIA, "_lambda")] = ("ptr", LAM)
                st.mem[("f", LAM, "_state")] = trans.tconst(p, state)
                st.mem[("f", MEDIA, "_player")] = ("ptr", PLAYER) \
                    if player else ZERO
            lab = "a media that is %s and has %s player" % (
                state.lower(), "a" if player else "no")
            on = state != "SLEEPING" and player
            fn, eng, pol, res = play(ctx, "ginga::Media::redraw", [CR],
                                     ("ptr", MEDIA), tweak)
            if not res:
                ctx.violation("media never", "%s: redraw of %s never returns"
                              % (fn.where(), lab), "")
            for _, st in res:
                got = [e for e in st.trace if e[0] == "player"]
                if got != ([("player", "redraw", CR)] if on else []):
                    ctx.violation("media redraw", "%s: redraw of %s: %s" % (
                        fn.where(), lab, pp.trace(got)), show(st))
            fn, eng, pol, res = play(ctx, "ginga::Media::getZ",
                                     [("ptr", z), ("ptr", o)],
                                     ("ptr", MEDIA), tweak)
            for v, st in res:
                got = [e for e in st.trace if e[0] == "player"]
                if got != ([("player", "getZ", ("ptr", z), ("ptr", o))]
                           if on else []) or v != (ONE if on else ZERO):
                    ctx.violation("media getZ", "%s: getZ of %s: %s, %s" % (
                        fn.where(), lab, pp.trace(got), pp.val(v)), show(st))


# -- resize ---------------------------------------------------------------------

def resizes(ctx):
    p = ctx.p
    w, h = ("int", 640), ("int", 480)
    for state in ("STOPPED", "PLAYING"):
        for have in [(), SIX] + [(n,) for n in SIX]:
            fn, eng, pol, res = play(ctx, "ginga::Formatter::resize", [w, h],
                                     ("ptr", OBJ), world(p, state),
                                     have=have)

            def bad(key, what, st):
                ctx.violation("resize " + key, "%s: resize of a %s formatter "
                              "whose media have %s: %s" % (
                                  fn.where(), state.lower(),
                                  ", ".join(have) or "nothing", what),
                              show(st) if st else "")
            if not res:
                bad("never", "never returns", None)
            for _, st in res:
                for f, x in (("width", w), ("height", h)):
                    if eng.load(st, ("f", OPTS, f)) != x:
                        bad("options", "the %s is not recorded" % f, st)
                sets = inside(st, "set")
                if state == "STOPPED" or not have:
                    if sets:
                        bad("sets", "properties are set", st)
                    continue
                opts = [i for i, e in enumerate(st.trace)
                        if e[0] == "option"]
                ps = {i: e for i, e, x in sets}
                if len(ps) != 1 or None in ps.values():
                    bad("pass", "the media are set in %d passes" % len(ps),
                        st)
                    continue
                (i, e), = ps.items()
                if [j for j in opts if j > i]:
                    bad("late", "the media are placed before the size is "
                        "recorded", st)
                if not e[4] or trans.norm(e[1]) != MEDIAS and \
                        trans.norm(e[1])[0] != "v":
                    bad("left", "media are left out", st)
                for g in e[3]:
                    got = count(g, "set")
                    if sorted(x[2][1] for x in got
                              if x[2][0] == "str") != sorted(have) or any(
                                  x[3] != ("str", "given") or
                                  not (of(x[1], e) or of(x[1][1], e))
                                  for x in got):
                        bad("sets", "%s is set" % pp.trace(got), st)


def check(ctx):
    comparisons = redraws(ctx)
    for less, f in sorted(comparisons, key=repr):
        comparison(ctx, less, f)
    media(ctx)
    resizes(ctx)
    ctx.rule("each redraw paints the whole screen and then draws each media "
             "once, in the order of its player; each resize places each "
             "media anew")
