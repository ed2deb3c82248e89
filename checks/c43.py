"""C43 graph keys and key graphs: titles beside illustrations of the styles, placed in or at the graph; key graphs show the colours of the data along the colour axis"""
import io, logging, math, os
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import ps, svg, prog, refpath as R
from checks import c42

PROP = "C43"
RULE = ("random two- and three-dimensional graphs with data sets with and without titles, plotted by random styles with attributes changing along the data sets, and random keys; the key is what the graph paints in addition to the same graph "
        "without a key and is compared with formulas; key graphs of coloured rectangles, density and surface plots; non-trivial: at least one illustration and one title, or a key graph")
CM = 72 / 2.54


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- what is painted -------------------------------------------------------------------------------

def out(c, fmt):
    f = io.BytesIO()
    from pyx import canvas
    o = canvas.canvas()
    o.insert(c)
    try:
        if fmt == "svg":
            o.writeSVGfile(f)
            return prog.ink(svg.Doc(f.getvalue()).out)
        o.writeEPSfile(f)
    except ValueError as e:
        if "empty" in str(e):
            return []
        raise
    i = ps.interpret(f.getvalue())
    return prog.ink([x for p in i.pages for x in p] + i.out)


def pts(it):
    res = []
    for s in it["subs"]:
        p = [tuple(s.first)]
        for g in s.segs:
            p += [tuple(float(x) for x in q) for q in g.eval([1.0] if isinstance(g, R.Line) else [i / 128 for i in range(1, 129)])]
        res.append([q for q, r in zip(p, [None] + p) if r is None or math.dist(q, r) > 1e-3] if len(p) > 2 else p)
    return res


def rgb(c):
    return tuple(round(v, 3) for v in prog.rgb(c))


def look(it):
    l = [it["kind"], rgb(it["color"])]
    if it["kind"] == "stroke":
        s = math.sqrt(abs(it["ctm"][0] * it["ctm"][3] - it["ctm"][1] * it["ctm"][2]))
        l += [round(it["lw"] * s, 2), tuple(round(x * s, 1) for x in it["dash"][0])]
    return tuple(l)


def samecolour(a, b):
    return len(a) == len(b) and all(abs(x - y) < 0.01 for x, y in zip(a, b))


def alike(a, b):
    return a[0] == b[0] and samecolour(a[1], b[1]) and a[2:] == b[2:]


def curve(a, b, tol):
    "curves, sampled somehow"
    if len(a) < 9 or len(b) < 9:
        return False

    def at(p):
        s = [0]
        for q, r in zip(p, p[1:]):
            s.append(s[-1] + math.dist(q, r))
        return [[float(np.interp(t / 64 * s[-1], s, [q[i] for q in p])) for i in (0, 1)] for t in range(65)]
    return c42.near(at(a), at(b), tol)


def match(want, got, tol=0.02):
    "want: [(look or None, [paths])]"
    rest = list(got)
    for l, w, what in want:
        for i, g in enumerate(rest):
            p = pts(g)
            if (l is None or alike(look(g), l)) and len(p) == len(w) and all(curve(a, b, max(tol, 0.04)) or c42.near(a, b, tol) or c42.near(closed(a), closed(b), tol) or c42.near(a[::-1], b, tol) for a, b in zip(p, w)):
                rest.pop(i)
                break
        else:
            fail("%s: %r at %r is missing; the key consists of %r", what, l, w, [(look(g), pts(g)) for g in got])
    ensure(not rest, "%d additional operations in the key: %r", len(rest), [(look(g), pts(g)) for g in rest])


def closed(p):
    return p if math.dist(p[0], p[-1]) > 1e-3 else p[:-1]


class default:
    "the text engine used by default"

    def __enter__(self):
        from pyx import text
        self.old = text.defaulttextengine
        text.defaulttextengine = c42.engine()

    def __exit__(self, *a):
        from pyx import text
        text.defaulttextengine = self.old


# ---- the key ---------------------------------------------------------------------------------------

lens = lambda *l: st.sampled_from([None, None] + list(l))
keys_ = st.fixed_dictionaries(dict(
    dist=lens(0, 0.1, 0.5), hdist=lens(0, 1, -0.5), vdist=lens(0, 1, -0.5), symbolwidth=lens(1, 0.3), symbolheight=lens(0.1, 0.5), symbolspace=lens(0, 0.5), textattrs=st.one_of(st.none(), c42.tattrs),
    columns=st.sampled_from([None, None, 1, 2, 2, 3, 5]), columndist=lens(0, 1), border=lens(0, 0.1), frame=st.sampled_from([None, None, "stroke", "fill"]), hinside=st.sampled_from([None, 1, 0, 0]), vinside=st.sampled_from([None, 1, 0, 0]),
    pos=st.one_of(st.none(), st.sampled_from([a + b for a in "tmb" for b in "lcr"] + [b + a for a in "tmb" for b in "lcr"]), st.tuples(st.sampled_from([0, 0.25, 0.5, 1]), st.sampled_from([0, 0.75, 0.5, 1])))))


def key_(k):
    from pyx import graph, deco, color
    kw = {n: k[n] for n in ("dist", "hdist", "vdist", "symbolwidth", "symbolheight", "symbolspace", "columns", "columndist", "border", "hinside", "vinside") if k[n] is not None}
    if k["textattrs"] is not None:
        kw["textattrs"] = [c42.textattr(a) for a in k["textattrs"]]
    if k["frame"]:
        kw["keyattrs"] = [deco.stroked([color.rgb(0, 0, 1)])] if k["frame"] == "stroke" else [deco.filled([color.rgb(0, 1, 1)])]
    if isinstance(k["pos"], str):
        kw["pos"] = k["pos"]
    elif k["pos"]:
        kw.update(pos=None, hpos=k["pos"][0], vpos=k["pos"][1])
    return graph.key.key(**kw)


def num(k, n):
    return dict(dist=0.2, hdist=0.6, vdist=0.4, symbolwidth=0.5, symbolheight=0.25, symbolspace=0.2, columns=1, columndist=0.5, border=0.3, hinside=1, vinside=1)[n] if k[n] is None else k[n]


def box(paths):
    x, y = zip(*[q for p in paths for q in p])
    return [min(x), min(y), max(x), max(y)]


def layout(k, entries, area):
    "entries: [(title size, number, drawings at (0, 0) for given width and height)]; returns the operations"
    cols = num(k, "columns")
    per = -(-len(entries) // cols)
    attrs = [("hclear",)] + list(k["textattrs"] or [])
    w, h = num(k, "symbolwidth") * CM, num(k, "symbolheight") * CM
    x0, ops = 0, []
    for i in range(0, len(entries), per):
        col = entries[i:i + per]
        boxes = [c42.boxpts(tuple(e[0]) + (0,), attrs) for e in col]
        dy = max(max(q[1] for q in b) - min(q[1] for q in b) for b in boxes) + num(k, "dist") * CM
        s = max(w + num(k, "symbolspace") * CM - min(q[0] for q in b) for b in boxes)
        part = []
        for n, (e, b) in enumerate(zip(col, boxes)):
            part += [(l, [[(x, y - n * dy) for x, y in p] for p in ps_], "illustration of %d" % e[1]) for l, ps_ in e[2](w, h)]
            corners = [(x + s, y - n * dy) for x, y in b]
            c = ("stroke", (1, round(e[1] % 20 / 20, 3), round(e[1] // 20 / 20, 3)))
            part += [(c, [corners], "title %d" % e[1]), (c, [[corners[0], (s, -n * dy)]], "anchor of title %d" % e[1])]
        b = box([p for o in part if not o[2].startswith("anchor") for p in o[1]])
        ops += [(l, [[(x + x0, y) for x, y in p] for p in ps_], t) for l, ps_, t in part]
        x0 += b[2] - b[0] + num(k, "columndist") * CM
    b = box([p for o in ops if not o[2].startswith("anchor") for p in o[1]])
    if k["frame"]:
        d = num(k, "border") * CM
        b = [b[0] - d, b[1] - d, b[2] + d, b[3] + d]
        ops.append((("stroke", (0, 0, 1)) if k["frame"] == "stroke" else ("fill", (0, 1, 1)), [[(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])]], "frame"))
    t = []
    hpos, vpos = {None: (1, 1)}.get(k["pos"]) if k["pos"] is None else (k["pos"] if not isinstance(k["pos"], str) else
                                                                         [next({"l": 0, "c": 0.5, "r": 1}[x] for x in k["pos"] if x in "lcr"), next({"b": 0, "m": 0.5, "t": 1}[x] for x in k["pos"] if x in "tmb")])
    for lo, hi, c0, c1, p, d, ins in ((area[0], area[2], b[0], b[2], hpos, num(k, "hdist") * CM, num(k, "hinside")), (area[1], area[3], b[1], b[3], vpos, num(k, "vdist") * CM, num(k, "vinside"))):
        if ins:             # the low end runs from lo + d to hi - d - size
            t.append(lo + d + p * (hi - lo - 2 * d - (c1 - c0)) - c0)
        else:               # outside: from lo - d - size to hi + d
            t.append(lo - d - (c1 - c0) + p * (hi - lo + 2 * d + (c1 - c0)) - c0)
    return [(l, [[(x + t[0], y + t[1]) for x, y in p] for p in ps_], s) for l, ps_, s in ops]


# ---- styles and data -------------------------------------------------------------------------------

SHAPES = ["cross", "plus", "square", "triangle", "diamond", "changesquare", "changecross"]
pen = st.sampled_from([None, None, "THICk", "dashed", "Thin"])
styles2 = st.one_of(st.tuples(st.just("line"), pen, st.booleans()), st.tuples(st.just("symbol"), st.sampled_from(SHAPES), st.sampled_from(["stroke", "fill", None]), st.sampled_from([0.2, 0.1, 0.5, 1])),
                    st.tuples(st.just("impulses"), pen, st.booleans()), st.tuples(st.just("histogram"), st.sampled_from([0, 1]), st.sampled_from(["stroke", "fill", "both", None])).map(lambda s: s if s[1] or s[2] != "fill" else (s[0], 0, "both")))
styles3 = st.one_of(st.tuples(st.just("line"), pen, st.booleans()), st.tuples(st.just("symbol"), st.sampled_from(SHAPES), st.sampled_from(["stroke", "fill", None]), st.sampled_from([0.2, 0.5])))
title = st.one_of(c42.size_, c42.size_, c42.size_, st.none())


@st.composite
def keys(draw):
    three = draw(st.sampled_from([0, 0, 0, 1]))
    c = dict(three=three, key=draw(keys_), xpos=draw(st.sampled_from([0, 1, -2.5])), ypos=draw(st.sampled_from([0, 2])), width=draw(st.sampled_from([5, 8])), height=draw(st.sampled_from([4, 6])), flipped=draw(st.sampled_from([0, 0, 1])),
             fmt=draw(st.sampled_from(["eps", "eps", "svg"])))
    s = styles3 if three else styles2
    c["plots"] = draw(st.lists(st.fixed_dictionaries(dict(titles=st.lists(title, min_size=1, max_size=4), styles=st.lists(s, min_size=1, max_size=2))), min_size=1, max_size=3))
    return c


def colour(i, n, m):
    return ((2 * i + n + 1) / 16, (m + 1) / 8, 0.25)


def pen_(p):
    from pyx import style
    return [] if p is None else [getattr(style.linestyle if p == "dashed" else style.linewidth, p)]


def style_(s, i, n, total):
    from pyx import graph, attr, color, deco
    cols = attr.changelist([color.rgb(*colour(i, n, m)) for m in range(total)])
    S = graph.style
    if s[0] in ("line", "impulses"):
        return getattr(S, s[0])(None if not s[2] else [cols] + pen_(s[1]))
    if s[0] == "symbol":
        attrs = {"stroke": [cols], "fill": [deco.filled, deco.stroked.clear, cols], None: None}[s[2]]
        return S.symbol(getattr(S.symbol, s[1]), size=s[3], symbolattrs=attrs)
    attrs = {"stroke": [cols], "fill": [deco.stroked.clear, deco.filled, cols], "both": [cols, deco.filled], None: None}[s[2]]
    return S.histogram(attrs, rectkey=s[1])


def graph_(c, key):
    from pyx import graph, color
    L = lambda: graph.axis.lin(min=0, max=1, painter=None, parter=None)
    if c["three"]:
        g = graph.graphxyz(c["xpos"], c["ypos"], size=c["width"], x=L(), y=L(), z=L(), x2=None, y2=None, key=key)
    else:
        g = graph.graphxy(c["xpos"], c["ypos"], c["width"], c["height"], x=L(), y=L(), x2=None, y2=None, flipped=bool(c["flipped"]), key=key)
    num_ = 0
    for i, p in enumerate(c["plots"]):
        d = []
        for m, t in enumerate(p["titles"]):
            num_ += 1
            y = 0.1 + 0.05 * num_
            kw = dict(x=[0.25, 0.5, 0.75], y=[y, y + 0.03, y], title=c42.text_(t, num_))
            if c["three"]:
                kw["z"] = [0.5, 0.5, 0.6]
            d.append(graph.data.values(**kw))
        g.plot(d, [style_(s, i, n, len(d)) for n, s in enumerate(p["styles"])])
    return g


def check_key(c, ctx):
    k = c["key"]
    plain = graph_(c, None)
    with default():
        keyed = graph_(c, key_(k))
    without = out(plain, c["fmt"])
    with default():
        got = out(keyed, c["fmt"])
    for a, b in zip(without, got):
        ensure(alike(look(a), look(b)) and all(c42.near(p, q, 5e-3) for p, q in zip(pts(a), pts(b))), "the key changes the graph: %r at %r instead of %r", look(b), pts(b), look(a))
    got = got[len(without):]
    entries, number = [], 0
    for i, p in enumerate(c["plots"]):
        tot = len(p["titles"])
        for m, t in enumerate(p["titles"]):
            number += 1
            y = 0.1 + 0.05 * number
            if t is None:
                continue
            draws = []
            for n, s in enumerate(p["styles"]):
                col = tuple(round(v, 3) for v in rgb(("rgb",) + colour(i, n, m)))
                data = [it for it in without if samecolour(rgb(it["color"]), col)]
                looks = sorted({look(it) for it in data})
                if s[0] == "symbol":
                    if s[2] is None:
                        continue
                    x = plain.pos_pt(0.25, y, 0.5) if c["three"] else plain.pos_pt(0.25, y)
                    sym = data[0]
                    draws.append(lambda w, h, sym=sym, x=x: [(look(sym), [[(q[0] - x[0] + w / 2, q[1] - x[1]) for q in r] for r in pts(sym)])])
                elif s[0] in ("line", "impulses"):
                    if s[2]:
                        ensure(len(looks) == 1, "data set %d is painted as %r", number, looks)
                        draws.append(lambda w, h, looks=looks: [(looks[0], [[(0, 0), (w, 0)]])])
                elif s[2] is not None:
                    f = (lambda w, h: [(0, -h / 2), (w, -h / 2), (w, h / 2), (0, h / 2)]) if s[1] else (lambda w, h: [(0, 0), (w, 0)])
                    for l in looks:
                        if s[1] or l[0] == "stroke":
                            draws.append(lambda w, h, l=l, f=f: [(l, [f(w, h)])])
            entries.append((t, number, lambda w, h, draws=draws: [o for d in draws for o in d(w, h)]))
            if draws:
                ctx.nontrivial("illustration")
    if not entries:
        ensure(not [g for g in got], "a key without titles paints %r", got)
        ctx.label("no titles")
        return
    area = [c["xpos"] * CM, c["ypos"] * CM]
    area += [area[0] + c["width"] * CM, area[1] + (c["width"] if c["three"] else c["height"]) * CM]
    want = layout(k, entries, area)
    # half circles in SVG are sensitive to the rounding of numbers
    final(want, got, 0.02 if c["fmt"] == "eps" else 0.12)
    ctx.label("columns %d" % num(k, "columns"))


def final(want, got, tol=0.02):
    "titles and frames: only kind and colour count"
    rest = [g for g in got]
    res = []
    for l, p, t in want:
        if len(l) == 2 and l[0] == "stroke":
            for g in rest:
                if alike(look(g)[:2], l):
                    l = look(g)
                    break
        if t.startswith("anchor") and math.dist(*p[0]) < 1e-2:
            continue
        res.append((l, p, t))
    keep = []
    for g in rest:
        q = pts(g)
        if g["kind"] == "stroke" and len(q) == 1 and len(q[0]) == 2 and math.dist(*q[0]) < 1e-2:
            continue
        if g["kind"] == "fill" and len(q) == 1 and len(q[0]) == 2:      # nothing is filled
            continue
        keep.append(g)
    match(res, keep, tol)


# ---- bars ------------------------------------------------------------------------------------------

@st.composite
def bars(draw):
    return dict(key=draw(keys_), stacked=draw(st.integers(0, 2)), titles=draw(st.lists(title, min_size=1, max_size=3)), fmt=draw(st.sampled_from(["eps", "svg"])), flipped=draw(st.sampled_from([0, 1])), stroke=draw(st.booleans()))


def check_bars(c, ctx):
    from pyx import graph, attr, color, deco

    def make(key):
        L = graph.axis.lin(min=0, max=4, painter=None, parter=None)
        many = len(c["titles"]) > 1
        b = (graph.axis.nestedbar if many else graph.axis.bar)(painter=None)
        g = graph.graphxy(0, 0, 8, 5, x=b, y=L, x2=None, y2=None, flipped=bool(c["flipped"]), key=key)
        d = [graph.data.values(**dict({"xname": [("a", n), ("b", n)] if many else ["a", "b"], "y": [1, 1], "s0": [1, 1], "s1": [1, 1]}, title=c42.text_(t, n + 1))) for n, t in enumerate(c["titles"])]
        styles = [graph.style.barpos(fromvalue=0)]
        for s in range(c["stacked"] + 1):
            if s:
                styles.append(graph.style.stackedbarpos("s%d" % (s - 1)))
            cols = attr.changelist([color.rgb(*colour(0, s, m)) for m in range(len(d))])
            styles.append(graph.style.bar([cols, deco.stroked([color.rgb(0, 0, 0.5)]) if c["stroke"] else deco.stroked.clear]))
        g.plot(d, styles)
        return g
    plain = make(None)
    with default():
        keyed = make(key_(c["key"]))
    without = out(plain, c["fmt"])
    with default():
        got = out(keyed, c["fmt"])
    got = got[len(without):]
    entries = []
    for m, t in enumerate(c["titles"]):
        if t is None:
            continue

        def f(w, h, m=m):
            res = []
            n = c["stacked"] + 1
            for s in range(n):
                r = [[(w * s / n, -h / 2), (w * (s + 1) / n, -h / 2), (w * (s + 1) / n, h / 2), (w * s / n, h / 2)]]
                res.append((("fill", tuple(round(v, 3) for v in rgb(("rgb",) + colour(0, s, m)))), r))
                if c["stroke"]:
                    res.append((("stroke", (0, 0, 0.5)), r))
            return res
        entries.append((t, m + 1, f))
        ctx.nontrivial("bars")
    if not entries:
        ensure(not got, "a key without titles paints %r", got)
        return
    final(layout(c["key"], entries, [0, 0, 8 * CM, 5 * CM]), got)
    ctx.label("stacked %d" % c["stacked"])


# ---- key graphs ------------------------------------------------------------------------------------

class Tolerant:
    "draws boxes for all texts"

    def __init__(self):
        self.e = c42.engine()

    def text_pt(self, x, y, s, *args, **kw):
        from pyx import text
        args = [[b for b in a if b is not text.mathmode] for a in args]
        try:
            [float(t) for t in s.split()][3]
        except (ValueError, IndexError):
            s = "10 6 0 399"
        return self.e.text_pt(x, y, s, *args, **kw)


@st.composite
def keygraphs(draw):
    c = dict(kind=draw(st.sampled_from(["xy", "xy", "flipped", "flipped", "xyz"])), xpos=draw(st.sampled_from([0, 1, -2.5])), ypos=draw(st.sampled_from([0, 2])), width=draw(st.sampled_from([5, 8])), height=draw(st.sampled_from([4, 6])),
             mode=draw(st.sampled_from(["auto", "auto", "auto", "title", "vertical", "horizontal"])), gradient=draw(st.sampled_from(["Gray", "ReverseGray", "RedGreen", "RedBlue", "WhiteRed", "Jet"])), axesdist=draw(st.sampled_from([None, 0, 0.5])),
             right=draw(st.lists(c42.axes_(), max_size=2)), color=draw(c42.axes_()), at=draw(st.sampled_from([None, None, 0.5, 0.2])), values=draw(st.lists(st.integers(0, 99), min_size=1, max_size=4)), title=draw(c42.size_),
             style=draw(st.sampled_from(["rect", "density"])), key=draw(st.booleans()))
    return c


def images(data):
    i = ps.interpret(data)
    items = [x for p in i.pages for x in p] + i.out
    res = []
    for x in items:
        if x["kind"] == "image":
            d = x["image"]
            m = [float(v) for v in d["ImageMatrix"]]
            inv = lambda p: ((m[3] * (p[0] - m[4]) - m[2] * (p[1] - m[5])) / (m[0] * m[3] - m[1] * m[2]), (m[0] * (p[1] - m[5]) - m[1] * (p[0] - m[4])) / (m[0] * m[3] - m[1] * m[2]))
            t = x["ctm"]
            pix = lambda p: (t[0] * inv(p)[0] + t[2] * inv(p)[1] + t[4], t[1] * inv(p)[0] + t[3] * inv(p)[1] + t[5])
            n = len(x["data"]) // (d["Width"] * d["Height"])
            res.append(dict(pix=[pix((k + 0.5, 0.5)) for k in range(d["Width"])], side=[pix((0, 0)), pix((0, d["Height"]))], colors=[tuple(b / 255 for b in x["data"][n * k:n * k + n]) for k in range(d["Width"])], height=d["Height"], clips=x["clips"]))
    return prog.ink([x for x in items if x["kind"] != "image"]), res


def check_keygraph(c, ctx):
    from pyx import graph, color
    from pyx import canvas, text
    L = lambda: graph.axis.lin(min=0, max=1, painter=None, parter=None)
    g3 = c["kind"] == "xyz"
    kw = dict(xpos=c["xpos"], ypos=c["ypos"])
    if c["axesdist"] is not None:
        kw["axesdist"] = c["axesdist"]
    dist = (0.8 if c["axesdist"] is None else c["axesdist"]) * CM
    area = dict(xpos=c["xpos"], ypos=c["ypos"], width=c["width"], height=c["width"] if g3 else c["height"])
    x0 = (c["xpos"] + c["width"]) * CM
    y0 = c["ypos"] * CM
    pics = []
    right = [c42.linear(a, 3 + n) for n, a in enumerate(c["right"])]
    if g3:
        kw.update(size=c["width"], x=c42.linear(c["right"][0], 3) if right else L(), y=c42.linear(c["right"][1], 4) if len(right) > 1 else L(), z=L(), x2=None, y2=None)
    elif c["kind"] == "xy":
        kw.update(width=c["width"], height=c["height"], x=L(), x2=None, y=L(), y2=None)
        kw.update(dict(zip(("y2", "y4"), right)))
        if c["at"] is not None:
            kw["yaxisat"] = c["at"]
    else:
        kw.update(width=c["width"], height=c["height"], flipped=True, y=L(), y2=None)
        kw.update(dict(x=None, x2=L()) if not right else dict(zip(("x", "x3"), right), x2=None))
        if c["at"] is not None and right:
            kw["xaxisat"] = c["at"]
    if not g3:
        for n, a in enumerate(c["right"]):
            pic = c42.picture(area, ((x0, y0), (0, area["height"] * CM), (-1, 0)), 3 + n)
            c42.draw_(a, 3 + n, pic)
            x0 += pic.extent + dist
        if not c["right"]:
            x0 += dist
    if c["key"]:
        kw["key"] = graph.key.key(pos="tl")
    grad = getattr(color.gradient, c["gradient"])
    v = [k / 99 for k in c["values"]] + ([0, 1] if c["mode"] == "title" else [])

    X = "x2" if c["kind"] == "flipped" and not right else "x"

    def make(keygraph, mode):
        gr = (graph.graphxyz if g3 else graph.graphxy)(**kw)
        st_ = dict(gradient=grad)
        if mode != "title":
            st_["coloraxis"] = c42.linear(c["color"], 9, linkpainter=None)
        if keygraph is not True:
            st_["keygraph"] = keygraph
        title = c42.text_(c["title"], 20 * 9 + 19) if mode == "title" else None
        if g3:
            n = len(v)
            gr.plot(graph.data.values(x=[0.25, 0.75] * 2, y=[0.25, 0.25, 0.75, 0.75], z=[0.5] * 4, color=[0, 1, v[0], 0.5], title=title), [graph.style.surface(backcolor=None, **st_)])
        elif c["style"] == "density":
            gr.plot(graph.data.values(**{X: [0.25, 0.75] * 2}, y=[0.25, 0.25, 0.75, 0.75], color=[0, 1, v[0], 0.5], title=title), [graph.style.density(**st_)])
        else:
            n = len(v)
            gr.plot(graph.data.values(**{X + "min": [i / n for i in range(n)], X + "max": [(i + 0.5) / n for i in range(n)]}, ymin=[0.2] * n, ymax=[0.4 + 0.1 * i / n for i in range(n)], color=v, title=title), [graph.style.rect(**st_)])
        return gr

    def write(x):
        f = io.BytesIO()
        o = canvas.canvas()
        o.insert(x)
        o.writeEPSfile(f)
        return f.getvalue()
    given = None
    if c["mode"] in ("vertical", "horizontal"):
        cls = dict(direction=c["mode"], length=3) if c["mode"] == "vertical" else dict(direction="horizontal", length=4, size=0.75)
        given = graph.graphx(xpos=c["xpos"], ypos=c["ypos"], x=c42.linear(c["color"], 9, linkpainter=None), **cls)
    old, text.defaulttextengine = text.defaulttextengine, Tolerant()
    try:
        if given is not None:
            gr = make(given, c["mode"])
            rest, _ = images(write(gr))
            plainitems = rest
            items, imgs = images(write(given))
            ensure(len(_) == (0 if g3 or c["style"] == "rect" else 1), "the graph shows the given key graph")
        else:
            both, imgs = images(write(make(True, c["mode"])))
            plain, none = images(write(make(None, "none" if c["mode"] == "title" else c["mode"])))
            cnt = len(plain)
            plainitems, items = plain, both
            imgs = imgs[len(none):]
    finally:
        text.defaulttextengine = old
    rev = c["color"]["reverse"] and c["mode"] != "title"
    if given is not None:
        G = dict(xpos=c["xpos"], ypos=c["ypos"], width=0.5, height=3, kind="vertical") if c["mode"] == "vertical" else dict(xpos=c["xpos"], ypos=c["ypos"], width=4, height=0.75, kind="horizontal")
    elif g3:
        axes = [it for it in plainitems if it["kind"] == "stroke"]
        b = box([q for it in axes for q in pts(it)]) if axes else None
        if b is None:
            b = [0, c["ypos"] * CM, (c["xpos"] + c["width"]) * CM, (c["ypos"] + c["width"]) * CM]
        G = dict(xpos=(b[2] + dist) / CM, ypos=(0.5 * (b[1] + b[3]) - 0.5 * c["width"] * CM) / CM, width=0.5, height=c["width"], kind="vertical")
    else:
        G = dict(xpos=x0 / CM, ypos=c["ypos"], width=0.5, height=c["height"], kind="vertical")
    ensure(len(imgs) == 1, "%d colour scales", len(imgs))
    im = imgs[0]
    ensure(im["height"] == 1, "colour scale with %d rows", im["height"])
    x, y, w, h = (G[k] * CM for k in ("xpos", "ypos", "width", "height"))
    n = len(im["pix"])
    for k in (0, n // 2, n - 1):
        t = k / (n - 1)
        want = (x + w / 2, y + t * h) if G["kind"] == "vertical" else (x + t * w, y + h / 2)
        ensure(math.dist(want, im["pix"][k]) < 0.02, "pixel %d of the colour scale is at %r, expected %r", k, im["pix"][k], want)
    ensure(abs(math.dist(*im["side"]) - (w if G["kind"] == "vertical" else h)) < 0.02, "width of the colour scale is %g", math.dist(*im["side"]))
    cl = box([c42.points(s) for s in im["clips"][-1][0]])
    ensure(max(abs(p - q) for p, q in zip(cl, (x, y, x + w, y + h))) < 0.02, "colour scale clipped at %r", cl)
    if c["mode"] == "title":
        num_ = [it for it in items if it["kind"] == "stroke" and samecolour(rgb(it["color"]), rgb(("rgb", 1, 19 / 20, 9 / 20))) and len(pts(it)[0]) > 2]
        ensure(len(num_) == 1, "the title is painted %d times", len(num_))
        b = box(pts(num_[0]))
        ensure(b[0] > x + w - 0.01 and y - 20 < (b[1] + b[3]) / 2 < y + h + 20, "the title is at %r, the scale at %r", b, (x, y, x + w, y + h))
    else:
        pic = c42.picture(G, c42.sides(G)["x"], 9)
        c42.draw_(c["color"], 9, pic)

        def mine(it):
            col = it["color"]
            if it["kind"] != "stroke" or col[0] != "rgb":
                return False
            if abs(col[1] - 1) < 1e-4:
                return round(col[3] * 20) == 9
            return round(col[1] * 32) == 9 and abs(col[3] - 1) < 1e-4
        c42.compare([pic], [it for it in items if mine(it)], tol=0.02)
    # the colours are those of the data
    if not g3 and c["style"] == "rect":
        fills = [it for it in items if it["kind"] == "fill"] if given is None else [it for it in plainitems if it["kind"] == "fill"]
        ensure(len(fills) == len(v), "%d rectangles", len(fills))
        if c["mode"] != "title":
            for k, it in zip(c["values"], fills):
                col = im["colors"][99 - k if rev else k]
                got = it["color"][1:]
                ensure(n == 100 and max(abs(p - q) for p, q in zip(col, got)) < 1.3 / 255 and len(got) == len(col), "a rectangle with value %g has the colour %r, the scale %r", k / 99, got, col)
        ctx.label("colours")
    ctx.nontrivial("key graph")
    ctx.label(c["mode"], c["kind"])


SUBS = [Sub("keys", keys(), check_key, quick=500, thorough=15000),
        Sub("bars", bars(), check_bars, quick=200, thorough=6000),
        Sub("keygraphs", keygraphs(), check_keygraph, quick=250, thorough=8000),
        ]
