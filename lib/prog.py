"""Random canvas programs: plain description -> real canvas, and -> expected display list (own evaluation).

node  = {"attrs": [attr...], "items": [item...]}
item  = ["draw"|"stroke"|"fill", pathitems, [attr...]]
      | ["canvas", node, [attr...]]              insert(canvas(attrs), insertattrs)
      | ["layer", name, "above"|"below"|None, index, [item...]]
attr  = ["trafo", [a,b,c,d,e,f]] | ["clip", pathitems] | style | ["stroked", [style]] | ["filled", [style]] | ["clear", kind|None]
style = ["lw", pt] ["cap", i] ["join", i] ["miter", v] ["dash", pattern, offset, rel] ["linestyle", i] ["eo", b]
        ["gray", g] ["rgb", r, g, b] ["hsb", h, s, b] ["cmyk", c, m, y, k] ["transp", v]
"""
import colorsys, math
from hypothesis import strategies as st
import numpy as np
from . import refpath as R
from .core import Skip, fail, ensure
from .gfx import ID, mul, app, tsubs
from .gen import real

DEFLW = 0.02 * 72 / 2.54

# ---- generation --------------------------------------------------------------------------------

unitv = st.one_of(st.sampled_from([0, 0.25, 0.5, 0.75, 1]), real(0, 1, 3))
lw = st.one_of(st.sampled_from([0.5, 1, 2, 5]), real(0.1, 8, 2))


def styles(fill=True, stroke=True):
    l = [st.tuples(st.just("gray"), unitv), st.tuples(st.just("rgb"), unitv, unitv, unitv), st.tuples(st.just("hsb"), unitv, unitv, unitv),
         st.tuples(st.just("cmyk"), unitv, unitv, unitv, unitv), st.tuples(st.just("transp"), st.one_of(st.just(0.5), unitv))]
    if fill:
        l.append(st.tuples(st.just("eo"), st.booleans()))
    if stroke:
        pat = st.lists(st.sampled_from([0.5, 1, 2, 3, 4.25]), max_size=4)
        l += [st.tuples(st.just("lw"), lw), st.tuples(st.just("lw"), lw), st.tuples(st.just("cap"), st.integers(0, 2)),
              st.tuples(st.just("join"), st.integers(0, 2)), st.tuples(st.just("miter"), real(1, 20, 1)),
              st.tuples(st.just("dash"), pat, st.sampled_from([0, 0, 1, 2.5]), st.booleans()),
              st.tuples(st.just("linestyle"), st.integers(0, 3))]
    return st.one_of(*l).map(list)


def _arc(t):
    x, y, r, a, k, sw = t
    return ["arc" if k else "arcn", x, y, r, a, a + (sw if k else -sw)]


arcitem = st.tuples(st.integers(-50, 50), st.integers(-50, 50), st.integers(5, 40), st.integers(-8, 8).map(lambda i: i * 45), st.booleans(),
                    st.sampled_from([30, 60, 90, 120, 135])).map(_arc)


def draws(items):
    return any(p.len > 1 for p in R.polys(R.interpret(items)))


def path_strategy(maxlen=4):
    return _path_strategy(maxlen).filter(draws)


def _path_strategy(maxlen):
    return st.one_of(R.items_strategy(maxlen=maxlen, arcs=False, arct=False),
                     st.tuples(R.items_strategy(maxlen=maxlen, arcs=False, arct=False), arcitem).map(lambda t: t[0] + [t[1]]),
                     st.tuples(arcitem, st.integers(-40, 40), st.integers(-40, 40)).map(lambda t: [t[0], ["L", t[1], t[2]], ["Z"]]))


def trafo_strategy():
    def mk(t):
        kind, a, sx, sy, sh, x, y = t
        if kind == "translate":
            return ["trafo", [1, 0, 0, 1, x, y]]
        if kind == "scale":
            return ["trafo", [sx, 0, 0, sy, x, 0]]
        if kind == "mirror":
            return ["trafo", [1, 0, 0, -1, 0, y]]
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
        m = (c, s, -s, c, x, y)
        if kind == "general":
            m = mul((sx, sh * 0.5, sh, sy, 0, 0), m)
        return ["trafo", [round(v, 5) for v in m]]
    return st.tuples(st.sampled_from(["translate", "scale", "rotate", "mirror", "general"]), st.integers(-12, 12).map(lambda i: i * 30),
                     st.sampled_from([0.5, 2, 1, 1.5]), st.sampled_from([0.5, 2, 1, -1]), st.sampled_from([0, 0.5, -0.25]),
                     st.integers(-60, 60), st.integers(-60, 60)).map(mk)


clearkinds = st.sampled_from([None, "lw", "cap", "join", "miter", "dash", "linestyle", "eo", "color", "trafo", "stroked", "filled"])


def drawattrs():
    a = st.one_of(styles(), styles(), trafo_strategy(), st.tuples(st.just("stroked"), st.lists(styles(fill=False), max_size=3)).map(list),
                  st.tuples(st.just("filled"), st.lists(styles(stroke=False), max_size=3)).map(list),
                  st.tuples(st.just("clear"), clearkinds).map(list))
    return st.lists(a, max_size=5)


@st.composite
def canvasattrs(draw, clip=True):
    l = draw(st.lists(st.one_of(styles(), styles(), trafo_strategy(), trafo_strategy()), max_size=4))
    if clip and draw(st.integers(0, 3)) == 0:
        l.insert(draw(st.integers(0, len(l))), ["clip", draw(path_strategy(4))])
    return l


@st.composite
def nodes(draw, depth=2, layers=True):
    items = []
    for i in range(draw(st.integers(0 if depth < 2 else 1, 4 if depth else 3))):
        k = draw(st.integers(0, 9))
        if k < 6 or depth == 0:
            items.append([draw(st.sampled_from(["draw", "stroke", "fill"])), draw(path_strategy()), draw(drawattrs())])
        elif k < 8 or not layers:
            items.append(["canvas", draw(nodes(depth=depth - 1)), draw(st.one_of(st.just([]), canvasattrs()))])
        else:
            name = draw(st.sampled_from(["a", "b", "c", "g.a", "g.b", "g.h.a", "b.x"]))
            items.append(["layer", name, draw(st.sampled_from([None, None, "above", "below"])), draw(st.integers(0, 5)),
                          [[draw(st.sampled_from(["stroke", "fill"])), draw(path_strategy(3)), draw(drawattrs())] for j in range(draw(st.integers(0, 2)))]])
    return dict(attrs=draw(canvasattrs()), items=items)


PATTERNS = []       # real patterns of the case at hand

# ---- the real thing ----------------------------------------------------------------------------

def realattr(a):
    from pyx import trafo, canvas, style, color, deco, unit, attr
    k = a[0]
    if k == "trafo":
        m = a[1]
        return trafo.trafo_pt(matrix=((m[0], m[2]), (m[1], m[3])), vector=(m[4], m[5]))
    if k == "clip": return canvas.clip(R.build(a[1]))
    if k == "lw": return style.linewidth(a[1] * unit.t_pt)
    if k == "cap": return [style.linecap.butt, style.linecap.round, style.linecap.square][a[1]]
    if k == "join": return [style.linejoin.miter, style.linejoin.round, style.linejoin.bevel][a[1]]
    if k == "miter": return style.miterlimit(a[1])
    if k == "dash": return style.dash(a[1], a[2], rellengths=a[3])
    if k == "linestyle": return [style.linestyle.solid, style.linestyle.dashed, style.linestyle.dotted, style.linestyle.dashdotted][a[1]]
    if k == "eo": return style.fillrule.even_odd if a[1] else style.fillrule.nonzero_winding
    if k == "gray": return color.gray(a[1])
    if k == "rgb": return color.rgb(*a[1:])
    if k == "hsb": return color.hsb(*a[1:])
    if k == "cmyk": return color.cmyk(*a[1:])
    if k == "transp": return color.transparency(a[1])
    if k == "stroked": return deco.stroked([realattr(x) for x in a[1]]) if a[1] else deco.stroked
    if k == "filled": return deco.filled([realattr(x) for x in a[1]]) if a[1] else deco.filled
    if k == "pat": return PATTERNS[a[1]]
    if k == "clear":
        return {None: attr.clear, "lw": style.linewidth.clear, "cap": style.linecap.clear, "join": style.linejoin.clear, "miter": style.miterlimit.clear,
                "dash": style.dash.clear, "linestyle": style.linestyle.clear, "eo": style.fillrule.clear, "color": color.clear,
                "trafo": getattr(trafo, "clear", None) or attr.clearclass(trafo.trafo_pt), "stroked": deco.stroked.clear, "filled": deco.filled.clear}[a[1]]
    raise KeyError(k)


def fillcanvas(c, items):
    for it in items:
        if it[0] in ("draw", "stroke", "fill"):
            getattr(c, it[0])(R.build(it[1]), [realattr(a) for a in it[2]])
        elif it[0] == "canvas":
            sub = build(it[1])
            c.insert(sub, [realattr(a) for a in it[2]] or None)
        elif it[0] == "layer":
            other = layertarget(it, c.verif_layers)
            kw = {it[2]: other} if other else {}
            l = c.layer(it[1], **kw)
            register(c.verif_layers, it[1])
            l.verif_layers = c.verif_layers
            fillcanvas(l, it[4])


def build(node):
    from pyx import canvas
    c = canvas.canvas([realattr(a) for a in node["attrs"]])
    c.verif_layers = []
    fillcanvas(c, node["items"])
    return c


def register(names, name):
    parts = name.split(".")
    for i in range(1, len(parts) + 1):
        n = ".".join(parts[:i])
        if n not in names:
            names.append(n)


def layertarget(it, names):
    "an existing layer of the same group"
    if it[2] is None:
        return None
    group = it[1].rpartition(".")[0]
    cand = [n for n in names if n.rpartition(".")[0] == group and n != it[1]]
    return cand[it[3] % len(cand)] if cand else None


# ---- the model ---------------------------------------------------------------------------------

KIND = {"gray": "color", "rgb": "color", "hsb": "color", "cmyk": "color"}


def kind(a):
    return KIND.get(a[0], a[0])


def merge(attrs):
    out = []
    for a in attrs:
        k = kind(a)
        if k == "clear":
            out = [] if a[1] is None else [b for b in out if kind(b) != a[1]]
        elif k == "lw":
            out = [b for b in out if kind(b) != "lw"]
            i = next((i for i, b in enumerate(out) if kind(b) in ("dash", "linestyle")), len(out))
            out.insert(i, a)
        elif k in ("trafo", "clip"):
            out.append(a)
        else:
            out = [b for b in out if kind(b) != k] + [a]
    return out


class State:
    def __init__(self):
        self.stroke = self.fill = ("gray", 0.0)
        self.CA = self.ca = 1.0
        self.lw, self.cap, self.join, self.miter, self.dash = DEFLW, 0, 0, 10.0, ([], 0)
        self.eo = False
        self.ctm = ID
        self.clips = []

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.clips = list(self.clips)
        return s

    def setdash(self, pattern, offset, rel):
        f = self.lw / DEFLW if rel else 1
        self.dash = ([p * f for p in pattern], offset if pattern else 0)

    def apply(self, styles, stroke=True, fill=True):
        for a in styles:
            k = a[0]
            if k == "lw": self.lw = a[1]
            elif k == "cap": self.cap = a[1]
            elif k == "join": self.join = a[1]
            elif k == "miter": self.miter = a[1]
            elif k == "dash": self.setdash(*a[1:])
            elif k == "linestyle":
                self.cap = [0, 0, 1, 1][a[1]]
                self.setdash([[], [2], [0, 2], [0, 2, 2, 2]][a[1]], 0, True)
            elif k == "eo": self.eo = a[1]
            elif k == "transp":
                if stroke: self.CA = 1 - a[1]
                if fill: self.ca = 1 - a[1]
            elif k == "pat":
                if fill: self.fill = tuple(a)
            elif kind(a) == "color":
                if stroke: self.stroke = tuple(a)
                if fill: self.fill = tuple(a)

    def item(self, k, subs):
        return dict(kind=k, subs=tsubs(subs, self.ctm), color=self.stroke if k == "stroke" else self.fill,
                    alpha=self.CA if k == "stroke" else self.ca, lw=self.lw, cap=self.cap, join=self.join, miter=self.miter,
                    dash=self.dash, ctm=self.ctm, clips=list(self.clips), evenodd=self.eo)


def m6(a):
    return tuple(a[1])


class MCanvas:
    def __init__(self, attrs=()):
        self.attrs = list(attrs)
        self.items = []
        self.layers = {}

    def layer(self, name, how, other):
        group, dot, rest = name.partition(".")
        if dot:
            if group not in self.layers:
                self.layers[group] = MCanvas()
                self.items.append(self.layers[group])
            return self.layers[group].layer(rest, how, other.partition(".")[2] if other else None)
        if name not in self.layers:
            self.layers[name] = MCanvas()
            if not other:
                self.items.append(self.layers[name])
        elif other:
            self.items.remove(self.layers[name])
        if other:
            i = next(i for i, x in enumerate(self.items) if x is self.layers[other])
            self.items.insert(i + (how == "above"), self.layers[name])
        return self.layers[name]

    def fill(self, items, names):
        for it in items:
            if it[0] in ("draw", "stroke", "fill"):
                self.items.append(it)
            elif it[0] == "canvas":
                c = mcanvas(it[1])
                if it[2]:
                    o = MCanvas(it[2])
                    o.items.append(c)
                    c = o
                self.items.append(c)
            else:
                other = layertarget(it, names)
                l = self.layer(it[1], it[2], other)
                register(names, it[1])
                l.fill(it[4], names)

    def run(self, s, out):
        s = s.copy()
        attrs = merge(self.attrs)
        s.apply([a for a in attrs if a[0] not in ("trafo", "clip")])
        # trafos and the clipping are applied from left to right: a trafo acts on everything left of it, the contents first of all
        total = ID
        clippath = None
        for a in attrs:
            if a[0] == "trafo":
                total = mul(total, m6(a))
                if clippath is not None:
                    clippath = tsubs(clippath, m6(a))
            elif a[0] == "clip":
                clippath = R.interpret(a[1])
        if clippath is not None:
            s.clips.append((tsubs(clippath, s.ctm), False))
        s.ctm = mul(total, s.ctm)
        for it in self.items:
            if isinstance(it, MCanvas):
                it.run(s, out)
            else:
                draw(it, s, out)


def draw(it, s, out):
    attrs = merge(([["stroked", []]] if it[0] == "stroke" else [["filled", []]] if it[0] == "fill" else []) + list(it[2]))
    subs = R.interpret(it[1])
    for a in attrs:
        if a[0] == "trafo":
            subs = tsubs(subs, m6(a))
    s = s.copy()
    s.apply([a for a in attrs if a[0] not in ("trafo", "stroked", "filled")])
    for which in ("filled", "stroked"):
        for a in attrs:
            if a[0] == which:
                t = s.copy()
                t.apply(merge(a[1]), stroke=which == "stroked", fill=which == "filled")
                out.append(t.item("stroke" if which == "stroked" else "fill", subs))


def mcanvas(node):
    c = MCanvas(node["attrs"])
    c.fill(node["items"], [])
    return c


def model(node):
    out = []
    mcanvas(node).run(State(), out)
    return out


# ---- comparison --------------------------------------------------------------------------------

def rgb(c):
    if c[0] == "gray": return (c[1],) * 3
    if c[0] == "rgb": return tuple(c[1:])
    if c[0] == "hsb": return colorsys.hsv_to_rgb(*c[1:])
    if c[0] == "cmyk": return tuple(1 - min(1, v + c[4]) for v in c[1:4])
    return c


def native(c):
    "what PostScript and PDF know"
    return ("rgb",) + tuple(colorsys.hsv_to_rgb(*c[1:])) if c[0] == "hsb" else tuple(c)


def lengths(item):
    return [p.len for p in R.polys(item["subs"])]


EPS = 0.01


def usable(item):
    ls = lengths(item)
    for c, eo in item["clips"]:
        ls += [p.len for p in R.polys(c)]
    if any(1e-7 < l < 10 * EPS for l in ls):
        raise Skip("subpath of borderline length")
    if not any(l > EPS for l in lengths(item)) or not all(any(p.len > EPS for p in R.polys(c)) for c, eo in item["clips"]):
        raise Skip("a path which draws nothing")
    if np.abs(np.array(item["ctm"])).max() > 1e4:
        raise Skip("large transformation")


def ink(items):
    out = []
    for it in items:
        if it["kind"] in ("stroke", "fill"):
            if any(l > EPS for l in lengths(it)):
                out.append(it)
        else:
            out.append(it)
    return out


def csubs(want, got, tol, what, closed):
    R.compare(R.polys(want), R.polys(got), tol, what, eps=EPS, closed=closed, fail=fail)


def pen(d):
    a, b, c, e = d["ctm"][:4]
    A = np.array([[a, c], [b, e]])
    return d["lw"] ** 2 * (A @ A.T), d["lw"] * 0 + math.sqrt(abs(np.linalg.det(A)))


def same(want, got, what, svg=False, npath=8):
    want, got = ink(want), ink(got)
    ensure([w["kind"] for w in want] == [g["kind"] for g in got], "%s paints %r, expected %r", what, [g["kind"] for g in got], [w["kind"] for w in want])
    for i, (w, g) in enumerate(zip(want, got)):
        t = "%s: painting operation %d (%s)" % (what, i, w["kind"])
        big = max([1.0] + [float(np.abs(p.pts).max()) for p in R.polys(w["subs"])])
        scale = float(np.abs(np.array(w["ctm"][:4])).max())
        tol = (2e-5 + 1.2e-5 * npath) * (big + 1000 * scale) + 1e-4
        csubs(w["subs"], g["subs"], tol, t, closed=w["kind"] == "stroke")
        if w["kind"] == "fill":
            ensure(bool(w["evenodd"]) == bool(g["evenodd"]), "%s: even-odd rule %r, expected %r", t, g["evenodd"], w["evenodd"])
        if svg:
            ensure(g["color"][0] == "rgb" and max(abs(x - y) for x, y in zip(rgb(w["color"]), g["color"][1:])) <= 1.001 / 255, "%s: colour %r, expected %r = rgb %r",
                   t, g["color"], w["color"], rgb(w["color"]))
        else:
            n = native(w["color"])
            ensure(n[0] == g["color"][0] and max(abs(x - y) for x, y in zip(n[1:], g["color"][1:])) <= 2e-6, "%s: colour %r, expected %r", t, g["color"], n)
        ensure(abs(w["alpha"] - g["alpha"]) < 2e-6, "%s: opacity %r, expected %r", t, g["alpha"], w["alpha"])
        if w["kind"] == "stroke":
            pw, sw = pen(w)
            pg, sg = pen(g)
            ensure(np.abs(pw - pg).max() <= 1e-4 * np.abs(pw).max() + 1e-9, "%s: pen %r, expected %r", t, pg.tolist(), pw.tolist())
            ensure(w["cap"] == g["cap"] and w["join"] == g["join"] and abs(w["miter"] - g["miter"]) < 1e-5, "%s: cap, join, miter limit %r, expected %r", t,
                   (g["cap"], g["join"], g["miter"]), (w["cap"], w["join"], w["miter"]))
            dw = [v * sw for v in list(w["dash"][0]) + [w["dash"][1]]]
            dg = [v * sg for v in list(g["dash"][0]) + [g["dash"][1] if g["dash"][0] else 0]]
            ensure(len(dw) == len(dg) and all(abs(x - y) <= 1e-4 * abs(x) + 3e-6 * (1 + sw) for x, y in zip(dw, dg)), "%s: dashes %r, expected %r", t, g["dash"], w["dash"])
        ensure(len(w["clips"]) == len(g["clips"]), "%s: %d clippings, expected %d", t, len(g["clips"]), len(w["clips"]))
        for (a, e1), (b, e2) in zip(w["clips"], g["clips"]):
            ensure(e1 == e2, "%s: clipping with fill rule %r", t, e2)
            big = max([1.0] + [float(np.abs(p.pts).max()) for p in R.polys(a)])
            csubs(a, b, (2e-5 + 1.2e-5 * npath) * (big + 1000 * scale) + 1e-4, t + " clipping", closed=False)


# ---- bounding boxes ------------------------------------------------------------------------------

def ext(subs, points=False):
    "extent; of what is drawn only, without lone points (unless points)"
    pts = np.concatenate([p.pts for p in R.polys(subs) if points or p.len > EPS])
    return [float(v) for v in (pts[:, 0].min(), pts[:, 1].min(), pts[:, 0].max(), pts[:, 1].max())]


def union(a, b):
    if a is None: return b
    if b is None: return a
    return [min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])]


def inter(a, b):
    if a is None or b is None: return None
    r = [max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3])]
    return r if r[0] <= r[2] and r[1] <= r[3] else None


def halfpen(w):
    p, s = pen(w)
    return math.sqrt(p[0][0]) / 2, math.sqrt(p[1][1]) / 2


def winding(polys, pts):
    "winding numbers of the polygons (closed) around the points"
    w = np.zeros(len(pts), int)
    x, y = pts[:, 0][:, None], pts[:, 1][:, None]
    for q in polys:
        a = np.concatenate([q, q[:1]])
        x0, y0, x1, y1 = a[:-1, 0], a[:-1, 1], a[1:, 0], a[1:, 1]
        side = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
        w += ((y0 <= y) & (y1 > y) & (side > 0)).sum(axis=1)
        w -= ((y0 > y) & (y1 <= y) & (side < 0)).sum(axis=1)
    return w


def inkbox(items, pens=True, points=False):
    "box around (a sample of) everything painted: the paths, half the line width around strokes, inside the clippings"
    lo, hi = [np.inf] * 2, [-np.inf] * 2
    for w in items:
        pts = np.concatenate([p.pts for p in R.polys(w["subs"]) if points or p.len > EPS])
        if w["clips"]:
            fine = []
            for p in R.polys(w["subs"]):
                if p.len > EPS:
                    fine.append(p.at(np.linspace(0, 1, 200)))
            pts = np.concatenate([pts] + fine)
        if w["kind"] == "stroke" and pens:
            P, s = pen(w)
            px = np.array([P[0][0], P[0][1]]) / 2 / math.sqrt(P[0][0])
            py = np.array([P[0][1], P[1][1]]) / 2 / math.sqrt(P[1][1])
            pts = np.concatenate([pts, pts + px, pts - px, pts + py, pts - py])
        for c, eo in w["clips"]:
            n = winding([p.pts for p in R.polys(c)], pts)
            pts = pts[n % 2 == 1 if eo else n != 0]
        if len(pts):
            lo, hi = np.minimum(lo, pts.min(axis=0)), np.maximum(hi, pts.max(axis=0))
    return [float(v) for v in (*lo, *hi)] if np.isfinite(lo).all() else None


def axisaligned(node):
    def ok(attrs):
        return all(a[0] != "clip" and (a[0] != "trafo" or a[1][1] == a[1][2] == 0) for a in attrs)
    return ok(node["attrs"]) and all(it[0] != "canvas" or ok(it[2]) and axisaligned(it[1]) for it in node["items"])


def geometry(node):
    "box of the paths, painted or not, at their final positions"
    n2 = {"attrs": [a for a in node["attrs"] if a[0] in ("trafo", "clip")], "items": []}
    def conv(items):
        out = []
        for it in items:
            if it[0] in ("draw", "stroke", "fill"):
                out.append(["fill", it[1], [a for a in merge(it[2]) if a[0] == "trafo"]])
            elif it[0] == "canvas":
                out.append(["canvas", geonode(it[1]), [a for a in merge(it[2]) if a[0] in ("trafo", "clip")]])
            else:
                out.append(it[:4] + [conv(it[4])])
        return out
    def geonode(n):
        return {"attrs": [a for a in merge(n["attrs"]) if a[0] in ("trafo", "clip")], "items": conv(n["items"])}
    return model(geonode(node))
