"""Structured SVG documents for the reader checks: text builder and an own evaluation of the structure into a display list

node: ["g", attrs, [nodes]] | [shape, dict of geometry, attrs]
attrs: dict with transform (list of [name, args...]), fill, stroke, stroke-width ...
lengths are [value, unit]; path data a list of [command, [[args], ...]]
"""
import math, random
from hypothesis import strategies as st
from .gfx import mul, app, PathBuilder, TSeg, tsubs
from . import refpath as R
from .svg import arc_center, transform as parse_transform

COLORS = {"red": (255, 0, 0), "green": (0, 128, 0), "cornflowerblue": (100, 149, 237), "lightgoldenrodyellow": (250, 250, 210), "black": (0, 0, 0),
          "rebeccagray": None, "olive": (128, 128, 0), "white": (255, 255, 255), "tan": (210, 180, 140)}
del COLORS["rebeccagray"]
ARGN = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, A=7, Z=0)


# ---- text ------------------------------------------------------------------------------------------

class Writer:
    def __init__(self, fmt):
        self.plain = fmt == 0
        self.r = random.Random(fmt)

    def num(self, v, exotic=True):
        s = "%g" % v
        if self.plain:
            return s
        k = self.r.randrange(8)
        if k == 1 and abs(v) < 1 and v and "e" not in s:
            return s.replace("0.", ".", 1)
        if k == 2 and v > 0:
            return "+" + s
        if k == 3:
            return "%.3e" % v
        if k == 4:
            return "%.4f" % v
        if k == 5 and exotic and "." not in s and "e" not in s:
            return s + "."
        return s

    def sep(self, nxt, prev=""):
        if self.plain:
            return " "
        k = self.r.randrange(6)
        if k == 0:
            return ","
        if k == 1:
            return ", "
        if k == 2:
            return " ,"
        if k == 3 and nxt[0] in "+-":
            return ""
        if k == 4:
            return "\n "
        return " "

    def nums(self, vals, flags=(), exotic=True):
        s = ""
        for i, v in enumerate(vals):
            t = "%d" % v if i in flags else self.num(v, exotic)
            s += (self.sep(t) if s else "") + t
        return s

    def path(self, cmds):
        s = "" if self.plain or self.r.randrange(4) else " \n"
        prev = None
        for c, groups in cmds:
            pre = "" if self.plain else self.r.choice(["", " ", "\n"])
            post = " " if self.plain else self.r.choice(["", " ", " ", "\t"])
            s += pre + c
            for i, g in enumerate(groups):
                t = self.nums(g, (3, 4) if c in "aA" else ())
                s += (post if not i else self.sep(t)) + t
        return s

    def length(self, l):
        return self.num(l[0], False) + l[1]

    def transform(self, ts):
        out = []
        for t in ts:
            out.append("%s%s(%s%s)" % (t[0], "" if self.plain else self.r.choice(["", "", " "]), "" if self.plain else self.r.choice(["", " "]), self.nums(t[1:])))
        return (" " if self.plain else self.r.choice([" ", "", ",", " , "])).join(out)

    def attrs(self, a):
        out = []
        for k, v in a.items():
            if k == "transform":
                v = self.transform(v)
            elif k == "stroke-width":
                v = self.length(v)
            elif k == "stroke-dasharray":
                v = "none" if v is None else self.nums(v, exotic=False)
            elif k in ("stroke-dashoffset", "stroke-miterlimit"):
                v = self.num(v, False)
            out.append((k, v))
        if not self.plain:
            self.r.shuffle(out)
        return "".join(' %s="%s"' % kv for kv in out)

    def node(self, n):
        if n[0] == "g":
            return "<g%s>%s</g>" % (self.attrs(n[1]), "\n".join(self.node(x) for x in n[2]))
        geo = ""
        for k, v in n[1].items():
            if k == "d":
                v = self.path(v)
            elif k == "points":
                v = self.nums(v)
            else:
                v = self.length(v)
            geo += ' %s="%s"' % (k, v)
        return "<%s%s%s/>" % (n[0], geo, self.attrs(n[2]))

    def doc(self, d):
        a = ""
        for k in ("width", "height"):
            if d[k] is not None:
                a += ' %s="%s"' % (k, d[k] if isinstance(d[k], str) else self.length(d[k]))
        if d["viewBox"] is not None:
            a += ' viewBox="%s"' % self.nums(d["viewBox"], exotic=False)
        a += self.attrs(d["attrs"])
        head = '<?xml version="1.0" encoding="utf-8"?>\n' if self.plain or self.r.randrange(2) else ""
        extra = "" if self.plain else self.r.choice(["", "<!-- a comment -->", "<title>T</title><desc>d</desc>"])
        return '%s<svg xmlns="http://www.w3.org/2000/svg" version="1.1"%s>%s%s</svg>' % (head, a, extra, "\n".join(self.node(x) for x in d["items"]))


# ---- own evaluation --------------------------------------------------------------------------------

def pathsubs(cmds, m, px=None):
    b = PathBuilder()
    cur = first = (0.0, 0.0)
    lc = lq = None
    for cmd, groups in cmds:
        rel, c = cmd.islower(), cmd.upper()
        for gi, g in enumerate(groups or [[]]):
            nc = nq = None
            k = "L" if c == "M" and gi else c
            ox, oy = cur if rel else (0.0, 0.0)
            if k == "Z":
                b.closepath()
                cur = first
            elif k == "M":
                cur = first = (g[0] + ox, g[1] + oy)
                b.moveto(m, *cur)
            elif k == "L":
                cur = (g[0] + ox, g[1] + oy)
                b.lineto(m, *cur)
            elif k == "H":
                cur = (g[0] + ox, cur[1])
                b.lineto(m, *cur)
            elif k == "V":
                cur = (cur[0], g[0] + oy)
                b.lineto(m, *cur)
            elif k in "CS":
                if k == "C":
                    p1 = (g[0] + ox, g[1] + oy)
                    g = g[2:]
                else:
                    p1 = cur if lc is None else (2 * cur[0] - lc[0], 2 * cur[1] - lc[1])
                nc = (g[0] + ox, g[1] + oy)
                cur = (g[2] + ox, g[3] + oy)
                b.curveto(m, *p1, *nc, *cur)
            elif k in "QT":
                if k == "Q":
                    nq = (g[0] + ox, g[1] + oy)
                    g = g[2:]
                else:
                    nq = cur if lq is None else (2 * cur[0] - lq[0], 2 * cur[1] - lq[1])
                p3 = (g[0] + ox, g[1] + oy)
                b.curveto(m, *[(u + 2 * v) / 3 for u, v in zip(cur, nq)], *[(u + 2 * v) / 3 for u, v in zip(p3, nq)], *p3)
                cur = p3
            else:
                rx, ry, phi, fa, fs, x, y = g
                p = (x + ox, y + oy)
                if math.hypot(p[0] - cur[0], p[1] - cur[1]) > 1e-9:
                    if rx == 0 or ry == 0:
                        b.lineto(m, *p)
                    else:
                        cx, cy, rx, ry, t1, dt = arc_center(*cur, rx, ry, phi, fa, fs, *p)
                        ca, sa = math.cos(math.radians(phi)), math.sin(math.radians(phi))
                        b._need()
                        b.sp.segs.append(TSeg(R.Arc(0, 0, 1, t1, t1 + dt), mul((rx * ca, rx * sa, -ry * sa, ry * ca, cx, cy), m)))
                        b.cur = app(m, p)
                cur = p
            lc, lq = nc, nq
    return b.subs


def arcborderline(cmds):
    "an elliptical arc of about 180 degrees by accident, or about a full turn: which way it goes is a question of rounding"
    cur = first = (0.0, 0.0)
    for cmd, groups in cmds:
        rel, c = cmd.islower(), cmd.upper()
        if c == "Z":
            cur = first
        for gi, g in enumerate(groups):
            ox, oy = cur if rel else (0.0, 0.0)
            if c == "A":
                p = (g[5] + ox, g[6] + oy)
                dx, dy = (cur[0] - p[0]) / 2, (cur[1] - p[1]) / 2
                if 0 < math.hypot(dx, dy) < 1e-3:
                    return True
                if g[0] and g[1] and (dx or dy):
                    ca, sa = math.cos(math.radians(g[2])), math.sin(math.radians(g[2]))
                    lam = ((ca * dx + sa * dy) / g[0]) ** 2 + ((-sa * dx + ca * dy) / g[1]) ** 2
                    if 0.999 < lam < 1.001 or lam < 1e-6:
                        return True
            n = len(g)
            if c == "H":
                cur = (g[0] + ox, cur[1])
            elif c == "V":
                cur = (cur[0], g[0] + oy)
            else:
                cur = (g[n - 2] + ox, g[n - 1] + oy)
            if c == "M" and not gi:
                first = cur
    return False


UNITPT = {"pt": 1, "pc": 12, "mm": 72 / 25.4, "cm": 72 / 2.54, "in": 72}


def topx(l, res):
    return l[0] if l[1] in ("", "px") else l[0] * UNITPT[l[1]] * res / 72


def tmat(t):
    return parse_transform("%s(%s)" % (t[0], " ".join(repr(float(v)) for v in t[1:])))


def rgb(s):
    s = s.strip()
    if s in COLORS:
        return ("rgb",) + tuple(v / 255 for v in COLORS[s])
    if s.startswith("#"):
        h = s[1:]
        if len(h) == 3:
            h = "".join(c + c for c in h)
        return ("rgb",) + tuple(int(h[i:i + 2], 16) / 255 for i in (0, 2, 4))
    v = s[s.index("(") + 1:s.index(")")].split(",")
    return ("rgb",) + tuple(float(x.replace("%", "")) / (100 if "%" in x else 255) for x in v)


DEFAULT = {"fill": "black", "stroke": "none", "stroke-width": [1, ""], "stroke-linecap": "butt", "stroke-linejoin": "miter", "stroke-miterlimit": 4,
           "stroke-dasharray": None, "stroke-dashoffset": 0, "fill-rule": "nonzero"}


def shape(n, m, res):
    k, g = n[0], n[1]
    v = {a: topx(b, res) for a, b in g.items() if a not in ("d", "points")}
    if k == "path":
        return pathsubs(g["d"], m)
    b = PathBuilder()
    if k in ("polyline", "polygon"):
        p = g["points"]
        b.moveto(m, p[0], p[1])
        for i in range(2, len(p), 2):
            b.lineto(m, p[i], p[i + 1])
        if k == "polygon":
            b.closepath()
        return b.subs
    if k == "line":
        b.moveto(m, v.get("x1", 0), v.get("y1", 0))
        b.lineto(m, v.get("x2", 0), v.get("y2", 0))
        return b.subs
    if k in ("circle", "ellipse"):
        rx, ry = (v["r"], v["r"]) if k == "circle" else (v["rx"], v["ry"])
        if rx == 0 or ry == 0:
            return []
        b.arc(mul((rx, 0, 0, ry, v.get("cx", 0), v.get("cy", 0)), m), 0, 0, 1, 0, 360)
        b.closepath()
        return b.subs
    x, y, w, h = v.get("x", 0), v.get("y", 0), v["width"], v["height"]
    if w == 0 or h == 0:
        return []
    rx, ry = v.get("rx"), v.get("ry")
    rx, ry = (ry if rx is None else rx) or 0, (rx if ry is None else ry) or 0
    rx, ry = min(rx, w / 2), min(ry, h / 2)
    if rx == 0 or ry == 0:
        b.moveto(m, x, y)
        b.lineto(m, x + w, y)
        b.lineto(m, x + w, y + h)
        b.lineto(m, x, y + h)
        b.closepath()
        return b.subs
    b.moveto(m, x + w - rx, y)
    for cx, cy, a in ((x + w - rx, y + ry, -90), (x + w - rx, y + h - ry, 0), (x + rx, y + h - ry, 90), (x + rx, y + ry, 180)):
        b.arc(mul((rx, 0, 0, ry, cx, cy), m), 0, 0, 1, a, a + 90)
    b.closepath()
    return b.subs


def evaluate(d, res=96, place=(0, 0, None, None, None)):
    """display list in pt and the box; place: x, y, width, height, ratio in pt"""
    s = 72 / res
    vb = d["viewBox"]

    def size(l, inner):
        if l is None or isinstance(l, str):
            return inner * s * (1 if l is None else float(l.rstrip("%")) / 100)
        return topx(l, res) * s
    w, h = size(d["width"], vb and vb[2]), size(d["height"], vb and vb[3])
    if vb:
        m = mul((1, 0, 0, 1, -vb[0], -vb[1]), (w / vb[2], 0, 0, -h / vb[3], 0, h))
    else:
        m = (s, 0, 0, -s, 0, h)
    x, y, W, H, ratio = place
    if W is None and H is None:
        W, H = w, h
    elif W is None:
        W = H * (w / h if ratio is None else ratio)
    elif H is None:
        H = W / (w / h if ratio is None else ratio)
    m = mul(m, (W / w, 0, 0, H / h, x, y))
    clips = []
    if vb:
        b = PathBuilder()
        b.moveto(m, vb[0], vb[1])
        b.lineto(m, vb[0] + vb[2], vb[1])
        b.lineto(m, vb[0] + vb[2], vb[1] + vb[3])
        b.lineto(m, vb[0], vb[1] + vb[3])
        b.closepath()
        clips = [(b.subs, False)]
    out = []

    def walk(n, style, m):
        a = n[1] if n[0] == "g" else n[2]
        style = dict(style)
        style.update({k: v for k, v in a.items() if k in DEFAULT})
        for t in reversed(a.get("transform", [])):
            # the last transformation acts first
            pass
        for t in a.get("transform", []):
            m = mul(tmat(t), m)
        if n[0] == "g":
            for c in n[2]:
                walk(c, style, m)
            return
        subs = shape(n, m, res)
        if not subs:
            return
        common = dict(alpha=1.0, ctm=m, clips=clips)
        if style["fill"] != "none":
            out.append(dict(kind="fill", subs=subs, color=rgb(style["fill"]), evenodd=style["fill-rule"] == "evenodd", lw=0, cap=0, join=0, miter=10, dash=([], 0), **common))
        if style["stroke"] != "none":
            da = style["stroke-dasharray"] or []
            out.append(dict(kind="stroke", subs=subs, color=rgb(style["stroke"]), lw=topx(style["stroke-width"], res),
                            cap=("butt", "round", "square").index(style["stroke-linecap"]), join=("miter", "round", "bevel").index(style["stroke-linejoin"]),
                            miter=style["stroke-miterlimit"], dash=(da, style["stroke-dashoffset"] if da else 0), **common))
    st = dict(DEFAULT)
    st.update(d["attrs"])
    for n in d["items"]:
        walk(n, st, m)
    return out, (x, y, x + W, y + H)


# ---- strategies ------------------------------------------------------------------------------------

half = st.integers(-40, 160).map(lambda v: v / 2)
pos = st.integers(2, 120).map(lambda v: v / 2)
lunit = st.sampled_from(["", "", "", "px", "pt", "mm", "cm", "in", "pc"])


def length(v, units=True):
    def f(t):
        k = {"mm": 0.3, "cm": 0.03, "in": 0.01, "pc": 0.1}.get(t[1], 1)
        return [round(t[0] * k, 3), t[1]]
    return st.tuples(v, lunit if units else st.just("")).map(f)


@st.composite
def pathcmds(draw):
    out = []
    for i in range(draw(st.integers(1, 2))):
        out.append([draw(st.sampled_from("Mm")), draw(st.lists(st.lists(half, min_size=2, max_size=2), min_size=1, max_size=2))])
        for j in range(draw(st.integers(1, 4))):
            c = draw(st.sampled_from("LlHhVvCcSsQqTtAaSsTtCcQq"))
            n = ARGN[c.upper()]
            if c in "Aa":
                g = st.tuples(pos, pos, st.sampled_from([0, 0, 30, -45, 90, 110.5]), st.integers(0, 1), st.integers(0, 1), half, half).map(list)
            else:
                g = st.lists(half, min_size=n, max_size=n)
            out.append([c, draw(st.lists(g, min_size=1, max_size=2))])
        if draw(st.integers(0, 2)) == 0:
            out.append([draw(st.sampled_from("Zz")), []])
    return out


tr1 = st.one_of(st.integers(-30, 30), st.integers(-30, 30), st.just(0))
transforms = st.lists(st.one_of(
    st.tuples(st.just("translate"), tr1, tr1).map(list), st.tuples(st.just("translate"), tr1).map(list),
    st.tuples(st.just("scale"), st.sampled_from([.5, 2, 1.5, -1]), st.sampled_from([.5, 2, .75, -1])).map(list),
    st.tuples(st.just("scale"), st.sampled_from([.5, 2, 1.25])).map(list),
    st.tuples(st.just("rotate"), st.sampled_from([30, -45, 90, 10])).map(list),
    st.tuples(st.just("rotate"), st.sampled_from([30, -45, 90, 10]), tr1, tr1).map(list),
    st.tuples(st.sampled_from(["skewX", "skewY"]), st.sampled_from([20, -30, 10])).map(list),
    st.tuples(st.just("matrix"), st.sampled_from([1, .5, 2]), st.sampled_from([0, .25, -.5]), st.sampled_from([0, .5, -.25]), st.sampled_from([1, 1.5, -1]), tr1, tr1).map(list)
), min_size=1, max_size=3)

colors = st.one_of(st.sampled_from(sorted(COLORS)), st.sampled_from(["#f00", "#1a2B3c", "#AbC", "rgb(10,200, 30)", "rgb(10%, 100%,0%)", "rgb(0,0,255)"]))


@st.composite
def attrs(draw, dash=True, transform=True):
    a = {}
    for k, s, p in (("transform", transforms, 2), ("fill", st.one_of(colors, st.just("none")), 2), ("stroke", st.one_of(colors, colors, st.just("none")), 2),
                    ("stroke-width", length(st.integers(1, 12).map(lambda v: v / 2)), 4), ("stroke-linecap", st.sampled_from(["butt", "round", "square"]), 6),
                    ("stroke-linejoin", st.sampled_from(["miter", "round", "bevel"]), 6), ("stroke-miterlimit", st.sampled_from([1, 2.5, 10]), 8),
                    ("stroke-dasharray", st.one_of(st.none(), st.lists(st.integers(1, 9), min_size=1, max_size=4)), 6),
                    ("stroke-dashoffset", st.integers(1, 7), 10), ("fill-rule", st.sampled_from(["evenodd", "nonzero"]), 5)):
        if (k == "transform" and not transform) or ("dash" in k and not dash):
            continue
        if draw(st.integers(0, p)) == p:
            a[k] = draw(s)
    return a


@st.composite
def shapes(draw):
    k = draw(st.sampled_from(["path", "path", "path", "rect", "circle", "ellipse", "line", "polyline", "polygon"]))
    g = {}
    if k == "path":
        g["d"] = draw(pathcmds())
    elif k in ("polyline", "polygon"):
        g["points"] = draw(st.lists(half, min_size=2, max_size=4).flatmap(lambda l: st.lists(half, min_size=len(l) * 2, max_size=len(l) * 2)))
    else:
        need, opt = {"rect": (["width", "height"], ["x", "y", "rx", "ry"]), "circle": (["r"], ["cx", "cy"]), "ellipse": (["rx", "ry"], ["cx", "cy"]),
                     "line": ([], ["x1", "y1", "x2", "y2"])}[k]
        for o in opt + need:
            if o in need or draw(st.integers(0, 3)):
                g[o] = draw(length(pos if o in need or o in ("rx", "ry") else half))
    a = draw(attrs(dash=not (k == "rect" and ("rx" in g or "ry" in g))))
    if a.get("fill", "") == "none" and "stroke" not in a:
        a["stroke"] = "red"
    return [k, g, a]


@st.composite
def items(draw, depth=2):
    out = []
    for i in range(draw(st.integers(1, 2 if depth < 2 else 3))):
        if depth and draw(st.integers(0, 2)) == 2:
            out.append(["g", draw(attrs()), draw(items(depth - 1))])
        else:
            out.append(draw(shapes()))
    return out


@st.composite
def documents(draw):
    vb = None
    if draw(st.booleans()):
        vb = [draw(st.integers(-40, 60)), draw(st.integers(-40, 60)), draw(st.integers(20, 200)), draw(st.integers(20, 200))]
    if vb is None:
        w, h = draw(length(st.integers(40, 300))), draw(length(st.integers(40, 300)))
    else:
        # same aspect ratio as the viewBox: preserveAspectRatio plays no role
        k = draw(st.sampled_from(["none", "percent", "len", "len"]))
        if k == "none":
            w = h = None
        elif k == "percent":
            w = h = draw(st.sampled_from(["100%", "50%", "150%"]))
        else:
            f, u = draw(st.sampled_from([.5, 1, 2, .25])), draw(lunit)
            f *= {"mm": 0.4, "cm": 0.04, "in": 0.02, "pc": 0.1}.get(u, 1)
            w, h = [round(vb[2] * f, 6), u], [round(vb[3] * f, 6), u]
    return dict(width=w, height=h, viewBox=vb, attrs=draw(attrs(transform=False)), items=draw(items()))
