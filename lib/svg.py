"""SVG path data (own implementation of the SVG 1.1 grammar) and document interpreter"""
import math, re
from .gfx import ID, mul, app, PathBuilder, Error, tsubs
from . import refpath as R

_tok = re.compile(r"[\s,]*([MmZzLlHhVvCcSsQqTtAa]|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


def arc_center(x1, y1, rx, ry, phi, fa, fs, x2, y2):
    "SVG 1.1 F.6.5: (cx, cy, rx, ry, theta1, dtheta)"
    rx, ry = abs(rx), abs(ry)
    c, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    dx, dy = (x1 - x2) / 2, (y1 - y2) / 2
    xp, yp = c * dx + s * dy, -s * dx + c * dy
    lam = xp * xp / rx / rx + yp * yp / ry / ry
    if lam > 1:
        rx *= math.sqrt(lam)
        ry *= math.sqrt(lam)
        k = 0.0
    else:
        k = math.sqrt(max(0.0, (rx * rx * ry * ry - rx * rx * yp * yp - ry * ry * xp * xp) / (rx * rx * yp * yp + ry * ry * xp * xp)))
    if fa == fs:
        k = -k
    cxp, cyp = k * rx * yp / ry, -k * ry * xp / rx
    cx, cy = c * cxp - s * cyp + (x1 + x2) / 2, s * cxp + c * cyp + (y1 + y2) / 2
    t1 = math.atan2((yp - cyp) / ry, (xp - cxp) / rx)
    t2 = math.atan2((-yp - cyp) / ry, (-xp - cxp) / rx)
    d = t2 - t1
    if fs and d < 0:
        d += 2 * math.pi
    if not fs and d > 0:
        d -= 2 * math.pi
    return cx, cy, rx, ry, math.degrees(t1), math.degrees(d)


def pathdata(d, m=ID):
    "list of Subpath of a path data string under the matrix m"
    toks = []
    i = 0
    d = d.rstrip()
    while i < len(d):
        g = _tok.match(d, i)
        if not g:
            raise Error("path data %r at %d" % (d, i))
        toks.append(g.group(1))
        i = g.end()
    b = PathBuilder()
    cur = (0.0, 0.0)
    first = (0.0, 0.0)
    k = 0
    cmd = None
    lastc = lastq = None
    drawn = False

    def take(n):
        nonlocal k
        if k + n > len(toks):
            raise Error("path data: missing arguments")
        r = toks[k:k + n]
        k += n
        try:
            return [float(v) for v in r]
        except ValueError:
            raise Error("path data: number expected in %r" % (r,))
    while k < len(toks):
        if toks[k][0].isalpha():
            cmd = toks[k]
            k += 1
        elif cmd is None:
            raise Error("path data must start with a command")
        elif cmd in "Zz":
            raise Error("number after closepath")
        elif cmd == "M":
            cmd = "L"
        elif cmd == "m":
            cmd = "l"
        if not drawn and cmd not in "Mm":
            raise Error("path data must start with moveto")
        drawn = True
        rel = cmd.islower()
        c = cmd.upper()
        ox, oy = cur if rel else (0.0, 0.0)
        nc = nq = None
        if c == "Z":
            b.closepath()
            cur = first
        elif c == "M":
            x, y = take(2)
            cur = first = (x + ox, y + oy)
            b.moveto(m, *cur)
        elif c == "L":
            x, y = take(2)
            cur = (x + ox, y + oy)
            b.lineto(m, *cur)
        elif c == "H":
            cur = (take(1)[0] + ox, cur[1])
            b.lineto(m, *cur)
        elif c == "V":
            cur = (cur[0], take(1)[0] + oy)
            b.lineto(m, *cur)
        elif c in "CS":
            if c == "C":
                p1 = take(2)
                p1 = (p1[0] + ox, p1[1] + oy)
            else:
                p1 = cur if lastc is None else (2 * cur[0] - lastc[0], 2 * cur[1] - lastc[1])
            x2, y2, x, y = take(4)
            nc = (x2 + ox, y2 + oy)
            cur = (x + ox, y + oy)
            b.curveto(m, *p1, *nc, *cur)
        elif c in "QT":
            if c == "Q":
                p1 = take(2)
                p1 = (p1[0] + ox, p1[1] + oy)
            else:
                p1 = cur if lastq is None else (2 * cur[0] - lastq[0], 2 * cur[1] - lastq[1])
            x, y = take(2)
            nq = p1
            p3 = (x + ox, y + oy)
            b.curveto(m, *[(a + 2 * q) / 3 for a, q in zip(cur, p1)], *[(a + 2 * q) / 3 for a, q in zip(p3, p1)], *p3)
            cur = p3
        elif c == "A":
            rx, ry, phi, fa, fs, x, y = take(7)
            if fa not in (0, 1) or fs not in (0, 1):
                raise Error("arc flags")
            p = (x + ox, y + oy)
            if p == cur:
                pass
            elif rx == 0 or ry == 0:
                b.lineto(m, *p)
            else:
                cx, cy, rx, ry, t1, dt = arc_center(*cur, rx, ry, phi, fa, fs, *p)
                ca, sa = math.cos(math.radians(phi)), math.sin(math.radians(phi))
                am = mul((rx * ca, rx * sa, -ry * sa, ry * ca, cx, cy), m)
                b._need()
                from .gfx import TSeg
                b.sp.segs.append(TSeg(R.Arc(0, 0, 1, t1, t1 + dt), am))
                b.cur = app(m, p)
            cur = p
        if c != "Z" and b.sp is not None and not b.sp.segs:
            first = cur if c == "M" else first
        lastc, lastq = nc, nq
    return b.subs


# ---- documents -------------------------------------------------------------------------------

import xml.etree.ElementTree as ET

SVGNS = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
_num = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
NAMED = {"black": (0, 0, 0), "white": (1, 1, 1)}


def color(s, doc=None):
    s = s.strip()
    if s == "none":
        return None
    if s in NAMED:
        return ("rgb",) + NAMED[s]
    if re.fullmatch(r"#[0-9a-fA-F]{3}", s):
        return ("rgb",) + tuple(int(c, 16) * 17 / 255 for c in s[1:])
    if re.fullmatch(r"#[0-9a-fA-F]{6}", s):
        return ("rgb",) + tuple(int(s[i:i + 2], 16) / 255 for i in (1, 3, 5))
    m = re.fullmatch(r"url\(#([^)]+)\)", s)
    if m and doc is not None:
        return ("pattern", doc.ref(m.group(1)))
    raise Error("paint %r" % s)


def number(s, what):
    m = re.fullmatch(r"\s*(%s)(px|pt)?\s*" % _num, s)
    if not m:
        raise Error("%s: %r is not a number" % (what, s))
    return float(m.group(1))


def transform(s):
    m = ID
    pos = 0
    for g in re.finditer(r"[\s,]*(\w+)\s*\(([^)]*)\)", s):
        if g.start() != pos:
            raise Error("transform %r" % s)
        pos = g.end()
        a = [float(x) for x in re.findall(_num, g.group(2))]
        k = g.group(1)
        if k == "matrix" and len(a) == 6: t = tuple(a)
        elif k == "translate" and len(a) in (1, 2): t = (1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)
        elif k == "scale" and len(a) in (1, 2): t = (a[0], 0, 0, a[-1], 0, 0)
        elif k == "rotate" and len(a) in (1, 3):
            c, n = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
            t = (c, n, -n, c, 0, 0)
            if len(a) == 3:
                t = mul(mul((1, 0, 0, 1, -a[1], -a[2]), t), (1, 0, 0, 1, a[1], a[2]))
        elif k == "skewX" and len(a) == 1: t = (1, 0, math.tan(math.radians(a[0])), 1, 0, 0)
        elif k == "skewY" and len(a) == 1: t = (1, math.tan(math.radians(a[0])), 0, 1, 0, 0)
        else:
            raise Error("transform %r" % s)
        m = mul(t, m)
    if s[pos:].strip():
        raise Error("transform %r" % s)
    return m


INHERIT = {"fill": "black", "stroke": "none", "stroke-width": "1", "stroke-linecap": "butt", "stroke-linejoin": "miter",
           "stroke-miterlimit": "4", "stroke-dasharray": "none", "stroke-dashoffset": "0", "fill-rule": "nonzero",
           "fill-opacity": "1", "stroke-opacity": "1"}
KNOWN = set(INHERIT) | {"opacity", "clip-path", "transform", "d", "id"}


class Doc:
    def __init__(self, data):
        self.root = ET.fromstring(data)
        if self.root.tag != SVGNS + "svg":
            raise Error("root element %s" % self.root.tag)
        self.ids = {}
        for e in self.root.iter():
            if not e.tag.startswith(SVGNS):
                raise Error("element %s is not in the SVG namespace" % e.tag)
            i = e.get("id")
            if i is not None:
                if i in self.ids:
                    raise Error("id %r is used twice" % i)
                self.ids[i] = e
        self.out = []
        self.texts = []
        r = self.root.attrib
        self.viewbox = None
        if "viewBox" in r:
            v = [float(x) for x in r["viewBox"].replace(",", " ").split()]
            if len(v) != 4 or v[2] < 0 or v[3] < 0:
                raise Error("viewBox %r" % r["viewBox"])
            self.viewbox = v
        st = dict(INHERIT)
        for k, v in r.items():
            if k in INHERIT:
                st[k] = v
        for e in self.root:
            self.walk(e, st, (1, 0, 0, -1, 0, 0), [], 1.0)

    def ref(self, i):
        if i not in self.ids:
            raise Error("reference to %r, which is not defined" % i)
        return self.ids[i]

    def walk(self, e, st, m, clips, opacity):
        tag = e.tag[len(SVGNS):]
        if tag == "defs":
            return
        st = dict(st)
        a = e.attrib
        for k, v in a.items():
            if k in INHERIT:
                st[k] = v
            elif k not in KNOWN and tag in ("g", "path"):
                raise Error("attribute %s of %s" % (k, tag))
        if "transform" in a:
            m = mul(transform(a["transform"]), m)
        if "opacity" in a:
            o = number(a["opacity"], "opacity")
            if not 0 <= o <= 1:
                raise Error("opacity %r" % o)
            opacity *= o
        if "clip-path" in a:
            g = re.fullmatch(r"url\(#([^)]+)\)", a["clip-path"])
            if not g:
                raise Error("clip-path %r" % a["clip-path"])
            c = self.ref(g.group(1))
            if c.tag != SVGNS + "clipPath":
                raise Error("clip-path refers to %s" % c.tag)
            subs = []
            eo = False
            for ch in c:
                if ch.tag != SVGNS + "path":
                    raise Error("clip path of %s" % ch.tag)
                subs += pathdata(ch.attrib["d"], m)
                eo = ch.attrib.get("clip-rule", "nonzero") == "evenodd"
            clips = clips + [(subs, eo)]
        if tag in ("g", "svg"):
            for ch in e:
                self.walk(ch, st, m, clips, opacity)
        elif tag == "path":
            subs = pathdata(a["d"], m)
            f, s = color(st["fill"], self), color(st["stroke"], self)
            if f is not None:
                if st["fill-rule"] not in ("nonzero", "evenodd"):
                    raise Error("fill-rule %r" % st["fill-rule"])
                self.out.append(dict(kind="fill", subs=subs, color=f, alpha=opacity * number(st["fill-opacity"], "fill-opacity"),
                                     evenodd=st["fill-rule"] == "evenodd", ctm=m, clips=clips, lw=0, cap=0, join=0, miter=10, dash=([], 0)))
            if s is not None:
                da = st["stroke-dasharray"]
                dash = [] if da == "none" else [number(x, "dasharray") for x in re.split(r"[\s,]+", da.strip())]
                self.out.append(dict(kind="stroke", subs=subs, color=s, alpha=opacity * number(st["stroke-opacity"], "stroke-opacity"),
                                     ctm=m, clips=clips, lw=number(st["stroke-width"], "stroke-width"),
                                     cap=("butt", "round", "square").index(st["stroke-linecap"]),
                                     join=("miter", "round", "bevel").index(st["stroke-linejoin"]),
                                     miter=number(st["stroke-miterlimit"], "miterlimit"),
                                     dash=(dash, number(st["stroke-dashoffset"], "dashoffset") if dash else 0)))
        elif tag == "image":
            self.out.append(dict(kind="image", attrs=dict(a), ctm=m, clips=clips, alpha=opacity))
        elif tag == "text":
            self.out.append(dict(kind="text", element=e, style=st, ctm=m, clips=clips, alpha=opacity))
        else:
            raise Error("element %s" % tag)
