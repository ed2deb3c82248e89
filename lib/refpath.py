"""Reference geometry: PostScript path semantics, independent of pyx.

A path case is a list of items in pts:
  ["M",x,y] ["L",x,y] ["C",x1,y1,x2,y2,x3,y3] ["m",dx,dy] ["l",dx,dy] ["c",...6] ["Z"]
  ["arc",x,y,r,a1,a2] ["arcn",...] ["arct",x1,y1,x2,y2,r] ["ml",[[x,y],...]] ["mc",[[6 numbers],...]]
"""
import math
import numpy as np


class Line:
    def __init__(self, p, q):
        self.p, self.q = (float(p[0]), float(p[1])), (float(q[0]), float(q[1]))

    def start(self): return self.p
    def end(self): return self.q

    def eval(self, t):
        t = np.asarray(t, float)[:, None]
        return np.array(self.p) * (1 - t) + np.array(self.q) * t

    def n(self): return 2

    def length(self):
        return math.hypot(self.q[0] - self.p[0], self.q[1] - self.p[1])

    def deriv(self, t):
        return np.array([[self.q[0] - self.p[0], self.q[1] - self.p[1]]] * len(t))


class Cubic:
    def __init__(self, *p):
        self.p = [(float(a), float(b)) for a, b in p]

    def start(self): return self.p[0]
    def end(self): return self.p[3]

    def eval(self, t):
        t = np.asarray(t, float)[:, None]
        a, b, c, d = [np.array(v) for v in self.p]
        s = 1 - t
        return a * s ** 3 + 3 * b * s * s * t + 3 * c * s * t * t + d * t ** 3

    def n(self): return 240

    def deriv(self, t):
        t = np.asarray(t, float)[:, None]
        a, b, c, d = [np.array(v) for v in self.p]
        s = 1 - t
        return 3 * (b - a) * s * s + 6 * (c - b) * s * t + 3 * (d - c) * t * t

    def deriv2(self, t):
        t = np.asarray(t, float)[:, None]
        a, b, c, d = [np.array(v) for v in self.p]
        return 6 * (c - 2 * b + a) * (1 - t) + 6 * (d - 2 * c + b) * t

    def length(self):
        return gauss_length(self)


class Arc:
    "a1 -> a2 in degrees; a2 > a1 counterclockwise"
    def __init__(self, x, y, r, a1, a2):
        self.x, self.y, self.r, self.a1, self.a2 = x, y, r, a1, a2

    def pt(self, a):
        return (self.x + self.r * math.cos(math.radians(a)), self.y + self.r * math.sin(math.radians(a)))

    def start(self): return self.pt(self.a1)
    def end(self): return self.pt(self.a2)

    def eval(self, t):
        a = np.radians(self.a1 + (self.a2 - self.a1) * np.asarray(t, float))
        return np.stack([self.x + self.r * np.cos(a), self.y + self.r * np.sin(a)], axis=1)

    def n(self):
        return max(8, int(abs(self.a2 - self.a1) / 1.5) + 2)

    def length(self):
        return self.r * math.radians(abs(self.a2 - self.a1))


_gx, _gw = np.polynomial.legendre.leggauss(24)


def gauss_length(seg, pieces=24):
    edges = np.linspace(0, 1, pieces + 1)
    h = 1 / pieces
    t = (edges[:-1, None] + h * 0.5 * (_gx[None, :] + 1)).ravel()
    d = seg.deriv(t)
    sp = np.hypot(d[:, 0], d[:, 1]).reshape(pieces, -1)
    return float((sp * _gw[None, :]).sum() * h * 0.5)


class Subpath:
    def __init__(self, start):
        self.first = start
        self.segs = []
        self.closed = False

    def cur(self):
        return self.segs[-1].end() if self.segs else self.first

    def length(self):
        return sum(s.length() for s in self.segs)


def arc_sweep(a1, a2, ccw=True):
    "second angle such that the arc a1->a2 has the right orientation"
    if ccw:
        while a2 < a1:
            a2 += 360
    else:
        while a2 > a1:
            a2 -= 360
    return a2


def arct_geometry(p0, p1, p2, r):
    "tangent points and centre; None when the three points are collinear"
    v1 = np.array(p0, float) - p1
    v2 = np.array(p2, float) - p1
    v1 /= np.hypot(*v1)
    v2 /= np.hypot(*v2)
    cr = v1[0] * v2[1] - v1[1] * v2[0]
    dot = float(v1 @ v2)
    if abs(cr) < 1e-9:
        return None
    half = math.atan2(abs(cr), dot) / 2        # half the inner angle at p1
    d = r / math.tan(half)
    t1 = np.array(p1) + v1 * d
    t2 = np.array(p1) + v2 * d
    b = v1 + v2
    b /= np.hypot(*b)
    c = np.array(p1) + b * (r / math.sin(half))
    a1 = math.degrees(math.atan2(t1[1] - c[1], t1[0] - c[0]))
    a2 = math.degrees(math.atan2(t2[1] - c[1], t2[0] - c[0]))
    ccw = cr < 0          # turning left at p1 means the arc runs counterclockwise
    a2 = arc_sweep(a1, a2, ccw)
    return t1, t2, c, a1, a2, d


def interpret(items):
    "list of Subpath following PostScript"
    subs = []
    cur = None
    sp = None          # open subpath

    def need():
        nonlocal sp
        if sp is None:                      # implicit subpath after closepath
            sp = Subpath(cur)
            subs.append(sp)

    def line(p):
        nonlocal cur
        need()
        sp.segs.append(Line(cur, p))
        cur = p

    def curve(a, b, c):
        nonlocal cur
        need()
        sp.segs.append(Cubic(cur, a, b, c))
        cur = c

    def arc(x, y, r, a1, a2):
        nonlocal cur, sp
        seg = Arc(x, y, r, a1, a2)
        if cur is None:
            sp = Subpath(seg.start())
            subs.append(sp)
        else:
            line(seg.start())
        sp.segs.append(seg)
        cur = seg.end()

    for it in items:
        op, a = it[0], it[1:]
        if op in ("M", "m"):
            cur = (a[0], a[1]) if op == "M" else (cur[0] + a[0], cur[1] + a[1])
            sp = Subpath(cur)
            subs.append(sp)
        elif op == "L":
            line((a[0], a[1]))
        elif op == "l":
            line((cur[0] + a[0], cur[1] + a[1]))
        elif op == "C":
            curve((a[0], a[1]), (a[2], a[3]), (a[4], a[5]))
        elif op == "c":
            x, y = cur
            curve((x + a[0], y + a[1]), (x + a[2], y + a[3]), (x + a[4], y + a[5]))
        elif op == "ml":
            for p in a[0]:
                line((p[0], p[1]))
        elif op == "mc":
            for p in a[0]:
                curve((p[0], p[1]), (p[2], p[3]), (p[4], p[5]))
        elif op in ("arc", "arcn"):
            x, y, r, a1, a2 = a
            arc(x, y, r, a1, arc_sweep(a1, a2, op == "arc"))
        elif op == "arct":
            x1, y1, x2, y2, r = a
            g = arct_geometry(cur, (x1, y1), (x2, y2), r) if r else None
            if g is None:
                line((x1, y1))
            else:
                t1, t2, c, a1, a2, d = g
                line((float(t1[0]), float(t1[1])))
                sp.segs.append(Arc(float(c[0]), float(c[1]), r, a1, a2))
                cur = (float(t2[0]), float(t2[1]))
        elif op == "Z":
            if sp is not None:
                if math.hypot(cur[0] - sp.first[0], cur[1] - sp.first[1]) > 0:
                    sp.segs.append(Line(cur, sp.first))
                sp.closed = True
                cur = sp.first
                sp = None
        else:
            raise KeyError(op)
    return subs


def currentpoint(items):
    subs = interpret(items)
    if not subs:
        return None
    s = subs[-1]
    return s.first if s.closed else s.cur()


class Poly:
    "densely sampled subpath"
    def __init__(self, segs, start, closed):
        pts = [np.array([start], float)]
        for s in segs:
            n = s.n()
            pts.append(s.eval(np.linspace(0, 1, n))[1:] if n > 2 else s.eval([1.0]))
        self.pts = np.concatenate(pts)
        d = np.diff(self.pts, axis=0)
        self.cum = np.concatenate([[0], np.cumsum(np.hypot(d[:, 0], d[:, 1]))])
        self.len = self.cum[-1]
        self.closed = closed

    def at(self, s):
        "points at relative arc lengths"
        l = np.asarray(s) * self.len
        return np.stack([np.interp(l, self.cum, self.pts[:, 0]), np.interp(l, self.cum, self.pts[:, 1])], axis=1)


def polys(subs):
    return [Poly(s.segs, s.first, s.closed) for s in subs]


REL = np.linspace(0, 1, 97)


def extent(ps):
    if not ps:
        return 1.0
    a = np.concatenate([p.pts for p in ps])
    return float(max(1.0, np.abs(a).max()))


def compare(want, got, tol, what, eps=1e-3, closed=True, fail=None):
    """same sequence of subpaths, traced in the same direction; subpaths shorter than eps are ignored"""
    w = [p for p in want if p.len > eps]
    g = [p for p in got if p.len > eps]
    if len(w) != len(g):
        fail("%s: %d subpaths, expected %d (lengths %r vs %r)", what, len(g), len(w), [p.len for p in g], [p.len for p in w])
    for i, (a, b) in enumerate(zip(w, g)):
        if closed and a.closed != b.closed:
            fail("%s: subpath %d closed=%r, expected %r", what, i, b.closed, a.closed)
        # both length and points
        if abs(a.len - b.len) > 4 * tol + 5e-4 * a.len:
            fail("%s: subpath %d has length %g, expected %g", what, i, b.len, a.len)
        d = np.hypot(*(a.at(REL) - b.at(REL)).T).max()
        if not d <= tol + 4e-4 * a.len:
            k = int(np.argmax(np.hypot(*(a.at(REL) - b.at(REL)).T)))
            fail("%s: subpath %d deviates by %g at relative arc length %g: %r, expected %r", what, i, d, REL[k],
                 tuple(b.at(REL)[k]), tuple(a.at(REL)[k]))


def from_normpath(np_):
    "segments of a normpath by its items' coordinates"
    res = []
    for nsp in np_.normsubpaths:
        segs = []
        first = None
        for it in nsp.normsubpathitems:
            if hasattr(it, "x3_pt"):
                s = Cubic((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt), (it.x2_pt, it.y2_pt), (it.x3_pt, it.y3_pt))
            else:
                s = Line((it.x0_pt, it.y0_pt), (it.x1_pt, it.y1_pt))
            if first is None:
                first = s.start()
            segs.append(s)
        if segs:
            sp = Subpath(first)
            sp.segs = segs
            sp.closed = nsp.closed
            res.append(sp)
    return res


# building the pyx path

def build(items, form="pt", unit=None):
    from pyx import path
    NAMES = {"M": "moveto", "L": "lineto", "C": "curveto", "m": "rmoveto", "l": "rlineto", "c": "rcurveto",
             "arc": "arc", "arcn": "arcn", "arct": "arct"}
    out = []
    for it in items:
        op, a = it[0], it[1:]
        if op == "Z":
            out.append(path.closepath())
        elif op == "ml":
            out.append(path.multilineto_pt([tuple(p) for p in a[0]]))
        elif op == "mc":
            out.append(path.multicurveto_pt([tuple(p) for p in a[0]]))
        elif form == "pt":
            out.append(getattr(path, NAMES[op] + "_pt")(*a))
        else:
            k = 3 if op in ("arc", "arcn") else len(a)
            b = [conv(v, form) for v in a[:k]] + list(a[k:])
            out.append(getattr(path, NAMES[op])(*b))
    return path.path(*out)


def conv(v, form):
    from pyx import unit
    if form == "cm":
        return v * 2.54 / 72        # plain number in cm
    if form == "t_pt":
        return v * unit.t_pt
    if form == "inch":
        return v / 72 * unit.inch
    if form == "mm":
        return v * 25.4 / 72 * unit.t_mm
    raise KeyError(form)


# strategies

def items_strategy(maxlen=8, arct=True, multi=True, span=100, arcs=True, minlen=1, subpaths=True, rel=True, first=None, nice=True):
    from hypothesis import strategies as st
    from .gen import real
    grid = st.integers(-int(span / 10), int(span / 10)).map(lambda i: i * 10)
    co = st.one_of(grid, grid, real(-span, span, 1), real(-span, span, 3)) if nice else st.one_of(real(-span, span, 1), real(-span, span, 3))
    dl = st.one_of(st.integers(-5, 5).map(lambda i: i * 10), real(-span / 2, span / 2, 2))
    ang = st.one_of(st.integers(-8, 8).map(lambda i: i * 45), st.integers(-360, 360), real(-360, 360, 1))
    rad = st.one_of(st.integers(1, 5).map(lambda i: i * 10), real(0.5, span / 2, 1))
    arcs_ = st.tuples(st.sampled_from(["arc", "arcn"]), co, co, rad, ang, ang)
    mv = st.tuples(st.just("M"), co, co)
    drawing = [st.tuples(st.just("L"), co, co)] * 2 + [st.tuples(st.just("C"), co, co, co, co, co, co)] * 2
    if rel:
        drawing += [st.tuples(st.just("l"), dl, dl), st.tuples(st.just("c"), dl, dl, dl, dl, dl, dl)]
    if arcs:
        drawing.append(arcs_)
    if arcs and arct:
        drawing.append(st.tuples(st.just("arct"), co, co, co, co, rad))
    if multi:
        drawing += [st.tuples(st.just("ml"), st.lists(st.tuples(co, co), max_size=3)),
                    st.tuples(st.just("mc"), st.lists(st.tuples(co, co, co, co, co, co), max_size=2))]
    other = [st.tuples(st.just("Z"))]
    if subpaths:
        other.append(mv)
        if rel:
            other.append(st.tuples(st.just("m"), dl, dl))
    step = st.one_of(st.one_of(*drawing), st.one_of(*drawing), st.one_of(*(drawing + other)))
    firsts = st.one_of(mv, mv, arcs_) if arcs else mv

    return st.tuples(firsts, st.lists(step, min_size=minlen, max_size=maxlen), mv).map(lambda t: normalise([t[0]] + t[1], t[2], subpaths))


def normalise(items, spare, subpaths=True):
    """make the sequence valid: after closepath only moveto/arc/arcn; no ill-conditioned arct or arc"""
    out = []
    for it in items:
        it = list(it)
        op = it[0]
        if op in ("arc", "arcn"):
            d = (it[5] - it[4]) if op == "arc" else (it[4] - it[5])
            if d < 0 and d % 360 == 0:
                it[5] += 37             # the reference manual leaves this one to the reader
            elif d >= 720:              # PLRM: more than one turn; only the traced points are specified usefully
                it[5] += (d - 700) * (-1 if op == "arc" else 1)
        if out and out[-1][0] == "Z":
            if op == "Z":
                continue
            if op not in ("M", "arc", "arcn"):
                if not subpaths:
                    break
                out.append(["M", spare[1], spare[2]])
        if op == "Z" and interpret(out)[-1].length() < 0.5:
            continue                    # documented: too short to be closed
        if op == "arct":
            p0 = currentpoint(out)
            p1, p2, r = (it[1], it[2]), (it[3], it[4]), it[5]
            v1 = (p0[0] - p1[0], p0[1] - p1[1])
            v2 = (p2[0] - p1[0], p2[1] - p1[1])
            l1, l2 = math.hypot(*v1), math.hypot(*v2)
            ok = l1 > 1 and l2 > 1
            if ok:
                cr = (v1[0] * v2[1] - v1[1] * v2[0]) / l1 / l2
                dot = (v1[0] * v2[0] + v1[1] * v2[1]) / l1 / l2
                if cr == 0:
                    ok = dot < 0        # straight on; turning back is undefined
                else:
                    inner = math.atan2(abs(cr), dot)
                    ok = inner < math.pi - 0.01 and inner > 0.05 and r / math.tan(inner / 2) < 2000
            if not ok:
                it = ["L", p1[0], p1[1]]
        out.append(it)
    return out


def solid(items, eps=0.5):
    "an equivalent item list in absolute coordinates without subpaths shorter than eps and segments shorter than 0.02"
    out = []
    for sp in interpret(items):
        if sp.length() < eps:
            continue
        segs = [s for s in sp.segs]
        x, y = sp.first
        new = []
        for i, s in enumerate(segs):
            if isinstance(s, Line):
                if math.hypot(s.q[0] - x, s.q[1] - y) >= 0.02:
                    if sp.closed and i == len(segs) - 1 and s.q == sp.first:
                        continue
                    new.append(["L", s.q[0], s.q[1]])
                    x, y = s.q
            elif isinstance(s, Cubic):
                if s.length() >= 0.02:
                    new.append(["C"] + [v for p in s.p[1:] for v in p])
                    x, y = s.p[3]
            elif abs(s.a2 - s.a1) > 0.1:
                new.append(["arc" if s.a2 > s.a1 else "arcn", s.x, s.y, s.r, s.a1, s.a2])
                x, y = s.end()
        if not new:
            continue
        part = [["M"] + list(sp.first)] + new + ([["Z"]] if sp.closed else [])
        # the joins opened by dropping segments must not leave new short segments
        chk = interpret(part)
        if len(chk) == 1 and chk[0].length() >= eps and not any(1e-9 < s.length() < 0.01 for s in chk[0].segs):
            out += part
    return out


def solid_strategy(**kw):
    def f(items):
        r = solid(items)
        return r if r else [["M", 0, 0], ["L", 30, 10]]
    return items_strategy(**kw).map(f)


def items_drop_points(items):
    "remove movetos which do not start anything (what a lone point contributes to an extent is not specified)"
    out = []
    for it in items:
        if it[0] == "M" and out and out[-1][0] == "M":
            out.pop()
        if it[0] == "m" and out and out[-1][0] == "M":
            x, y = out.pop()[1:]
            it = ["M", x + it[1], y + it[2]]
        elif it[0] == "m":
            x, y = currentpoint(out)
            it = ["M", x + it[1], y + it[2]]
        if it[0] in ("ml", "mc") and not it[1]:
            continue
        out.append(it)
    if out and out[-1][0] == "M":
        out.pop()
    return out
