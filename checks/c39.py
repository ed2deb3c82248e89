"""C39 connectors: lines, arcs, curves and two lines between boxes"""
import logging, math, os
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import refpath as R, arclen as A
from lib.gen import real
from checks.c38 import hull

PROP = "C39"
RULE = ("two random convex boxes are connected with random parameters; the connector is compared with the line, circle, Bezier curve or triangle following from the parameters, cut at the outlines and shortened by the distances; "
        "non-trivial: the connector leaves the box across an edge which is not hit perpendicularly and is bent or shortened")


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


coord = real(-15, 15, 1)
shape = st.fixed_dictionaries(dict(pts=st.lists(st.tuples(coord, coord), min_size=3, max_size=7).map(hull).filter(bool), w=st.lists(st.integers(0, 8), min_size=7, max_size=7), rect=st.booleans()))
boxes = dict(a=shape, b=shape, shift=st.tuples(real(-90, 90, 1), real(-90, 90, 1)), unit=st.booleans(), d1=st.one_of(st.just(0), st.sampled_from([0, 1, 5, 20, 200]), real(0, 30, 1)), d2=st.one_of(st.just(0), st.sampled_from([0, 1, 5, 20, 200]), real(0, 30, 1)))
opt = lambda s: st.one_of(st.none(), s)
ang = st.one_of(st.sampled_from([0, 45, 90, -90, 30]), real(-170, 170, 0))
line = st.fixed_dictionaries(boxes)
arc = st.fixed_dictionaries(dict(boxes, relangle=opt(ang), rel=opt(st.one_of(st.sampled_from([0.5, -0.5, 0, 1]), real(-1.5, 1.5, 2))), abs=opt(real(-60, 60, 1))))
curve = st.fixed_dictionaries(dict(boxes, r1=opt(ang), r2=opt(ang), a1=opt(ang), a2=opt(ang), rel=opt(real(-1.5, 2, 2)), abs=opt(real(-60, 60, 1))))
two = st.fixed_dictionaries(dict(boxes, u=real(-0.6, 1.6, 2), v=st.one_of(real(0.1, 1.5, 2), real(-1.5, -0.1, 2)), which=st.sampled_from(["12", "1M", "2M", "ab", "1a", "1b", "2a", "2b", "Ma", "Mb"]), abs=st.booleans()))


def build(c, s, shift=(0, 0)):
    from pyx import box
    pts = [(x + shift[0], y + shift[1]) for x, y in s["pts"]]
    if s["rect"]:
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        x, y, w, h = min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys)
        if w < 0.5 or h < 0.5:
            raise Skip("thin")
        f = 0.1 + 0.1 * s["w"][0], 0.1 + 0.1 * s["w"][1]
        return box.rect_pt(x, y, w, h, relcenter=f), [(x, y), (x + w, y), (x + w, y + h), (x, y + h)], (x + f[0] * w, y + f[1] * h)
    w = [v + 0.3 for v, p in zip(s["w"], pts)]
    cen = sum(p[0] * q for p, q in zip(pts, w)) / sum(w), sum(p[1] * q for p, q in zip(pts, w)) / sum(w)
    if inside(pts, np.array([cen]))[0] < 0.2:
        raise Skip("thin")
    return box.polygon_pt(pts, cen), pts, cen


def inside(pts, P):
    "signed distance like function: positive inside of the counterclockwise convex polygon"
    out = np.full(len(P), np.inf)
    for i, a in enumerate(pts):
        b = pts[(i + 1) % len(pts)]
        l = math.hypot(b[0] - a[0], b[1] - a[1])
        out = np.minimum(out, ((b[0] - a[0]) * (P[:, 1] - a[1]) - (b[1] - a[1]) * (P[:, 0] - a[0])) / l)
    return out


def crossings(f, lo, hi):
    "sorted zeros of the function of arrays in [lo, hi]"
    s = np.linspace(lo, hi, 4001)
    v = f(s)
    out = []
    for i in np.nonzero(np.sign(v[:-1]) * np.sign(v[1:]) < 0)[0]:
        a, b, sa = s[i], s[i + 1], v[i] > 0
        for _ in range(40):
            m = 0.5 * (a + b)
            if (f(np.array([m]))[0] > 0) == sa:
                a = m
            else:
                b = m
        out.append(0.5 * (a + b))
    # touching
    d = np.abs(v)
    loc = np.nonzero((d[1:-1] <= d[:-2]) & (d[1:-1] <= d[2:]) & (d[1:-1] < 0.05))[0] + 1
    for i in loc:
        if not any(abs(s[i] - o) <= 2 * (s[1] - s[0]) for o in out):
            raise Skip("touching")
    for a, b in zip(out, out[1:]):
        if b - a < 0.02:
            raise Skip("touching")
    if d[-1] < 1e-3 or (d[0] < 1e-3 and lo == 0):
        raise Skip("touching")
    return out


def overlap(p, q):
    for x, y in ((p, q), (q, p)):
        for i, a in enumerate(x):
            b = x[(i + 1) % len(x)]
            l = math.hypot(b[0] - a[0], b[1] - a[1])
            if max(((b[0] - a[0]) * (z[1] - a[1]) - (b[1] - a[1]) * (z[0] - a[0])) / l for z in y) < -0.1:
                return False
    return True


def setup(c):
    A_, pa, ca = build(c, c["a"])
    B_, pb, cb = build(c, c["b"], c["shift"])
    if overlap(pa, pb):
        raise Skip("overlapping")
    return A_, pa, ca, B_, pb, cb


def judge(c, full, got, pa, pb, ctx, bent):
    "full: points and arc lengths of the connection of the centers"
    G, grid = full
    L = float(grid[-1])
    lo, hi = 0.0, L

    def at(s):
        return np.stack([np.interp(s, grid, G[:, 0]), np.interp(s, grid, G[:, 1])], 1)
    x = crossings(lambda s: inside(pa, at(s)), lo, hi)
    y = crossings(lambda s: inside(pb, at(s)), lo, hi)
    if not x or not y or x[-1] >= y[0] - 0.05:
        raise Skip("goes through the boxes again")
    lo, hi = x[-1], y[0]
    short = False
    if c["d1"]:
        p = at(np.array([lo]))[0]
        z = [s for s in crossings(lambda s: np.hypot(*(at(s) - p).T) - c["d1"], lo, hi)]
        lo = z[-1] if z else lo
        short = True
    if c["d2"]:
        p = at(np.array([hi]))[0]
        z = [s for s in crossings(lambda s: np.hypot(*(at(s) - p).T) - c["d2"], lo, hi)]
        hi = z[0] if z else hi
        short = True
    if hi - lo < 0.05:
        raise Skip("nothing left")
    subs = R.from_normpath(got)
    ensure(len(subs) == 1, "connector consists of %d pieces", len(subs))
    ensure(not subs[0].closed, "connector is closed")
    g = A.Sub(subs[0])
    tol = 2e-2
    for u in np.linspace(0, 1, 21):
        a, b = at(np.array([lo + u * (hi - lo)]))[0], np.array(g.point(u * g.len))
        e = np.hypot(*(a - b))
        ensure(e < tol + 1e-4 * L, "connector: the point %r instead of %r at %g of its length", tuple(b), tuple(a), u)
    ensure(abs(g.len - (hi - lo)) < tol + 1e-4 * L, "connector has the length %g instead of %g", g.len, hi - lo)
    if bent or short:
        ctx.nontrivial()
    ctx.label("short" if short else "plain")


def sub(*segs):
    "dense points and their arc lengths"
    n = 20000 if len(segs) == 1 and isinstance(segs[0], R.Cubic) else 50
    P = np.concatenate([g.eval(np.linspace(0, 1, n)) for g in segs])
    P = P[np.concatenate([[True], np.hypot(*np.diff(P, axis=0).T) > 0])]
    return P, np.concatenate([[0], np.cumsum(np.hypot(*np.diff(P, axis=0).T))])


def conn(c, name, A_, B_, lens=(), **kw):
    from pyx import connector, unit
    kw = {k: v for k, v in kw.items() if v is not None}
    d = [c["d1"], c["d2"]]
    if c["unit"]:
        for k in lens:
            if k in kw:
                kw[k] = kw[k] * unit.t_pt
        d = [v * unit.t_pt for v in d]
        if name == "line" and c["d1"] == c["d2"] == 0:
            return connector.line(A_, B_)
        return getattr(connector, name)(A_, B_, boxdists=d, **kw)
    return getattr(connector, name + "_pt")(A_, B_, boxdists=d, **kw)


def check_line(c, ctx):
    A_, pa, ca, B_, pb, cb = setup(c)
    judge(c, sub(R.Line(ca, cb)), conn(c, "line", A_, B_), pa, pb, ctx, False)


def check_arc(c, ctx):
    A_, pa, ca, B_, pb, cb = setup(c)
    a, b = complex(*ca), complex(*cb)
    d = abs(b - a)
    if c["rel"] is None and c["abs"] is None:
        al = math.radians(45 if c["relangle"] is None else c["relangle"])
    else:
        al = 2 * math.atan(2 * ((c["rel"] or 0) * d + (c["abs"] or 0)) / d)     # the bulge is d/2 tan(angle/2)
    if 0 < abs(al) < 1e-3 or abs(al) > 3.0:
        raise Skip("almost straight or a full circle")
    # the direction turns from +al to -al relative to the line
    if al == 0:
        full = sub(R.Line(ca, cb))
    else:
        r = d / 2 / math.sin(al)
        t = (b - a) / d
        cen = a + r * 1j * t * complex(math.cos(al), math.sin(al)) * -1
        P = [cen + (a - cen) * complex(math.cos(-2 * al * k / 2000), math.sin(-2 * al * k / 2000)) for k in range(2001)]
        assert abs(P[-1] - b) < 1e-6 * (1 + abs(b)), (P[-1], b)
        full = np.array([(p.real, p.imag) for p in P])
        full = full, np.concatenate([[0], np.cumsum(np.hypot(*np.diff(full, axis=0).T))])
    got = conn(c, "arc", A_, B_, lens=["absbulge"], relangle=c["relangle"], relbulge=c["rel"], absbulge=c["abs"])
    judge(c, full, got, pa, pb, ctx, True)
    ctx.label("left" if al > 0 else "right" if al < 0 else "straight")


def check_curve(c, ctx):
    A_, pa, ca, B_, pb, cb = setup(c)
    a, b = complex(*ca), complex(*cb)
    d = abs(b - a)
    ph = math.atan2((b - a).imag, (b - a).real)
    arm = abs((0.39 if c["rel"] is None else c["rel"]) * d + (c["abs"] or 0))
    an = []
    for r, s in ((c["r1"], c["a1"]), (c["r2"], c["a2"])):
        an.append(math.radians(s) if s is not None else ph + math.radians(45 if r is None else r))
    if arm < 1:
        raise Skip("no arms")
    p = a + arm * complex(math.cos(an[0]), math.sin(an[0]))
    q = b - arm * complex(math.cos(an[1]), math.sin(an[1]))
    full = R.Cubic(ca, (p.real, p.imag), (q.real, q.imag), cb)
    v = full.deriv(np.linspace(0, 1, 100))
    if np.hypot(*v.T).min() < 1:
        raise Skip("cusp")
    got = conn(c, "curve", A_, B_, lens=["absbulge"], relangle1=c["r1"], relangle2=c["r2"], absangle1=c["a1"], absangle2=c["a2"], relbulge=c["rel"], absbulge=c["abs"])
    judge(c, sub(full), got, pa, pb, ctx, True)


def tri(a, b, m):
    "lengths of the arms and the interior angles, positive for a corner to the right of the line"
    l1, l2 = abs(m - a), abs(b - m)
    s = -1 if ((b - a).conjugate() * (m - a)).imag > 0 else 1
    w = lambda u, v: s * math.acos(max(-1, min(1, (u * v.conjugate()).real / abs(u) / abs(v))))
    return l1, l2, w(m - a, b - a), w(m - b, a - b), w(a - m, b - m)


def check_two(c, ctx):
    A_, pa, ca, B_, pb, cb = setup(c)
    a, b = complex(*ca), complex(*cb)
    m = a + (b - a) * complex(c["u"], -c["v"])
    l1, l2, w1, w2, wM = tri(a, b, m)
    if min(l1, l2) < 1 or min(abs(math.sin(w)) for w in (w1, w2, wM)) < 0.03:
        raise Skip("flat")
    which = c["which"]
    if (which == "ab" or "M" in which and which[1] in "ab") and w1 < 0:
        raise Skip("corners without a signed direction are to the right")
    kw, lens = {}, []
    for k in which:
        if k == "1":
            if c["abs"]:
                kw["absangle1"] = math.degrees(math.atan2((m - a).imag, (m - a).real))
                kw["relangle1"] = 12.0 if c["u"] > 0 else None
            else:
                kw["relangle1"] = math.degrees(w1)
        elif k == "2":
            if c["abs"] and which == "12":
                kw["absangle2"] = math.degrees(math.atan2((b - m).imag, (b - m).real))
            else:
                kw["relangle2"] = math.degrees(w2)
        elif k == "M":
            kw["relangleM"] = math.degrees(wM)
        elif k == "a":
            kw["length1"] = l1
            lens.append("length1")
        else:
            kw["length2"] = l2
            lens.append("length2")
    got = conn(c, "twolines", A_, B_, lens=lens, **kw)
    # there can be another triangle with a length and the angle at the other side
    cand = [m]
    if which in ("1b", "2a", "Ma", "Mb"):
        cand += others(a, b, which, l1, l2, w1, w2, wM)
    err = None
    for z in cand:
        try:
            if abs(z - a) < 0.5 or abs(z - b) < 0.5:
                raise Skip("flat")
            judge(c, sub(R.Line(ca, (z.real, z.imag)), R.Line((z.real, z.imag), cb)), got, pa, pb, ctx, True)
            break
        except Exception as e:
            if err is None or isinstance(e, Skip):
                err = e
    else:
        raise err
    ctx.label(which)


def others(a, b, which, l1, l2, w1, w2, wM):
    "the other corner with the same length and the same angle opposite to it"
    d = abs(b - a)
    out = []
    t = (b - a) / d

    def ssa(A, B, w):       # side A opposite of w, side B adjacent: both solutions for the third side
        D = A * A - (B * math.sin(w)) ** 2
        return [B * math.cos(w) + s * math.sqrt(max(0, D)) for s in (1, -1) if B * math.cos(w) + s * math.sqrt(max(0, D)) > 0]
    rot = lambda z, w: z * complex(math.cos(w), math.sin(w))
    if which == "1b":
        out = [a + rot(t, -w1) * l for l in ssa(l2, d, w1)]
    elif which == "2a":
        out = [b + rot(-t, w2) * l for l in ssa(l1, d, w2)]
    else:
        for l in ssa(d, l1 if which == "Ma" else l2, wM):
            x, y = (l1, l) if which == "Ma" else (l, l2)
            q = (d * d + x * x - y * y) / (2 * d * x)
            if abs(q) <= 1:
                out.append(a + rot(t, -math.acos(q)) * x)
    return out


SUBS = [Sub("line", line, check_line, quick=700, thorough=20000),
        Sub("arc", arc, check_arc, quick=1000, thorough=30000),
        Sub("curve", curve, check_curve, quick=1000, thorough=30000),
        Sub("twolines", two, check_two, quick=1500, thorough=40000)]
