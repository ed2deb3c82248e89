"""C38 convex boxes: alignment, distances, extents"""
import math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real

PROP = "C38"
RULE = ("random convex polygons and rectangles with a centre inside, transformed, aligned at lines and circles in random directions, tiled, measured against points and other boxes, compared with support functions, "
        "bisection and the separating axis theorem; non-trivial: the direction is not along an axis, or boxes overlap, or the nearest point lies within an edge")


def hull(pts):
    pts = sorted(set(map(tuple, pts)))
    if len(pts) < 3:
        return None

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(p)
        return out[:-1]
    h = half(pts) + half(pts[::-1])
    return h if len(h) > 2 else None


coord = st.one_of(st.integers(-20, 20), real(-20, 20, 2))
polygon = st.tuples(st.just("poly"), st.lists(st.tuples(coord, coord), min_size=3, max_size=9).map(hull).filter(bool),
                    st.one_of(st.none(), st.lists(st.integers(0, 8), min_size=9, max_size=9)), st.integers(0, 8)).map(list)
rect = st.tuples(st.just("rect"), coord, coord, st.one_of(st.integers(1, 20), real(0.5, 20, 2)), st.one_of(st.integers(1, 20), real(0.5, 20, 2)),
                 st.one_of(st.none(), st.tuples(st.sampled_from([0, 0.5, 1, 0.25]), st.sampled_from([0, 0.5, 1, 0.75]))), st.one_of(st.none(), st.tuples(real(0, 0.4, 2), real(0, 0.4, 2)))).map(list)
direction = st.one_of(st.tuples(st.sampled_from([0, 0, 1, -1, 3, -0.2]), st.sampled_from([0, 1, -1, 2, 0.5])).filter(any), st.tuples(real(-3, 3, 2), real(-3, 3, 2)).filter(lambda d: math.hypot(*d) > 0.05))
tr = st.tuples(st.sampled_from(["translate", "rotate", "scale", "mirror2", "slant"]), real(-10, 10, 1), real(-10, 10, 1)).map(list)
box = st.fixed_dictionaries(dict(box=st.one_of(polygon, rect), trafos=st.lists(tr, max_size=2), rel=st.booleans(), keep=st.booleans(), unit=st.sampled_from(["pt", "cm", "u"])))
align = st.fixed_dictionaries(dict(boxes=st.lists(box, min_size=1, max_size=4), a=st.one_of(st.sampled_from([1, 5, 0.5]), real(0.01, 30, 2)), line=st.booleans(), dir=direction, op=st.sampled_from(["vector", "align", "equal", "tile", "extent"]), pt=st.booleans()))
dist = st.fixed_dictionaries(dict(a=box, b=box, shift=st.tuples(coord, coord), point=st.tuples(real(-60, 60, 1), real(-60, 60, 1))))


def trafos(l):
    from pyx import trafo
    out = []
    for k, x, y in l:
        if k == "translate": out.append(trafo.translate_pt(x, y))
        elif k == "rotate": out.append(trafo.rotate(17 * x))
        elif k == "scale": out.append(trafo.scale(0.2 + abs(x) / 5, 0.2 + abs(y) / 5))
        elif k == "slant": out.append(trafo.trafo_pt(matrix=((1, x / 10), (0, 1))))
        else: out.append(trafo.mirror(20 * x) * trafo.mirror(7 * y))
    return out


def app(m, p):
    (a, b), (c, d) = m.matrix
    return a * p[0] + b * p[1] + m.vector[0], c * p[0] + d * p[1] + m.vector[1]


def build(b):
    "(real box, corners, center)"
    from pyx import box, unit
    f = dict(pt=1, cm=72 / 2.54, u=72 / 2.54)[b["unit"]]

    def lu(v):
        return v * unit.t_cm if b["unit"] == "cm" else v
    s = b["box"]
    if s[0] == "poly":
        pts = [tuple(p) for p in s[1]]
        if s[2] is None:
            cen = None
            mc = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
        elif s[3] == 0:
            cen = mc = pts[s[2][0] % len(pts)]
        else:
            w = [v + 0.1 for v, p in zip(s[2], pts)]
            mc = (sum(p[0] * x for p, x in zip(pts, w)) / sum(w), sum(p[1] * x for p, x in zip(pts, w)) / sum(w))
            cen = mc
        if b["unit"] == "pt":
            r = box.polygon_pt(list(pts), cen)
        else:
            r = box.polygon([(lu(x), lu(y)) for x, y in pts], None if cen is None else (lu(cen[0]), lu(cen[1])))
    else:
        _, x, y, w, h, rc, ac = s
        pts = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        kw = {}
        mc = (x, y)
        if rc:
            kw["relcenter"] = tuple(rc)
            mc = (x + rc[0] * w, y + rc[1] * h)
        if ac and not (rc and max(rc) > 0.5):
            kw["abscenter_pt" if b["unit"] == "pt" else "abscenter"] = tuple(ac) if b["unit"] == "pt" else tuple(lu(v) for v in ac)
            mc = (mc[0] + ac[0], mc[1] + ac[1])
            if mc[0] > x + w or mc[1] > y + h:
                raise Skip()
        r = box.rect_pt(x, y, w, h, **kw) if b["unit"] == "pt" else box.rect(lu(x), lu(y), lu(w), lu(h), **kw)
    pts = [(p[0] * f, p[1] * f) for p in pts]
    mc = (mc[0] * f, mc[1] * f)
    ts = trafos(b["trafos"])
    if ts:
        if b["rel"]:
            r.reltransform(*ts)
            q = [(p[0] - mc[0], p[1] - mc[1]) for p in pts]
            z = (0, 0)
            for t in ts:
                q = [app(t, p) for p in q]
                z = app(t, z)
            pts = [(p[0] + mc[0], p[1] + mc[1]) for p in q]
            mc = (z[0] + mc[0], z[1] + mc[1])
        else:
            keep = b["keep"] and all(t[0] == "rotate" for t in b["trafos"]) and False
            r.transform(*ts, keep_anchor=keep)
            for t in ts:
                pts = [app(t, p) for p in pts]
                mc = app(t, mc)
    return r, pts, mc


def area(pts):
    return sum(pts[i - 1][0] * pts[i][1] - pts[i - 1][1] * pts[i][0] for i in range(len(pts))) / 2


def width(pts, d):
    v = [p[0] * d[0] + p[1] * d[1] for p in pts]
    return max(v) - min(v)


def fat(pts):
    "not too thin, no tiny edges, counterclockwise"
    if area(pts) <= 1e-3:
        return False
    for i in range(len(pts)):
        e = (pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1])
        n = math.hypot(*e)
        if n < 1e-2 or width(pts, (e[1] / n, -e[0] / n)) < 1e-2:
            return False
    return True


def segdist(p, a, b):
    e = (b[0] - a[0], b[1] - a[1])
    t = ((p[0] - a[0]) * e[0] + (p[1] - a[1]) * e[1]) / (e[0] ** 2 + e[1] ** 2)
    t = min(1, max(0, t))
    return math.hypot(p[0] - a[0] - t * e[0], p[1] - a[1] - t * e[1]), 0 < t < 1


def inside(p, pts):
    "signed: positive inside"
    m = None
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        v = ((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / math.hypot(b[0] - a[0], b[1] - a[1])
        m = v if m is None else min(m, v)
    return m


def pdist(p, pts):
    return min(segdist(p, pts[i - 1], pts[i])[0] for i in range(len(pts)))


def lam_line(pts, c, a, d):
    return a - min((p[0] - c[0]) * d[0] + (p[1] - c[1]) * d[1] for p in pts)


def lam_circle(pts, c, a, d):
    def f(l):
        q = (c[0] - l * d[0], c[1] - l * d[1])
        return 0 if inside(q, pts) >= 0 else pdist(q, pts)
    lo, hi = 0, 1
    while f(hi) < a:
        hi *= 2
        if hi > 1e7:
            raise Skip()
    for i in range(80):
        m = (lo + hi) / 2
        if f(m) < a:
            lo = m
        else:
            hi = m
    return hi


def corners(r, pts, c, what, tol):
    for p, q in zip(r.corners, pts):
        close(p, q, tol, "%s: corner", what)
    ensure(len(r.corners) == len(pts), "%s: corners lost", what)
    close(r.center, c, tol, "%s: center", what)


def runalign(case, ctx):
    from pyx import box, unit
    bs = [build(b) for b in case["boxes"]]
    for r, pts, c in bs:
        if not fat(pts) or max(abs(v) for p in pts for v in p) > 1e4:
            raise Skip()
    scale = max(abs(v) for r, pts, c in bs for p in pts for v in p) + case["a"] + 1
    tol = 1e-7 * scale
    for r, pts, c in bs:
        corners(r, pts, c, "transformed", tol)
    dx, dy = case["dir"]
    n = math.hypot(dx, dy)
    d = (dx / n, dy / n)
    for r, pts, c in bs:
        # edges almost along or across the direction: the tests in the code have absolute limits
        for i in range(len(pts)):
            e = (pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1])
            x = abs(e[0] * d[0] + e[1] * d[1])
            y = abs(e[0] * d[1] - e[1] * d[0])
            if 1e-13 * scale < x < 1e-6 * scale or 1e-13 * scale < y < 1e-6 * scale:
                raise Skip()
    a = case["a"]
    lam = lam_line if case["line"] else lam_circle
    name = "linealign" if case["line"] else "circlealign"
    arg = (a, dx, dy) if case["pt"] else (a * unit.t_pt, dx, dy)
    suffix = "_pt" if case["pt"] else ""
    op = case["op"]
    ctx.nontrivial(dx * dy != 0)
    ctx.label(op)
    if op in ("vector", "align"):
        for r, pts, c in bs:
            l = lam(pts, c, a, d)
            if op == "vector":
                v = getattr(r, name + "vector" + suffix)(*arg)
                if not case["pt"]:
                    v = tuple(unit.topt(x) for x in v)
                close(v, (l * d[0], l * d[1]), 1e-5 * scale, "%svector%s(%g, %g, %g)", name, suffix, a, dx, dy)
                corners(r, pts, c, "after asking for the vector", tol)
            else:
                ret = getattr(r, name + suffix)(*arg)
                ensure(ret is r, "align does not return the box")
                corners(r, [(p[0] + l * d[0], p[1] + l * d[1]) for p in pts], (c[0] + l * d[0], c[1] + l * d[1]), name, 1e-5 * scale)
    elif op == "equal":
        l = max(lam(pts, c, a, d) for r, pts, c in bs)
        getattr(box, name + "equal" + suffix)([r for r, pts, c in bs], *arg)
        for r, pts, c in bs:
            corners(r, [(p[0] + l * d[0], p[1] + l * d[1]) for p in pts], (c[0] + l * d[0], c[1] + l * d[1]), name + "equal", 1e-5 * scale)
    elif op == "tile":
        delta = max(width(pts, d) for r, pts, c in bs) + a
        ret = getattr(box, "tile" + suffix)([r for r, pts, c in bs], *arg)
        close(unit.topt(ret) if not case["pt"] else ret, delta, 1e-6 * scale, "distance of tiles")
        for i, (r, pts, c) in enumerate(bs):
            l = i * delta
            corners(r, [(p[0] + l * d[0], p[1] + l * d[1]) for p in pts], (c[0] + l * d[0], c[1] + l * d[1]), "tile", 1e-5 * scale)
    else:
        for r, pts, c in bs:
            e = getattr(r, "extent" + suffix)(dx, dy)
            close(e if case["pt"] else unit.topt(e), width(pts, d), 1e-6 * scale, "extent(%g, %g)", dx, dy)
            corners(r, pts, c, "after asking for the extent", tol)


def rundist(case, ctx):
    from pyx import box, unit, trafo
    a, pa, ca = build(case["a"])
    b, pb, cb = build(case["b"])
    if not fat(pa) or not fat(pb) or max(abs(v) for p in pa + pb for v in p) > 1e4:
        raise Skip()
    s = case["shift"]
    b.transform(trafo.translate_pt(*s), keep_anchor=True)
    pb = [(p[0] + s[0], p[1] + s[1]) for p in pb]
    corners(b, pb, cb, "moved keeping the anchor", 1e-7 * 1e3)
    scale = max(abs(v) for p in pa + pb for v in p) + 1
    for r, pts in ((a, pa), (b, pb)):
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        bb = r.bbox()
        close(bb.lrtuple() if hasattr(bb, "lrtuple") else bb.highrestuple_pt(), (min(xs), min(ys), max(xs), max(ys)), 1e-7 * scale, "bbox")
        q = case["point"]
        if inside(q, pts) < -1e-9:
            close(r.pointdistance_pt(*q), pdist(q, pts), 1e-7 * scale, "pointdistance_pt%r", tuple(q))
            close(unit.topt(r.pointdistance(q[0] * unit.t_pt, q[1] * unit.t_pt)), pdist(q, pts), 1e-7 * scale, "pointdistance%r", tuple(q))
        pp = r.path()
        np_ = pp.normpath()
        ensure(len(np_.normsubpaths) == 1 and np_.normsubpaths[0].closed, "path of the box not closed")
        close(np_.arclen_pt(), sum(math.hypot(pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1]) for i in range(len(pts))), 1e-4 * scale, "length of the path of the box")
        for it, p in zip(np_.normsubpaths[0].normsubpathitems, pts):
            close(it.atbegin_pt(), p, 1e-7 * scale, "corner of the path of the box")
        pc = r.path(centerradius=3 * unit.t_pt).bbox()
        want = (min(min(xs), r.center[0] - 3), min(min(ys), r.center[1] - 3), max(max(xs), r.center[0] + 3), max(max(ys), r.center[1] + 3))
        close(pc.highrestuple_pt(), want, 1e-2, "path with the centre marked")
    # separating axes
    gap = None
    for pts in (pa, pb):
        for i in range(len(pts)):
            e = (pts[i][0] - pts[i - 1][0], pts[i][1] - pts[i - 1][1])
            n = math.hypot(*e)
            nrm = (e[1] / n, -e[0] / n)      # outward
            o = pb if pts is pa else pa
            g = min(p[0] * nrm[0] + p[1] * nrm[1] for p in o) - max(p[0] * nrm[0] + p[1] * nrm[1] for p in pts)
            gap = g if gap is None else max(gap, g)
    if abs(gap) < 1e-6 * scale:
        raise Skip()
    exp = min(segdist(p, pts[i - 1], pts[i]) for ps, pts in ((pa, pb), (pb, pa)) for p in ps for i in range(len(pts)))
    for x, y in ((a, b), (b, a)):
        try:
            got = x.boxdistance(y)
        except box.BoxCrossError:
            ensure(gap < 0, "boxes with a gap of %g reported as overlapping", gap)
            ctx.label("overlap")
            ctx.nontrivial()
            continue
        ensure(gap > 0, "overlapping boxes (by %g) at a distance of %g", -gap, unit.topt(got))
        close(unit.topt(got), exp[0], 1e-7 * scale, "boxdistance")
        ctx.nontrivial(exp[1])
        ctx.label("apart")


SUBS = [
    Sub("align", align, runalign, quick=6000, thorough=150000),
    Sub("distance", dist, rundist, quick=4000, thorough=100000),
]
