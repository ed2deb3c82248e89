"""C08 intersections of paths are sound and complete"""
import math
from fractions import Fraction as F
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close, Skip
from lib import refpath as R, arclen as A
from lib.gen import real, PT

PROP = "C08"
RULE = ("pairs of random paths; polygons on a grid (so that vertices, touching points and overlaps happen) are intersected "
        "exactly in rational arithmetic, curves and arcs by dense bracketing and Newton iteration, keeping pairs whose "
        "crossings are all transversal; non-trivial: at least one intersection expected")

# ---- polygons, exact

co = st.integers(-4, 4)
pt = st.tuples(co, co)
poly = st.tuples(st.lists(pt, min_size=2, max_size=5), st.booleans())
polys = st.lists(poly, min_size=1, max_size=2)
pcase = st.fixed_dictionaries(dict(a=polys, b=polys, scale=st.sampled_from([1, 10, 0.25]), rot=st.sampled_from([0, 0, 0, 1]), obj=st.sampled_from(["path", "normpath"])))


def clean(ps):
    out = []
    for pts, closed in ps:
        q = []
        for p in pts:
            if not q or q[-1] != tuple(p):
                q.append(tuple(p))
        if closed and len(q) > 2 and q[0] != q[-1]:
            q.append(q[0])
        elif closed and len(q) > 2:
            pass
        elif closed:
            closed = False
        if len(q) >= 2:
            if closed and len(q) < 4:
                closed = False
            out.append((q, closed))
    return out


def cross(ax, ay, bx, by):
    return ax * by - ay * bx


def segx(p, q, r, s):
    "exact intersection of two segments: list of points, or 'overlap'"
    d1 = (q[0] - p[0], q[1] - p[1])
    d2 = (s[0] - r[0], s[1] - r[1])
    det = cross(*d1, *d2)
    w = (r[0] - p[0], r[1] - p[1])
    if det == 0:
        if cross(*w, *d1) != 0:
            return []
        n = d1[0] ** 2 + d1[1] ** 2
        t0 = F(w[0] * d1[0] + w[1] * d1[1], n)
        t1 = t0 + F(d2[0] * d1[0] + d2[1] * d1[1], n)
        lo, hi = max(F(0), min(t0, t1)), min(F(1), max(t0, t1))
        if lo > hi:
            return []
        if lo == hi:
            return [(p[0] + lo * d1[0], p[1] + lo * d1[1])]
        return "overlap"
    t = F(cross(*w, *d2), det)
    u = F(cross(*w, *d1), det)
    if 0 <= t <= 1 and 0 <= u <= 1:
        return [(p[0] + t * d1[0], p[1] + t * d1[1])]
    return []


def topath(ps, f):
    from pyx import path
    items = []
    for pts, closed in ps:
        pts = [f(p) for p in pts]
        items.append(path.moveto_pt(*pts[0]))
        for p in (pts[1:-1] if closed else pts[1:]):
            items.append(path.lineto_pt(*p))
        if closed:
            items.append(path.closepath())
    return path.path(*items)


def check_polygons(c, ctx):
    a, b = clean(c["a"]), clean(c["b"])
    if not a or not b:
        raise Skip
    k = c["scale"]
    if c["rot"]:
        f = lambda p: (k * (0.8 * p[0] - 0.6 * p[1]), k * (0.6 * p[0] + 0.8 * p[1]))
    else:
        f = lambda p: (k * p[0], k * p[1])
    pa, pb = topath(a, f), topath(b, f)
    if c["obj"] == "normpath":
        pa, pb = pa.normpath(), pb.normpath()
    overlap = False
    expected = []          # (subpath a, subpath b, set of exact points with positions)
    for ia, (qa, ca) in enumerate(a):
        for ib, (qb, cb) in enumerate(b):
            found = set()
            for i in range(len(qa) - 1):
                for j in range(len(qb) - 1):
                    r = segx(qa[i], qa[i + 1], qb[j], qb[j + 1])
                    if r == "overlap":
                        overlap = True
                        continue
                    for x in r:
                        found.add((pos(qa, ca, i, x), pos(qb, cb, j, x), x))
            expected.append((ia, ib, found))
    ra, rb = pa.intersect(pb)
    ensure(len(ra) == len(rb), "intersect returns %d and %d parameters", len(ra), len(rb))
    ga, gb = pa.at_pt(ra) if ra else [], pb.at_pt(rb) if rb else []
    tol = 1e-4
    for x, y in zip(ga, gb):
        ensure(math.hypot(x[0] - y[0], x[1] - y[1]) < tol, "intersection at different points %r and %r", x, y)
    # soundness is the equality of the points; completeness:
    for ia, ib, found in expected:
        for sa, sb, x in found:
            w = f((float(x[0]), float(x[1])))
            n = sum(1 for g in ga if math.hypot(g[0] - w[0], g[1] - w[1]) < tol)
            ensure(n > 0, "the intersection at %r (pt) is missing; found %r", w, ga)
    if not overlap:
        total = sum(len(fd) for _, _, fd in expected)
        ensure(len(ra) == total, "%d intersections found, there are %d: %r vs %r", len(ra), total, sorted(ga),
               sorted(f((float(x[0]), float(x[1]))) for _, _, fd in expected for _, _, x in fd))
        # positions along the paths
        la = lengths(a, k)
        lb = lengths(b, k)
        want = sorted((la[ia] + k * sa, lb[ib] + k * sb) for ia, ib, fd in expected for sa, sb, _ in fd)
        na, nb = pa.normpath(), pb.normpath()
        got = sorted(zip(pa.paramtoarclen_pt(ra), pb.paramtoarclen_pt(rb))) if ra else []
        Ta, Tb = la[-1], lb[-1]
        used = [False] * len(want)
        for g in got:
            for i, w in enumerate(want):
                if not used[i] and same(g[0], w[0], a, la, k) and same(g[1], w[1], b, lb, k):
                    used[i] = True
                    break
            else:
                fail("intersection at arc lengths %r is not among the expected ones %r", g, want)
    ctx.nontrivial(any(fd for _, _, fd in expected))
    ctx.label("overlap", overlap)
    ctx.label("vertex", any(float(s).is_integer() and False for _, _, fd in expected for s, _, _ in fd))


def plen(q):
    return [0.0] + list(np.cumsum([math.hypot(q[i + 1][0] - q[i][0], q[i + 1][1] - q[i][1]) for i in range(len(q) - 1)]))


def pos(q, closed, i, x):
    "position along the polygon (rounded so that shared vertices coincide; the end of a closed one is its beginning)"
    l = plen(q)
    s = l[i] + math.hypot(float(x[0]) - q[i][0], float(x[1]) - q[i][1])
    if closed and abs(s - l[-1]) < 1e-7:
        s = 0.0
    return round(s, 6) + 0.0


def lengths(ps, k):
    out = [0.0]
    for q, c in ps:
        out.append(out[-1] + k * plen(q)[-1])
    return out


def same(g, w, ps, l, k):
    if abs(g - w) < 1e-3 * max(1, k):
        return True
    # beginning and end of a closed subpath are the same point
    for i, (q, c) in enumerate(ps):
        if c and abs(w - l[i]) < 1e-3 and abs(g - l[i + 1]) < 1e-3 * max(1, k):
            return True
    return False


# ---- curves

kw = dict(maxlen=3, arct=False, span=60, subpaths=True)
ccase = st.fixed_dictionaries(dict(a=R.solid_strategy(nice=False, **kw), b=R.solid_strategy(nice=False, **kw),
                                   obj=st.sampled_from(["path", "normpath"])))


def poly_seg(s):
    if isinstance(s, R.Line):
        return np.array([0.0, 1.0])
    return np.linspace(0, 1, 161)


def deriv(s, t):
    if isinstance(s, R.Arc):
        a = math.radians(s.a1 + (s.a2 - s.a1) * t)
        f = math.radians(s.a2 - s.a1) * s.r
        return np.array([-math.sin(a) * f, math.cos(a) * f])
    return s.deriv([t])[0]


def newton(sa, sb, t, u):
    for _ in range(30):
        d = sa.eval([t])[0] - sb.eval([u])[0]
        da, db = deriv(sa, t), deriv(sb, u)
        det = -da[0] * db[1] + da[1] * db[0]
        if abs(det) < 1e-9:
            return None
        # da*dt - db*du = -d
        dt = (d[0] * db[1] - d[1] * db[0]) / det
        du = (d[0] * da[1] - d[1] * da[0]) / det
        t, u = t + dt, u + du
        if abs(dt) < 1e-13 and abs(du) < 1e-13:
            break
        if not (-1 < t < 2 and -1 < u < 2):
            return None
    return t, u


def robust(subs_a, subs_b):
    "all crossings as (subpath indices, s positions, point); Skip when the situation is not transversal"
    ext = max(R.extent(R.polys(subs_a)), R.extent(R.polys(subs_b)))
    out = []
    for ia, A_ in enumerate(subs_a):
        for ib, B_ in enumerate(subs_b):
            for i, sa in enumerate(A_.segs):
                ta = poly_seg(sa)
                pa = sa.eval(ta)
                for j, sb in enumerate(B_.segs):
                    tb = poly_seg(sb)
                    pb = sb.eval(tb)
                    hits = []
                    if (pa.min(0) > pb.max(0) + 1).any() or (pb.min(0) > pa.max(0) + 1).any():
                        continue
                    p, r = pa[:-1, None, :], np.diff(pa, axis=0)[:, None, :]
                    q, s = pb[None, :-1, :], np.diff(pb, axis=0)[None, :, :]
                    det = r[..., 0] * s[..., 1] - r[..., 1] * s[..., 0]
                    w = q - p
                    with np.errstate(all="ignore"):
                        t = (w[..., 0] * s[..., 1] - w[..., 1] * s[..., 0]) / det
                        u = (w[..., 0] * r[..., 1] - w[..., 1] * r[..., 0]) / det
                    # generous brackets
                    cand = np.argwhere((t > -0.6) & (t < 1.6) & (u > -0.6) & (u < 1.6))
                    for x, y in cand:
                        t0 = ta[x] + (ta[x + 1] - ta[x]) * min(max(t[x, y], 0), 1)
                        u0 = tb[y] + (tb[y + 1] - tb[y]) * min(max(u[x, y], 0), 1)
                        n = newton(sa, sb, t0, u0)
                        if n is None:
                            raise Skip
                        if -1e-3 < n[0] < 1 + 1e-3 and -1e-3 < n[1] < 1 + 1e-3:
                            if not any(abs(n[0] - h[0]) < 1e-7 and abs(n[1] - h[1]) < 1e-7 for h in hits):
                                hits.append(n)
                    for tt, uu in hits:
                        da, db = deriv(sa, tt), deriv(sb, uu)
                        la, lb = np.hypot(*da), np.hypot(*db)
                        if la < 1 or lb < 1:
                            raise Skip
                        sin = abs(da[0] * db[1] - da[1] * db[0]) / la / lb
                        if sin < 0.05:
                            raise Skip
                        if min(abs(tt), abs(1 - tt)) * la < 0.02 or min(abs(uu), abs(1 - uu)) * lb < 0.02:
                            raise Skip        # at an end point of a segment
                        if 0 < tt < 1 and 0 < uu < 1:
                            out.append((ia, ib, i, j, tt, uu, tuple(sa.eval([tt])[0])))
                    near_miss(sa, sb, pa, pb, ta, tb, hits)
    return out


def near_miss(sa, sb, pa, pb, ta, tb, hits):
    "skip when the segments come closer than 0.05 at a place which is not a crossing"
    # end points close to the other segment
    for p, s, ps in ((pa[0], sb, pb), (pa[-1], sb, pb), (pb[0], sa, pa), (pb[-1], sa, pa)):
        a, b = ps[:-1], ps[1:]
        v = b - a
        n = (v ** 2).sum(1)
        n[n == 0] = 1
        t = np.clip(((p - a) * v).sum(1) / n, 0, 1)
        dd = np.hypot(*((a + v * t[:, None]) - p).T).min()
        if dd < 0.03:
            raise Skip


def distinct(pa, pb, ra, rb, ga, n):
    """two crossings which agree on both paths within the accuracy of the calculation are one: a crossing is located along
    the paths within epsilon over the sine of the angle only (at least 0.05 here), which matters where two pieces of an arc meet"""
    if len(ra) <= n:
        return ra, rb, ga
    la, lb = pa.paramtoarclen_pt(ra), pb.paramtoarclen_pt(rb)
    keep = []
    for i in range(len(ra)):
        if not any(abs(la[i] - la[j]) < 4e-4 and abs(lb[i] - lb[j]) < 4e-4 for j in keep):
            keep.append(i)
    return [ra[i] for i in keep], [rb[i] for i in keep], [ga[i] for i in keep]


def check_curves(c, ctx):
    sa, sb = R.interpret(c["a"]), R.interpret(c["b"])
    for subs in (sa, sb):
        for sp in subs:
            for s in sp.segs:
                if isinstance(s, R.Cubic):
                    sd = np.hypot(*s.deriv(np.linspace(0, 1, 300)).T)
                    if sd.min() < 0.5:
                        raise Skip
    want = robust(sa, sb)
    pa, pb = R.build(c["a"]), R.build(c["b"])
    if c["obj"] == "normpath":
        pa, pb = pa.normpath(), pb.normpath()
    ra, rb = pa.intersect(pb)
    ga, gb = (pa.at_pt(ra), pb.at_pt(rb)) if ra else ([], [])
    arcs = any(isinstance(s, R.Arc) for subs in (sa, sb) for sp in subs for s in sp.segs)
    tol = 5e-3 if arcs else 1e-3
    for x, y in zip(ga, gb):
        ensure(math.hypot(x[0] - y[0], x[1] - y[1]) < 1e-3, "intersection at different points %r and %r", x, y)
    ra, rb, ga = distinct(pa, pb, ra, rb, ga, len(want))
    ensure(len(ra) == len(want), "%d intersections found, there are %d: %r vs %r", len(ra), len(want), ga, [w[-1] for w in want])
    left = list(want)
    la, lb = A.Path(sa), A.Path(sb)
    for x, qa, qb in zip(ga, ra, rb):
        m = [w for w in left if math.hypot(w[-1][0] - x[0], w[-1][1] - x[1]) < 20 * tol]
        ensure(m, "no intersection expected at %r; expected at %r", x, [w[-1] for w in want])
        w = min(m, key=lambda w: math.hypot(w[-1][0] - x[0], w[-1][1] - x[1]))
        left.remove(w)
    # both orders agree
    rb2, ra2 = pb.intersect(pa)
    if len(ra2) != len(ra):
        rb2, ra2, _ = distinct(pb, pa, rb2, ra2, rb2, len(ra))
    ensure(len(ra2) == len(ra), "%d intersections in one order, %d in the other", len(ra), len(ra2))
    # the parameters of a subpath come sorted
    if len(sa) == 1 and len(sb) == 1:
        ensure(all(ra[i] <= ra[i + 1] for i in range(len(ra) - 1)), "parameters of the first path are not sorted")
    ctx.nontrivial(bool(want))
    ctx.label("intersections", bool(want))
    ctx.label("several", len(want) > 2)


# shapes for which the answer is known: circle and line

lcase = st.tuples(st.integers(-50, 50), st.integers(-50, 50), real(2, 40, 1), real(0, 360, 1), real(-0.97, 0.97, 3), st.booleans())


def check_circle(c, ctx):
    from pyx import path
    x, y, r, phi, d, rev = c
    if abs(d) < 1e-9:
        d = 0.01
    ph = math.radians(phi)
    n = (math.cos(ph), math.sin(ph))
    t = (-n[1], n[0])
    m = (x + n[0] * d * r, y + n[1] * d * r)
    h = r * math.sqrt(1 - d * d)
    want = [(m[0] + s * h * t[0], m[1] + s * h * t[1]) for s in (-1, 1)]
    line = path.line_pt(m[0] - 2 * r * t[0], m[1] - 2 * r * t[1], m[0] + 2 * r * t[0], m[1] + 2 * r * t[1])
    circ = path.circle_pt(x, y, r)
    a, b = (line, circ) if rev else (circ, line)
    pa, pb = a.intersect(b)
    if any(abs(math.atan2(w[1] - y, w[0] - x)) < 1e-3 for w in want):
        raise Skip
    ensure(len(pa) == 2, "a line through a circle has %d intersections", len(pa))
    ga = sorted(a.at_pt(pa))
    gb = sorted(b.at_pt(pb))
    for g in (ga, gb):
        for p in g:
            ensure(min(math.hypot(p[0] - w[0], p[1] - w[1]) for w in want) < 2e-3 + 1e-4 * r, "intersection %r, expected %r", p, want)
    ctx.nontrivial()


# crossings of pieces hardly longer than epsilon are found within epsilon

ecase = st.fixed_dictionaries(dict(x=st.integers(-200, 200), y=st.integers(-200, 200), eps=st.sampled_from([1, 0.1, 1e-2, 1e-4]),
                                   la=real(1.1, 4, 2), lb=real(1.1, 4, 2), phi=st.integers(0, 359), da=st.integers(50, 130),
                                   ca=st.booleans(), cb=st.booleans(), fa=real(0.2, 0.8, 2), fb=real(0.2, 0.8, 2)))


def check_short(c, ctx):
    from pyx import path
    e = c["eps"]

    def mk(l, phi, f, curve):
        ph = math.radians(phi)
        d = (math.cos(ph) * l * e, math.sin(ph) * l * e)
        p = [(c["x"] + d[0] * (t - f), c["y"] + d[1] * (t - f)) for t in (0, 1 / 3, 2 / 3, 1)]
        if curve:
            b = 0.02
            p[1] = (p[1][0] - b * d[1], p[1][1] + b * d[0])
            p[2] = (p[2][0] + b * d[1], p[2][1] - b * d[0])
            return path.path(path.moveto_pt(*p[0]), path.curveto_pt(*(p[1] + p[2] + p[3]))).normpath(epsilon=e)
        return path.path(path.moveto_pt(*p[0]), path.lineto_pt(*p[3])).normpath(epsilon=e)
    a, b = mk(c["la"], c["phi"], c["fa"], c["ca"]), mk(c["lb"], c["phi"] + c["da"], c["fb"], c["cb"])
    ra, rb = a.intersect(b)
    ensure(len(ra) >= 1, "two paths crossing at (%r, %r) do not intersect", c["x"], c["y"])
    for r, p in ((ra, a), (rb, b)):
        for q in p.at_pt(r):
            ensure(math.hypot(q[0] - c["x"], q[1] - c["y"]) < 2.5 * e, "intersection at %r", q)
    ctx.nontrivial(c["ca"] or c["cb"])


SUBS = [Sub("short", ecase, check_short, quick=1600, thorough=20000),
        Sub("polygons", pcase, check_polygons, quick=3000, thorough=80000),
        Sub("curves", ccase, check_curves, quick=4000, thorough=80000),
        Sub("circle_line", lcase, check_circle, quick=400, thorough=6000)]
