"""C36 deformers: smoothed, cycloid, parallel, linesmoothed"""
import io, logging, math, os
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import refpath as R, arclen as A
from lib.gen import real

PROP = "C36"
RULE = ("random open and closed paths of lines, curves and arcs are deformed; smoothed corners, cycloids, parallels and linesmoothed curves are compared with distances, tangents, curvatures and points "
        "calculated from the original path by arc length; non-trivial: a corner is replaced, a spring is wound, an offset has a corner, or a curve passes through at least three points")


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


def sample(subs, step=0.25):
    out = []
    for s in subs:
        for g in s.segs:
            n = min(max(3, int(g.length() / step) + 1), 2000)
            out.append(g.eval(np.linspace(0, 1, n)))
    return np.concatenate(out) if out else np.zeros((0, 2))


def seglens(pts):
    "start points and vectors of a polyline for exact distances"
    return pts[:-1], pts[1:] - pts[:-1]


def dist(P, subs):
    "distances of points from subpaths, accurate (polylines of dense samples)"
    P = np.asarray(P, float)
    best = np.full(len(P), np.inf)
    for s in subs:
        for g in s.segs:
            n = 2 if isinstance(g, R.Line) else 120
            q = g.eval(np.linspace(0, 1, n))
            a, v = q[:-1], q[1:] - q[:-1]
            l2 = (v ** 2).sum(1)
            d = P[:, None, :] - a[None]
            t = np.clip((d * v[None]).sum(2) / np.where(l2 > 0, l2, 1), 0, 1)
            e = d - t[..., None] * v[None]
            best = np.minimum(best, np.sqrt((e ** 2).sum(2)).min(1))
    return best


def joints(sp, closed):
    "pairs (tangent, curvature) before and after each junction of a subpath"
    segs = [s for s in sp.segs if s.length() > 1e-9]
    n = len(segs)
    for i in range(n if closed else n - 1):
        yield i, segs[i], segs[(i + 1) % n]


def kinks(sp, closed):
    "largest turning angle at a junction"
    worst = 0
    for i, a, b in joints(sp, closed):
        u, v = A.dirs(a, 1.0)[0], A.dirs(b, 0.0)[0]
        ang = abs(math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]))
        worst = max(worst, ang)
    return worst


def dedgy(subs):
    for sp in subs:
        for s in sp.segs:
            l = s.length()
            if 0 < l < 0.05:
                raise Skip("short segment")
            if isinstance(s, R.Cubic):
                v = s.deriv(np.linspace(0, 1, 60))
                n = np.hypot(*v.T)
                if n.min() < 0.05 * n.max():
                    raise Skip("cusp")


# ---- smoothed --------------------------------------------------------------------------------------

smooth = st.fixed_dictionaries(dict(
    items=st.one_of(R.items_strategy(maxlen=6, arct=False, rel=False, minlen=2, first="M"), R.items_strategy(maxlen=8, arct=False, rel=False, arcs=False, minlen=3, first="M")),
    r=st.one_of(st.sampled_from([1, 5, 10, 30]), real(0.2, 60, 2)), soft=st.sampled_from([1, 0.1, 0.5, 1.4, 1]), obey=st.sampled_from([0, 0, 1]), thr=st.sampled_from([0.01, 0, 0.01, 0.2]),
    unit=st.booleans(), viacall=st.booleans()))


def cornerpieces(sub, thr):
    "the items which remain when short ones are skipped"
    return [t for t in sub.tabs if t.len > thr]


def check_smooth(case, ctx):
    from pyx import deformer, unit
    r = case["r"]
    items = case["items"]
    subs = R.interpret(items)
    dedgy(subs)
    ref = A.Path(subs)
    if len(ref.subs) != len(subs) or not subs:
        raise Skip("point subpath")
    length = r * unit.t_pt if case["unit"] else r * 2.54 / 72
    kw = dict(radius=length, softness=case["soft"], obeycurv=case["obey"], relskipthres=case["thr"])
    d = deformer.smoothed(1)(**kw) if case["viacall"] else deformer.cornersmoothed(**kw)
    p = R.build(items)
    np0 = p.normpath()
    before = [str(i) for i in np0]
    got = d.deform(p)
    ensure(before == [str(i) for i in p.normpath()], "smoothed changed the original path")
    want = R.from_normpath(np0)
    g = R.from_normpath(got)
    if any(kinks(w, w.closed) > 3.1 for w in want):
        raise Skip("hairpin")
    for w in want:
        e = w.segs[-1].end()
        if not w.closed and math.hypot(e[0] - w.first[0], e[1] - w.first[1]) < 0.5:
            raise Skip("ends at its beginning without being closed")
    ensure(len(g) == len(want), "smoothed: %d subpaths instead of %d", len(g), len(want))
    thr = max(1e-5, case["thr"] * r)
    for wi, (w, s) in enumerate(zip(want, g)):
        ensure(w.closed == s.closed, "smoothed subpath closed=%r, originally %r", s.closed, w.closed)
        sub = A.Sub(w)
        if any(abs(t.len - thr) < 0.02 * thr + 2e-3 for t in sub.tabs):
            raise Skip("borderline item length")
        for t in sub.tabs:      # controls are adjusted for the larger epsilon
            if isinstance(t.seg, R.Cubic):
                q = t.seg.p
                if min(math.hypot(q[0][0] - q[3][0], q[0][1] - q[3][1]), 3 * math.hypot(q[0][0] - q[1][0], q[0][1] - q[1][1]), 3 * math.hypot(q[2][0] - q[3][0], q[2][1] - q[3][1])) < 1.1 * thr or np.hypot(*t.seg.deriv(np.linspace(0, 1, 200)).T).min() < 1.3 * thr:
                    raise Skip("short arms")
        if any(t.len < thr for t in sub.tabs):
            continue        # items are skipped: only closedness
        n = len(sub.tabs)
        lens = [t.len for t in sub.tabs]
        corners = [float(c) for c in (sub.cum[:-1] if w.closed else sub.cum[1:-1])]
        L = sub.len
        gs = A.Sub(s)
        if not w.closed:
            for nm, a, b in (("begin", sub.point(0), gs.point(0)), ("end", sub.point(L), gs.point(gs.len))):
                ensure(math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-3, "smoothed: %s moved from %r to %r", nm, a, b)
        # parts away from the corners are kept
        keep = []
        for i, l in enumerate(lens):
            c0 = float(sub.cum[i])
            lo = min(r, 0.5 * l) if (w.closed or i) else 0
            hi = max(0.5 * l, l - r) if (w.closed or i < n - 1) else l
            if not w.closed and n > 1:
                if i == 0:
                    hi = max(0, l - r)
                if i == n - 1:
                    lo = min(r, l)
            keep.append((c0 + lo, c0 + hi))
        P = [sub.point(a + (b - a) * u) for a, b in keep for u in (0, 0.2, 0.5, 0.8, 1)]
        dd = dist(P, [s])
        ensure(dd.max() < 5e-3 + 1e-4 * L, "smoothed: the point %r, farther than the radius from all corners, is missing (off by %g)", P[int(dd.argmax())], dd.max())
        if corners:
            ctx.nontrivial()
        # the tangents are continuous
        k = kinks(s, s.closed)
        if any(0 < q.length() < 2e-3 for q in s.segs) or any(isinstance(q, R.Cubic) and min(math.hypot(q.p[1][0] - q.p[0][0], q.p[1][1] - q.p[0][1]), math.hypot(q.p[3][0] - q.p[2][0], q.p[3][1] - q.p[2][1])) < 1e-3 for q in s.segs if hasattr(q, "p") and len(q.p) == 4):
            ctx.label("tiny")
        else:
            ensure(k < 0.03, "smoothed: a corner of %g degrees remains", math.degrees(k))
        # between lines: stays within the corner, ends with the curvature 0
        for c, i in zip(corners, range(len(corners))):
            a, b = (sub.tabs[i - 1], sub.tabs[i]) if w.closed else (sub.tabs[i], sub.tabs[i + 1])
            if isinstance(a.seg, R.Line) and isinstance(b.seg, R.Line):
                ctx.label("lines")
        # everything is near the original path
        Q = sample([s], 1.0)
        dd = dist(Q, [w])
        lin = all(isinstance(t.seg, R.Line) for t in sub.tabs)
        if lin:
            ensure(dd.max() < r + 1e-2, "smoothed: farther than the radius from the original path: %g", dd.max())


# ---- two lines: the shape of a corner ---------------------------------------------------------------

corner = st.fixed_dictionaries(dict(l1=real(2, 50, 1), l2=real(2, 50, 1), a=real(0, 360, 1), turn=real(5, 165, 1), left=st.booleans(), r=real(0.5, 60, 1), soft=st.sampled_from([0.05, 0.3, 1, 1, 1.4]), x=real(-50, 50, 1), y=real(-50, 50, 1)))


def check_corner(case, ctx):
    from pyx import deformer, unit, path
    a = math.radians(case["a"])
    b = a + math.radians(case["turn"]) * (1 if case["left"] else -1)
    C = np.array([case["x"], case["y"]])
    u, v = np.array([math.cos(a), math.sin(a)]), np.array([math.cos(b), math.sin(b)])
    p0, p1 = C - case["l1"] * u, C + case["l2"] * v
    got = deformer.smoothed(case["r"] * unit.t_pt, softness=case["soft"]).deform(path.path(path.moveto_pt(*p0), path.lineto_pt(*C), path.lineto_pt(*p1)))
    g = R.from_normpath(got)
    ensure(len(g) == 1, "smoothed corner: %d subpaths", len(g))
    curves = [s for s in g[0].segs if isinstance(s, R.Cubic)]
    ensure(len(curves) == 2, "smoothed corner between two lines: %d curves instead of 2", len(curves))
    r1, r2 = min(case["r"], case["l1"]), min(case["r"], case["l2"])
    for nm, p, q in (("begin", curves[0].start(), C - r1 * u), ("end", curves[1].end(), C + r2 * v)):
        ensure(np.hypot(*(np.array(p) - q)) < 1e-3, "smoothed corner: %s at %r instead of %r", nm, p, q)
    t1, _, k1 = A.dirs(curves[0], 0.0)
    t2, _, k2 = A.dirs(curves[1], 1.0)
    ensure(np.hypot(*(t1 - u)) < 1e-3 and np.hypot(*(t2 - v)) < 1e-3, "smoothed corner: tangents %r and %r instead of %r and %r", t1, t2, u, v)
    ensure(abs(k1) * r1 < 1e-3 and abs(k2) * r2 < 1e-3, "smoothed corner: curvatures %g and %g at the ends instead of 0", k1, k2)
    m1, _, c1 = A.dirs(curves[0], 1.0)
    m2, _, c2 = A.dirs(curves[1], 0.0)
    ensure(np.hypot(*(m1 - m2)) < 1e-3, "smoothed corner: tangents %r and %r in the middle", m1, m2)
    if abs(r1 - r2) < 1e-9:
        ensure(abs(c1 - c2) <= 1e-3 * (abs(c1) + abs(c2)) + 1e-6, "smoothed corner: curvatures %r and %r in the middle", c1, c2)
        # symmetric about the bisector
        w = (v - u) / np.hypot(*(v - u))
        e = np.array(curves[0].end()) - C
        ensure(abs(e[0] * w[1] - e[1] * w[0]) < 1e-3, "smoothed corner: not symmetric")
    # inside of the triangle and turning to one side only
    P = np.concatenate([c.eval(np.linspace(0, 1, 60)) for c in curves]) - C
    det = u[0] * v[1] - u[1] * v[0]
    x = (P[:, 0] * v[1] - P[:, 1] * v[0]) / det      # P = x u + y v
    y = (u[0] * P[:, 1] - u[1] * P[:, 0]) / det
    ensure(x.max() < 1e-3 * case["r"] + 1e-6 and y.min() > -1e-3 * case["r"] - 1e-6, "smoothed corner leaves the corner")
    ctx.nontrivial()
    ctx.label("equal" if abs(r1 - r2) < 1e-9 else "unequal")


# ---- a corner at a curve: one curve, which takes its tangents and curvatures from the path ----------

bend = st.fixed_dictionaries(dict(l=real(8, 60, 1), bow=st.one_of(st.just(None), real(-0.8, 0.8, 2), real(-0.8, 0.8, 2)), skew=real(-0.3, 0.3, 2)))
curvecorner = st.fixed_dictionaries(dict(a=bend, b=bend, dir=real(0, 360, 1), turn=real(-165, 165, 1), r=real(1, 30, 1), obey=st.booleans()))


def check_curvecorner(case, ctx):
    from pyx import deformer, unit, path
    if case["a"]["bow"] is None and case["b"]["bow"] is None:
        raise Skip("two lines")
    t0 = math.radians(case["dir"])
    t1 = t0 + math.radians(case["turn"])
    segs = []
    O = np.zeros(2)
    for b, t, back in ((case["a"], t0, True), (case["b"], t1, False)):
        u = np.array([math.cos(t), math.sin(t)])
        n = np.array([-u[1], u[0]])
        l = b["l"]
        P = O - l * u if back else O
        Q = O if back else O + l * u
        if b["bow"] is None:
            segs.append(R.Line(tuple(P), tuple(Q)))
        else:
            h = b["bow"] * l * n
            segs.append(R.Cubic(tuple(P), tuple(P + (0.33 + b["skew"]) * l * u + h), tuple(P + 0.67 * l * u + h * (1 - b["skew"])), tuple(Q)))
    els = [path.moveto_pt(*segs[0].start())]
    for s in segs:
        els.append(path.lineto_pt(*s.end()) if isinstance(s, R.Line) else path.curveto_pt(*s.p[1], *s.p[2], *s.p[3]))
    got = deformer.smoothed(case["r"] * unit.t_pt, obeycurv=case["obey"]).deform(path.path(*els))
    g = R.from_normpath(got)
    ensure(len(g) == 1 and len(g[0].segs) in (1, 2, 3), "smoothed corner: %d subpaths", len(g))
    tabs = [A.SegTab(s) for s in segs]
    r1, r2 = min(case["r"], tabs[0].len), min(case["r"], tabs[1].len)
    ends = []
    for s, t, x in ((segs[0], tabs[0], tabs[0].len - r1), (segs[1], tabs[1], r2)):
        u = t.t(x)
        ends.append((np.array(s.eval(np.array([u]))[0]),) + tuple(A.dirs(s, u)))
    (pA, tA, _, kA), (pB, tB, _, kB) = ends
    mids = [s for s in g[0].segs if isinstance(s, R.Cubic) and np.hypot(*(np.array(s.start()) - pA)) < 2e-3 and np.hypot(*(np.array(s.end()) - pB)) < 2e-3]
    ensure(len(mids) == 1, "smoothed corner: no curve from %r to %r", pA, pB)
    c = mids[0]
    P = [np.array(q) for q in c.p]
    a, d = np.hypot(*(P[1] - P[0])), np.hypot(*(P[3] - P[2]))
    AB = P[3] - P[0]
    if np.hypot(*AB) < 0.5:
        raise Skip("the gap is too small")
    T = tA[0] * tB[1] - tA[1] * tB[0]
    XA = tA[0] * AB[1] - tA[1] * AB[0]
    XB = tB[0] * AB[1] - tB[1] * AB[0]
    if abs(T) < 0.05 or abs(XA) < 0.02 * np.hypot(*AB) or abs(XB) < 0.02 * np.hypot(*AB):
        raise Skip("nearly parallel")
    ensure((P[1] - P[0]) @ tA > a * (1 - 1e-4) and (P[3] - P[2]) @ tB > d * (1 - 1e-4), "smoothed corner: the tangents are not those of the path (arms %g, %g)", a, d)
    if not case["obey"]:
        kA, kB = math.copysign(abs(kA), XA), math.copysign(abs(kB), -XB)
    # 1.5 kA a^2 = XA - d T and 1.5 kB d^2 = -XB - a T
    sols = []
    for sub in np.roots(np.polyadd(np.polyadd(1.5 * kB * np.polymul([-1.5 * kA / T, 0, XA / T], [-1.5 * kA / T, 0, XA / T]), [T, 0]), [XB])):
        if abs(sub.imag) < 1e-9 * (1 + abs(sub)):
            x = sub.real
            y = (XA - 1.5 * kA * x * x) / T
            sols.append((float(x), float(y)))
    l = np.hypot(*AB)
    pos = [s for s in sols if s[0] > 0.02 * l and s[1] > 0.02 * l]
    edge = [s for s in sols if s not in pos and s[0] > -0.02 * l and s[1] > -0.02 * l]
    # the intersection of the tangents
    lim = XB / -T, XA / T       # distances along the tangents
    if not pos or edge:
        ctx.label("no curve with the given curvatures")
        return
    small = [s for s in pos if s[0] < 4 * l and s[1] < 4 * l]
    if not small:
        raise Skip("far control points")
    for x, y in pos:
        if not case["obey"] and lim[0] > 0 and lim[1] > 0:
            x, y = min(x, lim[0]), min(y, lim[1])
        if abs(a - x) < 2e-2 * x + 2e-3 and abs(d - y) < 2e-2 * y + 2e-3:
            break
    else:
        fail("smoothed corner (obeycurv=%r): arms %g and %g, where the curvatures %g and %g need %r", case["obey"], a, d, kA, kB, pos)
    ctx.nontrivial()
    ctx.label("obey" if case["obey"] else "released")


# ---- a curve for a given geometry of the ends -------------------------------------------------------

endgeo = st.fixed_dictionaries(dict(pts=st.lists(st.tuples(real(-30, 30, 1), real(-30, 30, 1)), min_size=4, max_size=4)))


def check_endgeo(case, ctx):
    from pyx import deformer
    c = R.Cubic(*[tuple(p) for p in case["pts"]])
    P = [np.array(p, float) for p in case["pts"]]
    a, d = np.hypot(*(P[1] - P[0])), np.hypot(*(P[3] - P[2]))
    if a < 0.5 or d < 0.5 or np.hypot(*(P[3] - P[0])) < 1:
        raise Skip("degenerate")
    tA, _, kA = A.dirs(c, 0.0)
    tD, _, kD = A.dirs(c, 1.0)
    T = tA[0] * tD[1] - tA[1] * tD[0]
    E = tA[0] * (P[3] - P[0])[1] - tA[1] * (P[3] - P[0])[0]
    D = tD[0] * (P[3] - P[0])[1] - tD[1] * (P[3] - P[0])[0]
    if abs(T) < 0.05 or abs(kA) < 1e-4 or abs(kD) < 1e-4:
        raise Skip("nearly parallel or straight")
    sols = deformer.controldists_from_endgeometry_pt(tuple(P[0]), tuple(P[3]), tuple(tA), tuple(tD), kA, kD)
    for x, y in sols:
        if x <= 1e-6 or y <= 1e-6:
            continue
        q = R.Cubic(tuple(P[0]), tuple(P[0] + x * tA), tuple(P[3] - y * tD), tuple(P[3]))
        u, _, k1 = A.dirs(q, 0.0)
        v, _, k2 = A.dirs(q, 1.0)
        for nm, k, w, l in (("begin", k1, kA, x), ("end", k2, kD, y)):
            ensure(abs(k - w) * l ** 2 < 1e-2 * (1 + abs(w) * l ** 2), "control distances %g, %g: curvature %g at the %s instead of %g", x, y, k, nm, w)
    if not any(abs(x - a) < 1e-2 * a + 1e-3 and abs(y - d) < 1e-2 * d + 1e-3 for x, y in sols):
        # the roots may be (almost) double
        s = sorted((abs(x - a) + abs(y - d)) for x, y in sols)
        J = 1 / max(1e-9, abs(9 * kA * kD * a * d / 4 * 4 - T * T))
        if J * T * T > 50:
            raise Skip("ill-conditioned")
        ensure(any(x > 1e-6 and y > 1e-6 for x, y in sols), "no control distances found for a curve with %g, %g: %r", a, d, sols)
        fail("control distances %g, %g of the curve not among %r", a, d, sols)
    ctx.nontrivial()
    ctx.label("%d solutions" % len(sols))


# ---- cycloid ---------------------------------------------------------------------------------------

cyc = st.fixed_dictionaries(dict(
    items=R.items_strategy(maxlen=4, arct=False, rel=False, minlen=2, first="M", span=150), r=real(0.5, 15, 1), n=st.integers(1, 15), first=st.sampled_from([0, 1, 5, 20, 40]), last=st.sampled_from([0, 1, 5, 20, 40]),
    per=st.integers(2, 5), sign=st.sampled_from([1, -1]), turn=st.sampled_from([0, 0, 45, 30, 60, 75]), viacall=st.booleans()))


def check_cycloid(case, ctx):
    from pyx import deformer, unit
    items = case["items"]
    subs = R.interpret(items)
    dedgy(subs)
    if len(A.Path(subs).subs) != len(subs) or not subs:
        raise Skip("point subpath")
    if any(s.closed for s in subs):
        raise Skip("closed")
    p = R.build(items)
    kw = dict(radius=case["r"] * unit.t_pt, halfloops=case["n"], skipfirst=case["first"] * unit.t_pt, skiplast=case["last"] * unit.t_pt, curvesperhloop=case["per"], sign=case["sign"], turnangle=case["turn"])
    d = deformer.cycloid()(**kw) if case["viacall"] else deformer.cycloid(**kw)
    got = d.deform(p)
    want = R.from_normpath(p.normpath())
    g = R.from_normpath(got)
    ensure(len(g) == len(want), "cycloid: %d subpaths instead of %d", len(g), len(want))
    r, tu = case["r"], math.radians(case["turn"])
    for w, s in zip(want, g):
        sub = A.Sub(w)
        need = case["first"] + case["last"] + 2 * r * math.sin(tu)
        if abs(sub.len - need) < 0.05:
            raise Skip("borderline")
        if sub.len <= need:
            R.compare([R.Poly(w.segs, w.first, w.closed)], [R.Poly(s.segs, s.first, s.closed)], 1e-3, "cycloid on a short path", fail=fail)
            ctx.label("short")
            continue
        gs = A.Sub(s)
        nc = case["n"] * case["per"]
        tail = s.segs
        # undeformed ends
        for l, nm, f in ((case["first"], "first", lambda x: x), (case["last"], "last", None)):
            if l:
                for q in np.linspace(0, 1, 6):
                    a = sub.point(q * l) if f else sub.point(sub.len - q * l)
                    b = gs.point(q * l) if f else gs.point(gs.len - q * l)
                    ensure(math.hypot(a[0] - b[0], a[1] - b[1]) < 5e-3 + 1e-4 * sub.len, "cycloid: point %r of the %s undeformed part is at %r", a, nm, b)
        # the points on the spring
        Dphi = math.pi / case["per"]
        span = sub.len - need
        pts = []
        for i in range(nc + 1):
            phi = i * Dphi
            z = case["first"] + r * math.sin(tu) - math.sin(tu) * r * math.cos(phi) + span * phi / (case["n"] * math.pi)
            z = min(max(z, 0), sub.len)
            if sub.knotdist(z) < 1e-3 and not z < 1e-3 and not abs(z - sub.len) < 1e-3:
                seg, t, k = None, None, None
            seg, t, k = sub.locate(z)
            tx = A.dirs(seg, t)[0]
            y = r * math.sin(phi) * case["sign"]
            pt = np.array(sub.point(z)) + y * np.array([-tx[1], tx[0]])
            near = sub.knotdist(z) < 2e-2 and 1e-2 < z < sub.len - 1e-2
            pts.append((pt, near))
        segs = s.segs
        # the curves of the spring are consecutive; find the first one
        k = 0
        if case["first"]:
            acc = 0
            while k < len(segs) and acc + segs[k].length() <= z0(case, r, tu) + 5e-3 + 1e-4 * sub.len:
                acc += segs[k].length()
                k += 1
        ensure(len(segs) >= k + nc, "cycloid: %d curves after the first %d, expected at least %d", len(segs) - k, k, nc)
        knots = [segs[k].start()] + [x.end() for x in segs[k:k + nc]]
        for i, ((pt, near), q) in enumerate(zip(pts, knots)):
            if near:
                continue
            ensure(np.hypot(*(pt - np.array(q))) < 2e-2 + 2e-4 * sub.len, "cycloid: point %d of %d is %r instead of %r", i, nc, q, tuple(pt))
        # tangents are continuous along the spring
        if nc > 1:
            for x, y in zip(segs[k:k + nc], segs[k + 1:k + nc]):
                u, v = A.dirs(x, 1.0), A.dirs(y, 0.0)
                if u[1] > 1e-3 and v[1] > 1e-3:
                    ensure(np.hypot(*(u[0] - v[0])) < 1e-2, "cycloid: a corner in the spring at %r", x.end())
        ctx.nontrivial()
        ctx.label("skips" if case["first"] and case["last"] else "noskip")


def z0(case, r, tu):
    return case["first"]


# ---- parallel --------------------------------------------------------------------------------------

polygon = st.fixed_dictionaries(dict(pts=st.lists(st.tuples(real(-60, 60, 1), real(-60, 60, 1)), min_size=2, max_size=6), closed=st.booleans(), kind=st.sampled_from(["poly", "star", "regular", "walk", "walk"]),
                                     n=st.integers(3, 7), d=st.tuples(st.sampled_from([1, -1]), real(0.5, 12, 2)), sharp=st.booleans(), inter=st.sampled_from([True, True, False]), viacall=st.booleans(), reverse=st.booleans()))


def simple(S, closed):
    def o(p, q, r): return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    for i in range(len(S)):
        for j in range(i):
            a, b, c, d = *S[i], *S[j]
            if o(a, b, c) * o(a, b, d) < 0 and o(c, d, a) * o(c, d, b) < 0:
                return False
    return True


def polypts(case):
    pts = [tuple(p) for p in case["pts"]]
    closed = case["closed"]
    if case["kind"] == "star" and len(pts) > 2:
        c = np.mean(pts, axis=0)
        pts = sorted(pts, key=lambda p: math.atan2(p[1] - c[1], p[0] - c[0]))
        closed = True
    elif case["kind"] == "regular":
        x, y = pts[0]
        R0 = 8 + abs(pts[1][0]) / 2
        ph = pts[1][1]
        pts = [(x + R0 * math.cos(ph + 2 * math.pi * i / case["n"]), y + R0 * math.sin(ph + 2 * math.pi * i / case["n"])) for i in range(case["n"])]
        closed = True
    elif case["kind"] == "walk":
        x = y = 0.0
        a = 0.0
        out = [(0.0, 0.0)]
        for p in pts:
            a += max(-2.6, min(2.6, p[0] / 30))
            l = 12 + abs(p[1])
            x, y = x + l * math.cos(a), y + l * math.sin(a)
            out.append((x, y))
        pts = out
        closed = closed and len(pts) > 3
    if closed and len(pts) < 3:
        closed = False
    return pts[::-1] if case["reverse"] else pts, closed


def segs_of(pts, closed):
    n = len(pts)
    return [(np.array(pts[i]), np.array(pts[(i + 1) % n])) for i in range(n if closed else n - 1)]


def feature(S, closed, d):
    "the pieces are long enough and far enough from each other for the distance"
    m = len(S)
    need = [0] * m
    for i in range(m if closed else m - 1):
        j = (i + 1) % m
        u, v = S[i][1] - S[i][0], S[j][1] - S[j][0]
        al = math.atan2(u[0] * v[1] - u[1] * v[0], u @ v)
        if abs(al) > 2.8:
            return False
        if al * d > 0:
            l = abs(d) * math.tan(abs(al) / 2)
            need[i] += l
            need[j] += l
    for i in range(m):
        if np.hypot(*(S[i][1] - S[i][0])) < need[i] * 1.05 + 0.3:
            return False
        for j in range(i):
            if j == i - 1 or (closed and i == m - 1 and j == 0):
                continue
            P = np.array([S[i][0] + (S[i][1] - S[i][0]) * u for u in np.linspace(0, 1, 40)])
            Q = R.Subpath(tuple(S[j][0]))
            Q.segs = [R.Line(tuple(S[j][0]), tuple(S[j][1]))]
            if dist(P, [Q]).min() < 2.05 * abs(d) + 0.3:
                return False
    return True


def reach(S, closed, d):
    "longest distance of a sharp outer corner from the path"
    m = len(S)
    w = abs(d)
    for i in range(m if closed else m - 1):
        u, v = S[i][1] - S[i][0], S[(i + 1) % m][1] - S[(i + 1) % m][0]
        al = math.atan2(u[0] * v[1] - u[1] * v[0], u @ v)
        if al * d < 0:
            w = max(w, abs(d) / math.cos(al / 2))
    return w


def check_polygon(case, ctx):
    from pyx import deformer, unit, path
    pts, closed = polypts(case)
    S = segs_of(pts, closed)
    d = case["d"][0] * case["d"][1]
    if any(np.hypot(*(b - a)) < 0.3 for a, b in S) or not simple(S, closed):
        raise Skip("short or crossing")
    if not feature(S, closed, d):
        raise Skip("too narrow")
    p = path.path(path.moveto_pt(*pts[0]), *[path.lineto_pt(*q) for q in pts[1:]], *([path.closepath()] if closed else []))
    kw = dict(distance=d * unit.t_pt, sharpoutercorners=case["sharp"], dointersection=case["inter"])
    D = deformer.parallel(0.1)(**kw) if case["viacall"] else deformer.parallel(**kw)
    got = D.deform(p)
    w = R.from_normpath(p.normpath())
    g = R.from_normpath(got)
    ensure(g, "parallel is empty")
    G = sample(g, 0.5)
    dd = dist(G, w)
    tol = 2e-2 + 2e-3 * abs(d)
    far = reach(S, closed, d) if case["sharp"] else abs(d)
    ensure(dd.max() < far + tol, "parallel in the distance %g: the point %r has the distance %g", d, tuple(G[dd.argmax()]), dd.max())
    if case["inter"]:
        ensure(dd.min() > abs(d) - tol, "parallel in the distance %g: the point %r has the distance %g", d, tuple(G[dd.argmin()]), dd.min())
        ensure(len(g) == 1, "parallel consists of %d pieces", len(g))
        ensure(g[0].closed == closed, "parallel closed=%r, original %r", g[0].closed, closed)
    # the offset of every point is there, unless other parts of the path are closer
    off, at = [], []
    corner = False
    for i, (a, b) in enumerate(S):
        t = (b - a) / np.hypot(*(b - a))
        n = np.array([-t[1], t[0]]) * d
        off += [a + (b - a) * u + n for u in np.linspace(0, 1, 25)]
    off = np.array(off)
    if case["inter"]:
        off = off[dist(off, w) > abs(d) - 1e-3 * abs(d)]
    cov = dist(off, g)
    ensure(cov.max() < tol, "parallel in the distance %g: the point %r is missing", d, tuple(off[cov.argmax()]))
    # outer corners
    m = len(S)
    for i in range(m if closed else m - 1):
        u, v = S[i][1] - S[i][0], S[(i + 1) % m][1] - S[(i + 1) % m][0]
        al = math.atan2(u[0] * v[1] - u[1] * v[0], u @ v)
        if al * d < -0.02 * abs(d):
            corner = True
            a0 = math.atan2(u[1], u[0]) + math.copysign(math.pi / 2, d) + al / 2
            l = abs(d) / math.cos(al / 2) if case["sharp"] else abs(d)
            q = S[i][1] + l * np.array([math.cos(a0), math.sin(a0)])
            e = dist([q], g)[0]
            ensure(e < tol, "parallel in the distance %g: %s corner %r is missing (off by %g)", d, "sharp" if case["sharp"] else "round", tuple(q), e)
        elif abs(al) > 0.02:
            corner = True
    # traced in the direction of the original path
    if case["inter"]:
        s = A.Sub(g[0])
        first = np.array(s.point(0))
        if not closed:
            t = (S[0][1] - S[0][0]) / np.hypot(*(S[0][1] - S[0][0]))
            e = S[0][0] + d * np.array([-t[1], t[0]])
            ensure(np.hypot(*(e - first)) < tol, "parallel begins at %r instead of %r", tuple(first), tuple(e))
            t = (S[-1][1] - S[-1][0]) / np.hypot(*(S[-1][1] - S[-1][0]))
            e = S[-1][1] + d * np.array([-t[1], t[0]])
            last = np.array(s.point(s.len))
            ensure(np.hypot(*(e - last)) < tol, "parallel ends at %r instead of %r", tuple(last), tuple(e))
        else:
            def area(P):
                return float((P[:, 0] * np.roll(P[:, 1], -1) - P[:, 1] * np.roll(P[:, 0], -1)).sum())
            ensure(area(G) * area(np.array(pts)) > 0, "parallel of a closed path runs backwards")
    if corner:
        ctx.nontrivial()
    for l in ("sharp" if case["sharp"] else "round", "closed" if closed else "open", "inter" if case["inter"] else "plain"):
        ctx.label(l)


# curves

curved = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["curve", "curve", "circle", "arc", "ellipse", "chain"]), pts=st.lists(st.tuples(real(-60, 60, 1), real(-60, 60, 1)), min_size=4, max_size=4), r=real(5, 60, 1), a=real(0, 360, 0), w=real(20, 340, 0),
    d=st.tuples(st.sampled_from([1, -1]), real(0.5, 15, 2)), err=st.sampled_from([0.05, 0.05, 0.01, 0.2]), inter=st.sampled_from([True, False]), reverse=st.booleans()))


def check_curved(case, ctx):
    from pyx import deformer, unit, path, trafo
    d = case["d"][0] * case["d"][1]
    P = case["pts"]
    x, y = P[0]
    k = case["kind"]
    if k == "curve":
        p = path.curve_pt(*P[0], *P[1], *P[2], *P[3])
    elif k == "circle":
        p = path.circle_pt(x, y, case["r"])
    elif k == "arc":
        p = path.path(path.arc_pt(x, y, case["r"], case["a"], case["a"] + case["w"]))
    elif k == "ellipse":
        p = path.circle_pt(0, 0, case["r"]).transformed(trafo.scale(1, 0.5).rotated(case["a"]).translated_pt(x, y))
    else:       # a line, an arc and a line without a corner
        p = path.path(path.moveto_pt(x, y), path.arct_pt(x + 50, y, x + 50 + 50 * math.cos(math.radians(case["a"])), y + 50 * math.sin(math.radians(case["a"])), 0.2 * case["r"]),
                      path.lineto_pt(x + 50 + 50 * math.cos(math.radians(case["a"])), y + 50 * math.sin(math.radians(case["a"]))))
        if abs(case["a"] - 180) < 60:
            raise Skip("hairpin")
    if case["reverse"]:
        p = p.reversed()
    inter = case["inter"] or k in ("circle", "ellipse")     # circles contain tiny corners
    np0 = p.normpath()
    w = R.from_normpath(np0)
    if not w:
        raise Skip("point")
    # curvature everywhere less than 1/dist, no other part of the path near
    off = []
    ss = []
    sub = A.Sub(w[0])
    for g in w[0].segs:
        for t in np.linspace(0, 1, 41):
            u, sp, kk = A.dirs(g, t)
            if (sp < 2 and isinstance(g, R.Cubic)) or not (d * kk < 0.85):
                raise Skip("curvature")
            q = g.eval([t])[0]
            off.append(q + d * np.array([-u[1], u[0]]))
    off = np.array(off)
    if any(g.length() < 2 for g in w[0].segs) and k not in ("circle", "ellipse"):
        raise Skip("short")
    if dist(off, w).min() < abs(d) * 0.999 - 1e-4:
        raise Skip("narrow")
    # self-intersecting curves
    if k == "curve":
        Q = w[0].segs[0].eval(np.linspace(0, 1, 120))
        T = np.array([A.dirs(w[0].segs[0], t)[0] for t in np.linspace(0, 1, 120)])
        if (T @ T.T).min() < -0.9:
            raise Skip("turning back")
    got = deformer.parallel(d * unit.t_pt, relerr=case["err"], dointersection=inter, checkdistanceparams=[i / 20 for i in range(1, 20)]).deform(p)
    g = R.from_normpath(got)
    ensure(len(g) == 1, "parallel of a smooth path consists of %d pieces", len(g))
    ensure(g[0].closed == w[0].closed, "parallel closed=%r, original %r", g[0].closed, w[0].closed)
    tol = 2.5 * case["err"] * abs(d) + 2e-2
    G = sample(g, 0.5)
    dd = dist(G, w)
    i = int(np.abs(dd - abs(d)).argmax())
    ensure(abs(dd[i] - abs(d)) < tol, "parallel in the distance %g: the point %r has the distance %g", d, tuple(G[i]), dd[i])
    cov = dist(off, g)
    ensure(cov.max() < tol, "parallel in the distance %g: the point %r is missing (off by %g)", d, tuple(off[cov.argmax()]), cov.max())
    s = A.Sub(g[0])
    if not w[0].closed:
        for nm, e, f in (("begins", off[0], s.point(0)), ("ends", off[-1], s.point(s.len))):
            ensure(np.hypot(*(e - np.array(f))) < 1e-2 + 0.02 * case["err"] * abs(d), "parallel %s at %r instead of %r", nm, f, tuple(e))
    ensure(kinks(g[0], g[0].closed) < 0.15, "parallel of a smooth path has a corner of %g degrees", math.degrees(kinks(g[0], g[0].closed)))
    ctx.nontrivial()
    ctx.label(k)


# ---- linesmoothed ------------------------------------------------------------------------------------

lsm = st.fixed_dictionaries(dict(pts=st.lists(st.tuples(real(-60, 60, 1), real(-60, 60, 1)), min_size=2, max_size=7), closed=st.booleans(), tension=st.sampled_from([1, 1, 0.75, 1.5, 3]), atleast=st.booleans(),
                                 l=st.sampled_from([1, 0, 2, None]), r=st.sampled_from([1, 0, 0.5, None]), viacall=st.booleans()))


def check_lsm(case, ctx):
    from pyx import deformer, path
    pts = [tuple(p) for p in case["pts"]]
    n = len(pts)
    closed = case["closed"] and n > 2
    if any(math.hypot(pts[i][0] - pts[(i + 1) % n][0], pts[i][1] - pts[(i + 1) % n][1]) < 0.5 for i in range(n)):
        raise Skip("close points")
    p = path.path(path.moveto_pt(*pts[0]), *[path.lineto_pt(*q) for q in pts[1:]], *([path.closepath()] if closed else []))
    kw = dict(tension=case["tension"], atleast=case["atleast"], lcurl=case["l"], rcurl=case["r"])
    d = deformer.linesmoothed()(**kw) if case["viacall"] else deformer.linesmoothed(**kw)
    g = R.from_normpath(d.deform(p).normpath())
    ensure(len(g) == 1, "linesmoothed: %d subpaths", len(g))
    s = g[0]
    ensure(s.closed == closed, "linesmoothed closed=%r, original %r", s.closed, closed)
    # every given point is passed, in order
    knots = [s.segs[0].start()] + [x.end() for x in s.segs]
    want = pts + [pts[0]] if closed else pts
    ensure(len(knots) == len(want), "linesmoothed: %d curves for %d points", len(s.segs), len(pts))
    for a, b in zip(knots, want):
        ensure(math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-3, "linesmoothed passes %r instead of %r", a, b)
    for i, a, b in joints(s, closed):
        u, v = A.dirs(a, 1.0), A.dirs(b, 0.0)
        if u[1] > 0.05 and v[1] > 0.05:
            ensure(np.hypot(*(u[0] - v[0])) < 2e-2, "linesmoothed: a corner at %r", a.end())
    if not closed:
        for c, i, t, nm, q in ((case["l"], 0, 0.0, "begin", (pts[0], pts[1])), (case["r"], -1, 1.0, "end", (pts[-2], pts[-1]))):
            if c is None:
                u = A.dirs(s.segs[i], t)
                l = np.array(q[1]) - np.array(q[0])
                l /= np.hypot(*l)
                if u[1] > 0.05:
                    ensure(np.hypot(*(u[0] - l)) < 1e-2, "linesmoothed without curl: direction %r at the %s instead of %r", u[0], nm, l)
    if n > 2:
        ctx.nontrivial()
    # higher tension: shorter way
    ctx.label("closed" if closed else "open")


# ---- as a decorator, degenerate paths ----------------------------------------------------------------

deg = st.fixed_dictionaries(dict(which=st.sampled_from(["smoothed", "cycloid", "parallel", "linesmoothed"]), items=st.lists(st.sampled_from([["M", 0, 0], ["M", 10, 10], ["M", 10, 60], ["L", 90, 60], ["L", 90, 130], ["Z"], ["C", 100, 0, 150, 60, 200, 0]]), max_size=7),
                                 single=st.booleans(), stroke=st.booleans()))


def check_deg(case, ctx):
    from pyx import deformer, canvas, path, unit
    items, have = [], False
    for it in case["items"]:
        if it[0] != "M" and not have:
            continue
        if items and items[-1][0] == "Z" and it[0] != "M":
            continue
        if it[0] == "Z" and items[-1][0] == "M":
            continue        # documented exception
        have = True
        items.append(it)
    p = R.build(items)
    d = {"smoothed": deformer.smoothed(5 * unit.t_pt), "cycloid": deformer.cycloid(3 * unit.t_pt, skipfirst=5 * unit.t_pt, skiplast=5 * unit.t_pt),
         "parallel": deformer.parallel(2 * unit.t_pt), "linesmoothed": deformer.linesmoothed()}[case["which"]]
    subs = R.interpret(items)
    real_ = [s for s in subs if s.length() > 1e-3]
    if case["which"] == "parallel" and len(real_) > 1:
        raise Skip("crossing")
    if case["which"] == "parallel" and real_ and len(real_[0].segs) > 2:
        raise Skip("crossing")
    got = d.deform(p)
    g = R.from_normpath(got.normpath())
    ensure(len(g) == len(real_), "%s: %d subpaths with extent, originally %d", case["which"], len(g), len(real_))
    # deforming every subpath on its own is the same
    if len(real_) > 1:
        ctx.nontrivial()
    for w, s in zip(real_, g):
        q = path.path(path.moveto_pt(*w.first))
        one = [["M", *w.first]]
        for sg in w.segs:
            one.append(["L", *sg.end()] if isinstance(sg, R.Line) else ["C", *sg.p[1], *sg.p[2], *sg.p[3]] if hasattr(sg, "p") and len(sg.p) == 4 else None)
        if w.closed:
            one = one[:-1] if one[-1][0] == "L" and math.hypot(one[-1][1] - w.first[0], one[-1][2] - w.first[1]) < 1e-9 else one
            one.append(["Z"])
        if None in one or len(one) < 2:
            continue
        h = R.from_normpath(d.deform(R.build(one)).normpath())
        ensure(len(h) == 1, "%s: a single subpath gives %d", case["which"], len(h))
        R.compare([R.Poly(h[0].segs, h[0].first, h[0].closed)], [R.Poly(s.segs, s.first, s.closed)], 1e-3, "%s of one of several subpaths" % case["which"], fail=fail)
    ctx.label(case["which"])
    if not real_:
        return
    if case["stroke"]:
        def ps(c):
            f = io.BytesIO()
            c.writeEPSfile(f)
            return f.getvalue()
        a, b = canvas.canvas(), canvas.canvas()
        a.stroke(p, [d])
        b.stroke(got)
        from lib import heads
        ensure(body(ps(a)) == body(ps(b)), "%s: stroking with the deformer differs from stroking the deformed path", case["which"])
        ctx.nontrivial()


def body(data):
    return [l for l in data.split(b"\n") if not l.startswith(b"%%")]


SUBS = [Sub("smoothed", smooth, check_smooth, quick=1500, thorough=40000),
        Sub("corner", corner, check_corner, quick=800, thorough=20000),
        Sub("curvecorner", curvecorner, check_curvecorner, quick=1000, thorough=20000),
        Sub("endgeometry", endgeo, check_endgeo, quick=1500, thorough=40000),
        Sub("cycloid", cyc, check_cycloid, quick=700, thorough=20000),
        Sub("parallel", polygon, check_polygon, quick=1200, thorough=30000),
        Sub("parallelcurve", curved, check_curved, quick=800, thorough=20000),
        Sub("linesmoothed", lsm, check_lsm, quick=1000, thorough=20000),
        Sub("degenerate", deg, check_deg, quick=600, thorough=10000)]
