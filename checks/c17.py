"""C17 decorators: arrows, hatchings, text and braces on paths, and the part of the path which is stroked"""
import io, logging, math, os
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import ps, svg, pdf, prog
from lib import refpath as R, arclen as A
from lib.gfx import mul, app, inv, ID
from lib.gen import real
from checks.c11 import eps, pdfl, svgl

PROP = "C17"
RULE = ("random paths (lines, curves, arcs, several subpaths) are drawn with random decorators (arrows of all positions, sizes, angles, constrictions and attributes, "
        "excluded ranges, line hatchings, texts along paths, marked paths, braces), and the painting operations of EPS, PDF and SVG are compared with geometry "
        "calculated by arc length from the path itself; non-trivial: at least one decorator besides stroked and filled")
SUBS = []
DEFLW = prog.DEFLW


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


# ---- reference geometry ---------------------------------------------------------------------------

def piece(sub, a, b, n=400):
    "polyline along a subpath (of lib.arclen) from arc length a to b, any direction"
    lo, hi = min(a, b), max(a, b)
    ss = [lo] + [float(c) for c in sub.cum if lo < c < hi] + [hi]
    out = [sub.point(lo)]
    for s0, s1 in zip(ss, ss[1:]):
        i = min(max(int(np.searchsorted(sub.cum, 0.5 * (s0 + s1), side="right")) - 1, 0), len(sub.tabs) - 1)
        t = sub.tabs[i]
        t0, t1 = t.t(max(s0 - sub.cum[i], 0)), t.t(min(s1 - sub.cum[i], t.len))
        k = 2 if isinstance(t.seg, R.Line) else n
        out += [tuple(float(v) for v in p) for p in t.seg.eval(np.linspace(t0, t1, k))[1:]]
    return out if a <= b else out[::-1]


def subpath(pts, closed=False):
    sp = R.Subpath(pts[0])
    sp.segs = [R.Line(p, q) for p, q in zip(pts, pts[1:])]
    if closed and sp.segs and math.hypot(pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1]) > 1e-9:
        sp.segs.append(R.Line(pts[-1], pts[0]))
    sp.closed = closed
    return sp


def rot(pts, a, c):
    ca, sa = math.cos(a), math.sin(a)
    return [(c[0] + ca * (x - c[0]) - sa * (y - c[1]), c[1] + sa * (x - c[0]) + ca * (y - c[1])) for x, y in pts]


def kept(ref, ranges):
    "subpaths left of an open path (several subpaths) after removing ranges of arc length, or None if something is too close to call"
    out = []
    L = ref.len
    r = []
    for a, b in sorted((max(a, 0), min(b, L)) for a, b in ranges):
        if r and a <= r[-1][1] + 1e-9:
            r[-1][1] = max(r[-1][1], b)
        else:
            r.append([a, b])
    pos = 0.0
    for i, sp in enumerate(ref.subs):
        lo, hi = float(ref.cum[i]), float(ref.cum[i]) + sp.len
        cur = lo
        for a, b in r:
            if b <= lo or a >= hi:
                continue
            if a > cur:
                out.append((i, cur - lo, a - lo))
            cur = max(cur, min(b, hi))
        if cur < hi:
            out.append((i, cur - lo, hi - lo))
    for i, a, b in out:
        if b - a < 0.05:
            raise Skip("short piece")
    for a, b in r:
        for e in (a, b):
            for c in ref.cum[1:-1]:
                if abs(e - c) < 0.05:
                    raise Skip("range ends at the end of a subpath")
    for (a, b), (c, d) in zip(r, r[1:]):
        if c - b < 0.05:
            raise Skip("close ranges")
    return out


def strokesubs(ref, ranges):
    k = kept(ref, ranges)
    whole = set(i for i, sp in enumerate(ref.subs) if (i, 0.0, sp.len) in k)
    out = []
    for i, a, b in k:
        sp = ref.subs[i]
        if i in whole:
            out.append(sp.sp)
        else:
            out.append(subpath(piece(sp, a, b)))
    return out


def reference(items):
    subs = R.interpret(items)
    if any(0 < s.length() < 0.02 for sp in subs for s in sp.segs):
        raise Skip("short segment")
    ref = A.Path(subs)
    if len(ref.subs) != len(subs) or not subs:
        raise Skip("short subpath")
    return ref


# ---- arrows ---------------------------------------------------------------------------------------------

def arrowgeom(ref, a):
    "(closed subpath of the head, excluded range or None)"
    size, ang, con = a["size"], math.radians(a["angle"]), a["constriction"]
    cl = size * (1 if con is None else con) * math.cos(ang / 2)
    s = (0 if a["reversed"] else cl) + a["pos"] * (ref.len - cl)
    d = -1 if a["reversed"] else 1
    ends = [s, s - d * size] + ([s - d * cl] if con is not None else [])
    i = ref.locate(s)[0]
    if 0 < i and abs(s - ref.cum[i]) < 0.05 and not a["reversed"]:
        raise Skip("arrow at the boundary of two subpaths")
    lo, hi = float(ref.cum[i]), float(ref.cum[i + 1])
    tol = 1e-6
    for e in ends:
        if not lo - tol <= e <= hi + tol:
            raise Skip("arrow larger than its subpath")
        if e != s and min(abs(e - lo), abs(e - hi)) < 0.05 and len(ref.subs) > 1:
            raise Skip("arrow ends with its subpath")
    if ref.subs[i].closed:
        raise Skip("arrow on a closed subpath")
    sub = ref.subs[i]
    back = piece(sub, min(max(s - lo, 0), sub.len), min(max(s - d * size - lo, 0), sub.len))
    tip = back[0]
    l, r = rot(back, -ang / 2, tip), rot(back, ang / 2, tip)
    pts = l[::-1] + r[1:]
    if con is not None:
        pts.append(sub.point(min(max(s - d * cl - lo, 0), sub.len)))
    ex = None
    if a["pos"] == 0 and a["reversed"]:
        ex = (0, min(size, cl))
    elif a["pos"] == 1 and not a["reversed"]:
        ex = (ref.len - min(size, cl), ref.len)
    return subpath(pts, True), ex


def realarrow(a):
    from pyx import deco, unit
    kw = dict(size=a["size"] * unit.t_pt, angle=a["angle"], constriction=a["constriction"])
    attrs = [prog.realattr(x) for x in a["attrs"]]
    b = a["base"]
    if b == "arrow":
        return deco.arrow(attrs=attrs, pos=a["pos"], reversed=a["reversed"], **kw)
    if b == "call":
        return deco.arrow(attrs=attrs)(pos=a["pos"], reversed=a["reversed"], **kw)
    if b == "chain":
        return deco.arrow(attrs=attrs, reversed=a["reversed"])(**kw)(pos=a["pos"])
    base = {"earrow": deco.earrow, "barrow": deco.barrow}[b]
    return base(attrs=attrs, **kw)


def checkarrow(case, ctx):
    from pyx import canvas, deco
    ref = reference(case["items"])
    arrows = []
    for a in case["arrows"]:
        a = dict(a)
        if a["base"] == "earrow": a["pos"], a["reversed"] = 1, 0
        if a["base"] == "barrow": a["pos"], a["reversed"] = 0, 1
        arrows.append(a)
    geo = [arrowgeom(ref, a) for a in arrows]
    ranges = [g[1] for g in geo if g[1]]
    if sum(b - a for a, b in ranges) > ref.len - 0.1:
        raise Skip("nothing left")
    if ranges and any(s.closed for s in ref.subs):
        raise Skip("closed path with parts left out")
    # expectation
    want = []
    s = prog.State()
    drawattrs = [a for a in case["attrs"]]
    attrs = prog.merge(([["stroked", []]] if case["op"] == "stroke" else [["filled", []]] if case["op"] == "fill" else []) + drawattrs)
    subs = R.interpret(case["items"])
    s.apply([a for a in attrs if a[0] not in ("stroked", "filled")])
    stroked = strokesubs(ref, ranges) if ranges else subs
    for which in ("filled", "stroked"):
        for a in attrs:
            if a[0] == which:
                t = s.copy()
                t.apply(prog.merge(a[1]), stroke=which == "stroked", fill=which == "filled")
                want.append(t.item("stroke" if which == "stroked" else "fill", stroked if which == "stroked" else subs))
    for a, (head, ex) in zip(arrows, geo):
        al = prog.merge([["linestyle", 0], ["filled", []]] + a["attrs"])
        t = s.copy()
        t.apply([x for x in al if x[0] not in ("stroked", "filled")])
        for which in ("filled", "stroked"):
            for x in al:
                if x[0] == which:
                    u = t.copy()
                    u.apply(prog.merge(x[1]), stroke=which == "stroked", fill=which == "filled")
                    want.append(u.item("stroke" if which == "stroked" else "fill", [head]))
    if not want:
        raise Skip("nothing painted")
    ctx.nontrivial(len(arrows) > 0)
    ctx.label("arrows", len(arrows))
    ctx.label("parts left out", len(ranges))
    ctx.label("subpaths", len(subs) > 1)
    c = canvas.canvas()
    getattr(c, case["op"])(R.build(case["items"]), [prog.realattr(a) for a in drawattrs] + [realarrow(a) for a in arrows])
    n = len(case["items"]) + 30
    prog.same(want, eps(c), "EPS", npath=n)
    prog.same(want, pdfl(c), "PDF", npath=n)
    prog.same(want, svgl(c), "SVG", svg=True, npath=n)


stylel = st.lists(prog.styles().filter(lambda a: a[0] not in ("eo",)), max_size=3)
decol = st.one_of(st.tuples(st.just("stroked"), st.lists(prog.styles(fill=False), max_size=2)), st.tuples(st.just("filled"), st.lists(prog.styles(stroke=False), max_size=2)),
                  st.tuples(st.just("clear"), st.sampled_from(["filled", "color", None]))).map(list)
arrow = st.fixed_dictionaries(dict(base=st.sampled_from(["earrow", "barrow", "arrow", "call", "chain"]), pos=st.one_of(st.sampled_from([0, 1, 0.5]), real(0, 1, 3)),
                                   reversed=st.sampled_from([0, 1]), size=real(1, 20, 2), angle=st.one_of(st.just(45), real(5, 120, 1)),
                                   constriction=st.one_of(st.none(), st.just(0.8), real(0.1, 1.2, 2)), attrs=st.lists(st.one_of(prog.styles(), decol), max_size=3)))
plain = R.solid_strategy(maxlen=5, arct=False, span=150, subpaths=False)
pathitems = st.one_of(plain, plain, R.solid_strategy(maxlen=6, arct=False, span=150),
                      st.lists(R.solid_strategy(maxlen=2, arct=False, span=100, subpaths=False), min_size=1, max_size=3).map(lambda l: [i for x in l for i in x]))
def openup(items):
    return [i for i in items if i[0] != "Z"]


SUBS.append(Sub("arrow", st.fixed_dictionaries(dict(items=st.one_of(pathitems.map(openup), pathitems.map(openup), pathitems),
                                                    op=st.sampled_from(["stroke", "stroke", "draw", "fill"]), arrows=st.lists(arrow, min_size=1, max_size=3),
                                                    attrs=st.lists(st.one_of(prog.styles(), decol), max_size=3))), checkarrow, quick=700, thorough=15000))


# ---- ranges which are not stroked -------------------------------------------------------------------------

def checkexclude(case, ctx):
    from pyx import canvas, deco, unit, attr
    ref = reference(openup(case["items"]))
    items = openup(case["items"])

    class cut(deco.deco, attr.attr):
        def __init__(self, a, b): self.a, self.b = a, b
        def decorate(self, dp, texrunner):
            dp.ensurenormpath()
            a, b = self.a * unit.t_pt, self.b * unit.t_pt
            if case["params"]:
                a, b = dp.path.arclentoparam([a, b])
            dp.excluderange(a, b)
    rs = [sorted((a * ref.len, b * ref.len)) for a, b in case["ranges"]]
    if any(b - a < 0.05 for a, b in rs):
        raise Skip("short range")
    want = prog.State().item("stroke", strokesubs(ref, rs))
    if not want["subs"]:
        raise Skip("nothing left")
    ctx.nontrivial(len(rs) > 1)
    ctx.label("ranges", len(rs))
    c = canvas.canvas()
    c.stroke(R.build(items), [cut(*r) for r in rs])
    prog.same([want], eps(c), "EPS", npath=30)


SUBS.append(Sub("exclude", st.fixed_dictionaries(dict(items=pathitems, params=st.booleans(), ranges=st.lists(st.tuples(real(0, 1, 2), real(0, 1, 2)).map(list), min_size=1, max_size=5))),
                checkexclude, quick=400, thorough=12000))


# ---- line hatchings -------------------------------------------------------------------------------------------

def checkhatch(case, ctx):
    from pyx import canvas, deco, unit, style, color
    items = case["items"]
    subs = R.interpret(items)
    ref = reference(items)
    d, angle, cross = case["dist"], case["angle"], case["cross"]
    stl = [color.rgb.red, style.linewidth(0.7 * unit.t_pt)] if case["styles"] else []
    lw, col = (0.7, ("rgb", 1, 0, 0)) if case["styles"] else (DEFLW / math.sqrt(32), ("gray", 0))
    how = case["how"]
    if how == "new": h = deco.linehatched(d * unit.t_pt, angle, stl, cross)
    elif how == "dist": h = deco.linehatched(1, angle, stl, cross)(dist=d * unit.t_pt)
    elif how == "angle": h = deco.linehatched(d * unit.t_pt, 17, stl, cross)(angle=angle)
    elif how == "cross": h = deco.linehatched(d * unit.t_pt, angle, stl, not cross)(cross=cross)
    else: h = deco.linehatched(d * unit.t_pt, angle, [color.rgb.blue], cross)(strokestyles=stl)
    c = canvas.canvas()
    c.fill(R.build(items), [h])
    polys = R.polys(subs)
    pts = np.concatenate([p.pts for p in polys])
    span = pts.max(axis=0) - pts.min(axis=0)
    if max(span) / d > 300:
        raise Skip("many lines")
    ctx.nontrivial(True)
    for what, out in (("EPS", eps(c)), ("PDF", pdfl(c))):
        ensure(all(o["kind"] == "stroke" for o in out), "%s: a hatched area is painted by %r", what, [o["kind"] for o in out if o["kind"] != "stroke"][:1])
        groups = {}
        for o in out:
            ensure(len(o["clips"]) == 1, "%s: hatching with %d clippings", what, len(o["clips"]))
            R.compare(polys, R.polys(o["clips"][0][0]), 0.02, what + ": clipping of the hatching", eps=0.01, closed=False, fail=fail) if o is out[0] else None
            ensure(abs(prog.pen(o)[1] * o["lw"] - lw) < 1e-4, "%s: line width %r of the hatching", what, o["lw"])
            ensure(o["color"][0] == col[0] and max(abs(u - v) for u, v in zip(o["color"][1:], col[1:])) < 1e-6, "%s: colour %r of the hatching", what, o["color"])
            ps_ = R.polys(o["subs"])
            ensure(len(ps_) == 1, "hatching line")
            p, q = ps_[0].pts[0], ps_[0].pts[-1]
            a = math.degrees(math.atan2(q[1] - p[1], q[0] - p[0])) % 180
            k = [j for j, w in enumerate([90 + angle] + ([180 + angle] if cross else [])) if abs((a - w + 90) % 180 - 90) < 0.01 + math.degrees(4e-3 / math.hypot(q[0] - p[0], q[1] - p[1]))]
            ensure(k, "%s: a line of the hatching at %r degrees, expected %r", what, a, (90 + angle) % 180)
            groups.setdefault(k[0], []).append((p, q))
        ensure(len(groups) == 1 + bool(cross), "%s: lines in %d directions", what, len(groups))
        for k, lines in groups.items():
            w = math.radians(90 + angle + 90 * k)
            n, t = np.array([-math.sin(w), math.cos(w)]), np.array([math.cos(w), math.sin(w)])
            off = sorted(float(p @ n) for p, q in lines)
            for x, y in zip(off, off[1:]):
                ensure(abs(y - x - d) < 0.004 + 1e-4 * d, "%s: lines of the hatching at distance %r, expected %r", what, y - x, d)
            lo, hi = float((pts @ n).min()), float((pts @ n).max())
            ensure(off[0] <= lo + d * 1.0001 and off[-1] >= hi - d * 1.0001, "%s: the hatching covers %r to %r, the area %r to %r (distance %r)", what, off[0], off[-1], lo, hi, d)
            lo, hi = float((pts @ t).min()), float((pts @ t).max())
            for p, q in lines:
                ensure(min(p @ t, q @ t) <= lo + 1e-3 and max(p @ t, q @ t) >= hi - 1e-3, "%s: a line of the hatching ends within the area", what)


SUBS.append(Sub("hatch", st.fixed_dictionaries(dict(items=pathitems, dist=real(1, 30, 2), angle=st.one_of(st.sampled_from([0, 45, 90, 135]), real(-180, 180, 1)),
                                                    cross=st.booleans(), styles=st.booleans(), how=st.sampled_from(["new", "dist", "angle", "cross", "styles"]))),
                checkhatch, quick=250, thorough=4000))


# ---- marked paths ------------------------------------------------------------------------------------------------

def checkshow(case, ctx):
    from pyx import canvas, deco, unit, color
    items = case["items"]
    p = R.build(items).normpath()
    subs = R.from_normpath(p)
    ref = reference(items)
    kw, opt = {}, case["opt"]
    for k, v in opt.items():
        kw[k + "_attrs"] = None if v == "none" else [prog.realattr(v)] if v else []
    e, k = case["sizes"]
    c = canvas.canvas()
    c.draw(p if case["norm"] else R.build(items), [deco.shownormpath(endpoint_size=e * unit.t_pt, controlpoint_size=k * unit.t_pt, **kw)])
    ctx.nontrivial(True)
    want = []

    def add(name, defaults, kind, s):
        v = opt.get(name)
        if v == "none":
            return
        t = prog.State()
        t.apply(prog.merge(defaults + ([v] if v else [])))
        want.append(t.item(kind, s))

    def dot(name, defaults, q, r):
        add(name, defaults, "fill", R.interpret([["arc", q[0], q[1], r, 0, 360], ["Z"]]))
    red, blue, green = ["rgb", 1, 0, 0], ["rgb", 0, 0, 1], ["rgb", 0, 1, 0]
    segs = [(sp, i, s) for sp in subs for i, s in enumerate(sp.segs)]
    for sp, i, s in segs:
        u = R.Subpath(s.start())
        u.segs = [s]
        cubic = isinstance(s, R.Cubic)
        add("normcurve" if cubic else "normline", [green if cubic else blue], "stroke", [u])
    for sp, i, s in segs:
        if isinstance(s, R.Cubic):
            for a, b in ((0, 1), (2, 3)):
                add("controlline", [red, ["linestyle", 1]], "stroke", [subpath([s.p[a], s.p[b]])])
            for a in (1, 2):
                dot("controlpoint", [red], s.p[a], k)
    for sp, i, s in segs:
        if i == 0:
            dot("endpoint", [], s.start(), e)
        dot("endpoint", [], s.end(), e)
    # control lines without length paint a dot or nothing; they are left out on both sides by prog.same
    prog.same(want, eps(c), "EPS", npath=40)


opts = {k: st.sampled_from([None, None, "none", ["gray", 0.5], ["rgb", 0, 1, 1]]) for k in ("normline", "normcurve", "endpoint", "controlline", "controlpoint")}
SUBS.append(Sub("show", st.fixed_dictionaries(dict(items=pathitems, norm=st.booleans(), opt=st.fixed_dictionaries(opts), sizes=st.tuples(real(0.3, 4, 2), real(0.3, 4, 2)).map(list))),
                checkshow, quick=200, thorough=4000))


# ---- braces ----------------------------------------------------------------------------------------------------------

def checkbrace(case, ctx):
    from pyx import canvas, deco, unit, path
    (x0, y0), (x1, y1) = case["p"], case["q"]
    L = math.hypot(x1 - x0, y1 - y0)
    h = case["height"]
    if L < 2.5 * h + 10:
        raise Skip("short brace")
    kw = dict(totalheight=h * unit.t_pt, middlerelpos=case["middle"], reverse=case["reverse"])
    th = case["thick"]
    kw.update(barthickness=th[0] * unit.t_pt, innerstrokesthickness=th[1] * unit.t_pt, outerstrokesthickness=th[2] * unit.t_pt)
    if case["dist"] is not None: kw["dist"] = case["dist"] * unit.t_pt
    if case["stretch"] is not None: kw["stretch"] = case["stretch"]
    b = deco.brace(**kw) if not case["call"] else getattr(deco, case["call"])(**kw)
    c = canvas.canvas()
    c.draw(path.line_pt(x0, y0, x1, y1), [b])
    out = eps(c)
    ensure(len(out) == 1 and out[0]["kind"] == "fill", "a brace paints %r", [o["kind"] for o in out])
    ctx.nontrivial(True)
    pts = np.concatenate([p.pts for p in R.polys(out[0]["subs"])])
    ensure(len([p for p in R.polys(out[0]["subs"]) if p.len > 0.01]) == 1, "a brace of several subpaths")
    a, e = np.array([x0, y0]), np.array([x1, y1])
    t = (e - a) / L
    n = np.array([-t[1], t[0]])
    if case["stretch"] is not None:
        m = (a + e) / 2
        a, e = m + case["stretch"] * (a - m), m + case["stretch"] * (e - m)
    if case["dist"] is not None:
        # along the normal of the path at both ends
        a, e = a + case["dist"] * n, e + case["dist"] * n
    if case["reverse"]:
        a, e, t, n = e, a, -t, -n
    L = float((e - a) @ t)
    u, v = (pts - a) @ t, (pts - a) @ n
    # the middle cap is the highest point, at the relative position of the middle
    th_ = max(th)
    # (a slanted cap may exceed its height a little)
    d = np.hypot(u - case["middle"] * L, v - h).min()
    ensure(d <= 0.02 and v.max() <= h + 2 * th_ + 0.1, "the middle cap of a brace is missed by %r, its height is %r of %r", d, v.max(), h)
    # the outer strokes end at the two points
    for x in (0, L):
        i = int(np.argmin(np.hypot(u - x, v)))
        ensure(math.hypot(u[i] - x, v[i]) <= 2.6 * th[2] + 0.02, "a brace ends %r away from the given point", math.hypot(u[i] - x, v[i]))
    ensure(v.min() >= -2 * th_ - 0.05, "a brace extends %r behind its end points", v.min())
    # the outline has corners at the two sides of the middle cap only
    segs = [s for sp in out[0]["subs"] for s in sp.segs]
    ends = []
    for s in segs:
        q = [np.array(x, float) for x in (s.p if isinstance(s, R.Cubic) else (s.start(), s.end()))]
        # a line of no length has no direction
        if max(math.hypot(*(x - q[0])) for x in q) < 0.05:
            continue
        d0 = next((x - q[0] for x in q[1:] if math.hypot(*(x - q[0])) > 0.02), None)
        d1 = next((q[-1] - x for x in q[-2::-1] if math.hypot(*(q[-1] - x)) > 0.02), None)
        ends.append((q[0], d0 / math.hypot(*d0), q[-1], d1 / math.hypot(*d1)))
    for (p0, _, p1, d), (p2, f, _, _) in zip(ends, ends[1:] + ends[:1]):
        if math.hypot(*(p1 - p2)) > 0.05 or abs((p1 - a) @ t - case["middle"] * L) < 0.01 + 1.5 * th[1]:
            continue
        ensure(d @ f > 0.98, "the outline of a brace has a corner at %r (at %r of %r along, %r high): directions %r and %r",
               p1.tolist(), float((p1 - a) @ t), L, float((p1 - a) @ n), d.tolist(), f.tolist())
    # looked at from behind, a brace is the brace of the mirrored middle and slant
    kw2 = dict(kw, middlerelpos=1 - case["middle"], slantstrokesangle=-b.slantstrokesangle)
    c = canvas.canvas()
    c.draw(path.line_pt(-x0, y0, -x1, y1), [b(**dict(kw2, reverse=not case["reverse"], dist=None if case["dist"] is None else -case["dist"] * unit.t_pt))])
    mir = eps(c)
    q = np.concatenate([p.pts for p in R.polys(mir[0]["subs"])])
    lim = 0.05 * (1 + h / 20)
    q = q * np.array([-1, 1])
    # (the middle cap falls to both sides, whatever the slant)
    off = lambda r: r[abs((r - a) @ t - case["middle"] * L) > 0.1 + 3 * th[1]][::5]
    far = [dist_to(off(q), out[0]["subs"]), dist_to(off(pts), mirrored(mir[0]["subs"]))]
    ensure(max(far) <= lim, "a brace and its mirror image differ by %r (the points of the one are %r away from the other)", max(far), far)


def mirrored(subs):
    res = []
    for sp in subs:
        if not sp.segs:
            continue
        u = R.Subpath((-sp.segs[0].start()[0], sp.segs[0].start()[1]))
        u.segs = [R.Cubic(*[(-x, y) for x, y in s.p]) if isinstance(s, R.Cubic) else R.Line((-s.start()[0], s.start()[1]), (-s.end()[0], s.end()[1])) for s in sp.segs]
        u.closed = sp.closed
        res.append(u)
    return res


def dist_to(q, subs):
    """the greatest distance of the points q to the outlines"""
    d = np.full(len(q), np.inf)
    for p in R.polys(subs):
        a, e = p.pts[:-1], p.pts[1:]
        for i in range(len(q)):
            v = e - a
            w = q[i] - a
            l = (v * v).sum(1)
            s = np.clip(np.where(l > 0, (w * v).sum(1) / np.where(l > 0, l, 1), 0), 0, 1)
            d[i] = min(d[i], np.hypot(*(w - s[:, None] * v).T).min())
    return float(d.max())


SUBS.append(Sub("brace", st.fixed_dictionaries(dict(p=st.tuples(real(-50, 50, 1), real(-50, 50, 1)).map(list), q=st.tuples(real(-200, 200, 1), real(-200, 200, 1)).map(list),
                                                    height=real(6, 30, 1), middle=real(0.35, 0.65, 2), reverse=st.booleans(), thick=st.lists(real(0.2, 1, 2), min_size=3, max_size=3),
                                                    dist=st.one_of(st.none(), real(-10, 10, 1)), stretch=st.one_of(st.none(), real(0.8, 1.2, 2)),
                                                    call=st.sampled_from([None, "leftbrace", "rightbrace", "belowbrace"]))), checkbrace, quick=250, thorough=4000))


# ---- texts along a path --------------------------------------------------------------------------------------------------

_engine = {}


def engine(kind):
    from pyx import text
    if kind not in _engine:
        _engine[kind] = text.UnicodeEngine() if kind == "unicode" else text.TexEngine()
    return _engine[kind]


def position(case, ref):
    if case["where"] == "begin": return case["s"] * ref.len, dict(arclenfrombegin=case["s"] * ref.len)
    if case["where"] == "end": return (1 - case["s"]) * ref.len, dict(arclenfromend=case["s"] * ref.len)
    if case["where"] == "rel": return case["s"] * ref.len, dict(relarclenpos=case["s"])
    return 0.5 * ref.len, {}


def withunit(kw):
    from pyx import unit
    return {k: v * unit.t_pt if k != "relarclenpos" else v for k, v in kw.items()}


def tangent(ref, s):
    i, l = ref.locate(s)
    if len(ref.subs) > 1 and min(abs(l), abs(l - ref.subs[i].len)) < 0.01:
        raise Skip("position at the boundary of two subpaths")
    if ref.subs[i].knotdist(l) < 0.01 and 0.01 < l < ref.subs[i].len - 0.01:
        raise Skip("position at a corner")
    seg, t, k = ref.subs[i].locate(l)
    d, speed, kappa = A.dirs(seg, t)
    if speed < 1e-3:
        raise Skip("no direction")
    return np.array(ref.subs[i].point(l)), d


def checktext(case, ctx):
    from pyx import canvas, deco, unit, text
    ref = reference(case["items"])
    s, kw = position(case, ref)
    p, d = tangent(ref, s)
    kw = withunit(kw)
    rel = case["relangle"]
    a = math.radians(case["angle"]) if rel is None else math.atan2(d[1], d[0]) + math.radians(rel)
    at = [[], [text.halign.left], [text.halign.right], [text.halign(0.3, 0.6)], [text.vshift.mathaxis]][case["attr"] % 5]
    e = engine("unicode")
    kw2 = dict(textdist=case["dist"] * unit.t_pt) if case["dist"] is not None else {}
    c = canvas.canvas(textengine=e)
    c.draw(R.build(case["items"]), [deco.text(case["text"], at, angle=case["angle"], relangle=rel, **kw2, **kw)])
    out = [o for o in eps(c) if o["kind"] == "text"]
    # the same text, aligned at a line through the point of the path
    t = e.text_pt(float(p[0]), float(p[1]), case["text"], [text.halign.center, text.vshift.mathaxis] + at)
    t.linealign(case["dist"] * unit.t_pt if case["dist"] is not None else 0.2, math.cos(a), math.sin(a))
    c = canvas.canvas()
    c.insert(t)
    want = [o for o in eps(c) if o["kind"] == "text"]
    ctx.nontrivial(True)
    ctx.label(case["where"], True)
    ensure(len(out) == len(want) > 0, "%d texts on the path", len(out))
    for o, w in zip(out, want):
        ensure(o["text"] == w["text"] and o["font"][0] == w["font"][0], "text %r on the path", o["text"])
        po, pw = o["device"], w["device"]
        ensure(math.hypot(po[0] - pw[0], po[1] - pw[1]) < 0.02 + 2e-3 * case["curv"], "text at %r, expected %r (at arc length %r of %r)", po, pw, s, ref.len)


textcase = dict(items=pathitems, where=st.sampled_from(["begin", "end", "rel", "default"]), s=real(0.02, 0.98, 2), text=st.sampled_from(["Ab", "hello", "x", "g T"]),
                attr=st.integers(0, 4))
SUBS.append(Sub("text", st.fixed_dictionaries(dict(textcase, angle=real(-180, 180, 0), relangle=st.one_of(st.none(), st.integers(-4, 4).map(lambda i: i * 45)),
                                                   dist=st.one_of(st.none(), real(0, 20, 1)), curv=st.just(1))), checktext, quick=250, thorough=6000))


def checkcurved(case, ctx):
    from pyx import canvas, deco, unit, text
    ref = reference(openup(case["items"]))
    s, kw = position(case, ref)
    kw = withunit(kw)
    e = engine("tex")
    at = [[], [text.halign.left], [text.halign.right], [text.size.Large], [text.vshift.mathaxis]][case["attr"] % 5]
    t = e.text(0, 0, case["text"], [text.halign.center] + at, singlecharmode=1)
    t.do_finish()
    boxes = []
    for item in t.dvicanvas.items:
        b = item.bbox().transformed(t.texttrafo).highrestuple_pt()
        boxes.append(b)
    c = canvas.canvas()
    c.insert(t)
    straight = [o for o in eps(c) if o["kind"] == "text"]
    ensure(len(straight) == len(boxes), "%d characters in %d items", len(straight), len(boxes))
    ex = case["exclude"]
    c = canvas.canvas(textengine=e)
    # ranges outside of the path are left out: they belong to characters beyond its ends
    if min(b[0] for b in boxes) + s < 1 + (ex or 0) or max(b[2] for b in boxes) + s > ref.len - 1 - (ex or 0):
        raise Skip("text longer than the path")
    frames = [tangent(ref, s + 0.5 * (b[0] + b[2])) for b in boxes]
    c.stroke(R.build(openup(case["items"])), [deco.curvedtext(case["text"], at, **kw, **({} if ex is None else dict(exclude=ex * unit.t_pt)))])
    out = eps(c)
    got = [o for o in out if o["kind"] == "text"]
    ensure(len(got) == len(straight), "%d characters along the path, expected %d", len(got), len(straight))
    ctx.nontrivial(len(got) > 1)
    ctx.label("exclude", ex is not None)
    for o, w, b, (p, d) in zip(got, straight, boxes, frames):
        ensure(o["text"] == w["text"] and o["font"][0] == w["font"][0], "character %r along the path, expected %r", o["text"], w["text"])
        x, y = w["device"][0] - 0.5 * (b[0] + b[2]), w["device"][1]
        q = (p[0] + d[0] * x - d[1] * y, p[1] + d[1] * x + d[0] * y)
        ensure(math.hypot(o["device"][0] - q[0], o["device"][1] - q[1]) < 0.02, "character %r at %r, expected %r", o["text"], o["device"], q)
        m = mul(tuple(w["ctm"][:4]) + (0, 0), (d[0], d[1], -d[1], d[0], 0, 0))
        ensure(max(abs(u - v) for u, v in zip(o["ctm"][:4], m[:4])) < 1e-3, "character %r is drawn with %r, expected %r", o["text"], o["ctm"], m)
    strokes = [o for o in out if o["kind"] == "stroke"]
    want = prog.State().item("stroke", R.interpret(openup(case["items"])) if ex is None else strokesubs(ref, [(s + b[0] - ex, s + b[2] + ex) for b in boxes]))
    prog.same([want], strokes, "EPS", npath=30)


SUBS.append(Sub("curvedtext", st.fixed_dictionaries(dict(textcase, text=st.sampled_from(["Ab", "hello world", "x", "$a+b$", "VA"]), exclude=st.one_of(st.none(), real(0, 3, 1)))),
                checkcurved, quick=150, thorough=3000))
