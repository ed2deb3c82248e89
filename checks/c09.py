"""C09 the bounding box of a path is its exact extent"""
import math
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close, Skip
from lib import refpath as R
from lib.gen import PT, real

PROP = "C09"
RULE = ("random paths with all kinds of elements (as path in pts or units, normpath, reversed, transformed, split parts); "
        "all four sides compared with the exact extremes of the reference segments; non-trivial: some side is attained "
        "inside of a curved segment")

case = st.fixed_dictionaries(dict(items=R.items_strategy(maxlen=7), form=st.sampled_from(["pt", "pt", "cm", "t_pt", "mm"]),
                                  m=st.tuples(*[real(-2, 2, 1)] * 4)))


def seg_extent(s):
    "exact min/max of x and y"
    pts = [s.start(), s.end()]
    inner = False
    if isinstance(s, R.Cubic):
        p = np.array(s.p)
        for k in (0, 1):
            a, b, c, d = p[:, k]
            co = [-a + 3 * b - 3 * c + d, 2 * (a - 2 * b + c), b - a]
            r = np.roots(co) if any(co[:2]) else []
            for t in r:
                if abs(t.imag) < 1e-9 and 0 < t.real < 1:
                    pts.append(tuple(s.eval([t.real])[0]))
    elif isinstance(s, R.Arc):
        lo, hi = min(s.a1, s.a2), max(s.a1, s.a2)
        k = math.ceil(lo / 90)
        while k * 90 <= hi and k * 90 <= lo + 360:
            pts.append(s.pt(k * 90))
            k += 1
    q = np.array(pts)
    return q.min(0), q.max(0)


def extent(subs):
    lo, hi, e_lo, e_hi = None, None, None, None
    for sp in subs:
        for s in sp.segs:
            a, b = seg_extent(s)
            lo = a if lo is None else np.minimum(lo, a)
            hi = b if hi is None else np.maximum(hi, b)
            e = np.array([s.start(), s.end()])
            e_lo = e.min(0) if e_lo is None else np.minimum(e_lo, e.min(0))
            e_hi = e.max(0) if e_hi is None else np.maximum(e_hi, e.max(0))
    inner = bool((lo < e_lo - 1e-3).any() or (hi > e_hi + 1e-3).any())
    return tuple(lo) + tuple(hi), inner


def check(c, ctx):
    items = R.items_drop_points(c["items"])
    subs = R.interpret(items)
    if not subs or not any(sp.segs for sp in subs):
        raise Skip
    p = R.build(items, c["form"])
    want, inner = extent(subs)
    ext = R.extent(R.polys(subs))
    tol = 1e-5 + 1e-6 * ext
    arcs = any(isinstance(s, R.Arc) for sp in subs for s in sp.segs)
    b = p.bbox()
    close(b.highrestuple_pt(), want, tol * 5, "path.bbox (llx, lly, urx, ury)")
    # the normpath approximates arcs and skips what is shorter than epsilon
    ntol = 2e-5 + tol + (1e-4 * ext if arcs else 0)
    if any(sp.length() < 1e-3 for sp in subs):
        return
    n = p.normpath()
    close(n.bbox().highrestuple_pt(), want, ntol, "normpath.bbox")
    close(n.reversed().bbox().highrestuple_pt(), want, ntol, "bbox of the reversed path")
    # transformed
    from pyx import trafo
    from lib import gfx
    a, bb, cc, d = c["m"]
    if abs(a * d - bb * cc) > 0.1 and not arcs:
        t = trafo.trafo_pt(((a, bb), (cc, d)), (3, -7))
        w, _ = extent(gfx.tsubs(subs, (a, cc, bb, d, 3, -7)))
        close(n.transformed(t).bbox().highrestuple_pt(), w, 5 * ntol, "bbox of the transformed path")
    ctx.nontrivial(inner)
    ctx.label("arcs", arcs)


SUBS = [Sub("extent", case, check, quick=6000, thorough=150000)]
