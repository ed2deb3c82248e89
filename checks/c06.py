"""C06 tangents, rotations, local coordinate systems and curvature along a path"""
import math
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close, Skip
from lib import refpath as R, arclen as A
from lib.gen import real, PT, METRE

PROP = "C06"
RULE = ("random paths and unsorted lists of positions (arc lengths in pts, in units, or parameters) away from corners and "
        "cusps; directions, points and curvatures compared with the derivatives of the reference geometry; non-trivial: "
        "at least one position on a curved segment or at least two segments")

frac = st.one_of(real(0, 1, 3), real(0, 1, 6))
case = st.fixed_dictionaries(dict(items=R.solid_strategy(maxlen=5, arct=False, span=60), s=st.lists(frac, min_size=1, max_size=5),
                                  obj=st.sampled_from(["path", "normpath"]), arg=st.sampled_from(["pt", "unit", "param", "mixed"]),
                                  single=st.booleans(), length=st.one_of(st.integers(1, 3), real(0.1, 20, 1))))


def inpt(l):
    from pyx import unit
    return unit.tom(l) / METRE["pt"]


def check(c, ctx):
    from pyx import unit
    subs = R.interpret(c["items"])
    ref = A.Path(subs)
    p = R.build(c["items"])
    if c["obj"] == "normpath":
        p = p.normpath()
    curved = any(not isinstance(s, R.Line) for sp in subs for s in sp.segs)
    ext = R.extent(R.polys(subs))
    want = []
    for f in c["s"]:
        i, l = ref.locate(f * ref.len)
        sp = ref.subs[i]
        if sp.knotdist(l) < 0.02:
            continue
        seg, t, _ = sp.locate(l)
        d, v, k = A.dirs(seg, t)
        if isinstance(seg, R.Cubic) and (v < 1e-2 * seg.length() or abs(k) > 2):
            continue
        slack = 0.0
        if isinstance(seg, R.Cubic):
            # variation of the curvature within the accuracy of an arc length
            ks = [A.dirs(seg, sp.locate(l + h)[1])[2] for h in (-4e-3, 4e-3)]
            slack = 2 * max(abs(q - k) for q in ks)
        want.append((float(ref.cum[i] + l), sp.point(l), d, k, seg, slack))
    if not want:
        raise Skip
    ss = [w[0] for w in want]
    us = [s * unit.t_pt for s in ss]
    params = p.arclentoparam_pt(ss)
    if c["arg"] == "pt":
        apt, au = ss, [s / PT["cm"] for s in ss]
    elif c["arg"] == "unit":
        apt, au = ss, us
    elif c["arg"] == "param":
        apt, au = params, params
    else:
        apt = [a if i % 2 else b for i, (a, b) in enumerate(zip(ss, params))]
        au = [a if i % 2 else b for i, (a, b) in enumerate(zip(us, params))]
    if c["single"]:
        def call(fn, arg, *a, **k):
            return [fn(x, *a, **k) for x in arg]
    else:
        def call(fn, arg, *a, **k):
            r = fn(arg, *a, **k)
            ensure(len(r) == len(arg), "%d results for %d positions", len(r), len(arg))
            return r

    def near(got, pt, tol, what):
        close(tuple(got), tuple(pt), tol, what)

    L = c["length"]
    res = {}
    res["tangent_pt"] = call(p.tangent_pt, apt, L)
    res["tangent"] = call(p.tangent, au, L * unit.t_pt)
    res["tangent1"] = call(p.tangent, au)
    res["rotation_pt"] = call(p.rotation_pt, apt)
    res["rotation"] = call(p.rotation, au)
    res["trafo_pt"] = call(p.trafo_pt, apt)
    res["trafo"] = call(p.trafo, au)
    res["curvature_pt"] = call(p.curvature_pt, apt)
    for i, (s, pt, d, k, seg, slack) in enumerate(want):
        ptol = 3e-4 + 3e-5 * ext
        atol = 1e-4 + 4e-3 * abs(k) + (1e-3 if isinstance(seg, R.Arc) else 0)
        n = np.array([-d[1], d[0]])
        for name, l in (("tangent_pt", L), ("tangent", L), ("tangent1", PT["cm"])):
            t = res[name][i]
            b, e = np.array(t.atbegin_pt()), np.array(t.atend_pt())
            near(b, pt, ptol, "%s: start at %r" % (name, s))
            near((e - b) / l, d, atol + 1e-4 / l, "%s: direction (per length) at %r" % (name, s))
            close(t.arclen_pt(), l, 1e-6 * l + 1e-5, "%s: length", name)
        for name in ("rotation_pt", "rotation"):
            t = res[name][i]
            near(t.apply_pt(0, 0), (0, 0), 1e-9, "%s moves the origin" % name)
            near(t.apply_pt(1, 0), d, atol, "%s at %r: x direction" % (name, s))
            near(t.apply_pt(0, 1), n, atol, "%s at %r: y direction" % (name, s))
        for name in ("trafo_pt", "trafo"):
            t = res[name][i]
            o = np.array(t.apply_pt(0, 0))
            near(o, pt, ptol, "%s at %r: origin" % (name, s))
            near(np.array(t.apply_pt(1, 0)) - o, d, atol, "%s at %r: x direction" % (name, s))
            near(np.array(t.apply_pt(0, 1)) - o, n, atol, "%s at %r: y direction" % (name, s))
        kk = res["curvature_pt"][i]
        if isinstance(seg, R.Arc):
            close(kk, k, 0.02 * abs(k), "curvature of an arc")
        else:
            close(kk, k, 1e-6 + slack + 1e-3 * abs(k), "curvature_pt at %r" % s)
        ctx.nontrivial(not isinstance(seg, R.Line))
        ctx.label(type(seg).__name__)
    ctx.nontrivial(sum(len(s.tabs) for s in ref.subs) > 1)


SUBS = [Sub("local", case, check, quick=1600, thorough=40000)]
