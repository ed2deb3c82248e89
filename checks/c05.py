"""C05 arc length, positions and path parameters"""
import math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close, Skip
from lib import refpath as R, arclen as A
from lib.gen import real, PT, METRE

PROP = "C05"
RULE = ("random paths (lines, Bezier curves, arcs, several open and closed subpaths, pts or units, paths and normpaths, "
        "several epsilons) with unsorted lists of positions given as arc lengths or path parameters; points compared "
        "with an arc-length reparametrisation by Gauss quadrature; non-trivial: at least two segments and a position "
        "strictly inside")

frac = st.one_of(st.sampled_from([0, 1, 0.5, 0.25]), real(0, 1, 3), real(0, 1, 6))
case = st.fixed_dictionaries(dict(items=R.solid_strategy(maxlen=6, arct=False, span=60), s=st.lists(frac, min_size=1, max_size=6),
                                  obj=st.sampled_from(["path", "normpath"]), eps=st.sampled_from([None, None, 1e-3, 1e-3, 1e-4, 1e-6]),
                                  join=st.booleans()))


def setup(c):
    subs = R.interpret(c["items"])
    # pyx skips pieces shorter than epsilon: keep away from them
    if any(0 < s.length() < 0.01 for sp in subs for s in sp.segs):
        raise Skip
    ref = A.Path(subs)
    if not ref.subs or len(ref.subs) != len(subs):
        raise Skip
    p = R.build(c["items"])
    if c["eps"] is not None:
        p = p.normpath(epsilon=c["eps"])
    elif c["obj"] == "normpath":
        p = p.normpath()
    arcs = sum(s.r * math.radians(abs(s.a2 - s.a1)) for sp in subs for s in sp.segs if isinstance(s, R.Arc))
    n = sum(len(s.tabs) for s in ref.subs) + sum(abs(s.a2 - s.a1) / 20 + 2 for sp in subs for s in sp.segs if isinstance(s, R.Arc))
    ltol = max(c["eps"] or 1e-5, 1e-6) * 3 * n + 3e-5 * arcs + 1e-9 * ref.len + 1e-6
    ptol = ltol + 2e-5 * R.extent(R.polys(subs)) + 1e-5
    return p, ref, ltol, ptol


def inpt(l):
    from pyx import unit
    return unit.tom(l) / METRE["pt"]


def check(c, ctx):
    from pyx import unit
    p, ref, ltol, ptol = setup(c)
    # total length
    L = p.arclen_pt()
    close(L, ref.len, ltol, "arclen_pt")
    close(inpt(p.arclen()), ref.len, ltol, "arclen")
    if c["eps"] is not None or c["obj"] == "normpath":
        close(p.arclen_pt(upper=True), ref.len, ltol, "upper bound of the arclen")
        close(inpt(p.arclen(upper=True)), ref.len, ltol, "upper bound of the arclen")
        ensure(p.arclen_pt() <= p.arclen_pt(upper=True) + 1e-12 * L, "the lower bound of the arc length exceeds the upper bound")
    ss = [f * ref.len for f in c["s"]]

    def pts(got, what):
        ensure(len(got) == len(ss), "%s returns %d positions for %d arguments", what, len(got), len(ss))
        for s, g in zip(ss, got):
            cand = ref.candidates(s, 2 * ltol)
            d = min(math.hypot(g[0] - q[0], g[1] - q[1]) for q in cand)
            ensure(d <= ptol, "%s at arc length %r of %r: %r, expected %r", what, s, ref.len, tuple(g), cand)

    pts(p.at_pt(ss), "at_pt(list)")
    pts([p.at_pt(ss[0])] + p.at_pt(ss)[1:], "at_pt")
    us = [s * unit.t_pt for s in ss]
    pts([(inpt(x), inpt(y)) for x, y in p.at(us)], "at(list)")
    pts([[inpt(v) for v in p.at(ss[0] / PT["cm"])]] + p.at_pt(ss)[1:], "at(number)")
    params = p.arclentoparam_pt(ss)
    pts(p.at_pt(params), "at_pt(arclentoparam_pt)")
    p2 = p.arclentoparam(us)
    pts(p.at_pt(p2), "at_pt(arclentoparam)")
    pts([[inpt(v) for v in xy] for xy in p.at([a if i % 2 else b for i, (a, b) in enumerate(zip(params, us))])], "at(mixed list)")
    # back to lengths
    close(p.paramtoarclen_pt(params), ss, 3 * ltol, "paramtoarclen_pt(arclentoparam_pt)")
    close([inpt(l) for l in p.paramtoarclen(p2)], ss, 3 * ltol, "paramtoarclen(arclentoparam)")
    for s, q in list(zip(ss, params))[-1:]:
        close(q.arclen_pt(), s, 3 * ltol, "arclen_pt of a parameter")
        close(inpt(q.arclen()), s, 3 * ltol, "arclen of a parameter")
        close(p.paramtoarclen_pt(q), s, 3 * ltol, "paramtoarclen_pt of a single parameter")
        close(p.paramtoarclen_pt(p.arclentoparam_pt(s)), s, 3 * ltol, "single parameter")
    # ends
    close(p.paramtoarclen_pt(p.begin()), 0, ltol, "length at begin")
    close(p.paramtoarclen_pt(p.end()), ref.len, 2 * ltol, "length at end")
    close(p.at_pt(p.begin()), ref.subs[0].point(0), ptol, "begin")
    close(p.at_pt(p.end()), ref.subs[-1].point(ref.subs[-1].len), ptol, "end")
    close(p.atbegin_pt(), ref.subs[0].point(0), ptol, "atbegin_pt")
    close(p.atend_pt(), ref.subs[-1].point(ref.subs[-1].len), ptol, "atend_pt")
    ctx.nontrivial(sum(len(s.tabs) for s in ref.subs) >= 2 and any(0 < f < 1 for f in c["s"]))
    ctx.label("subpaths", len(ref.subs) > 1)
    ctx.label("closed", any(s.closed for s in ref.subs))
    ctx.label("curved", any(isinstance(t.seg, R.Cubic) for s in ref.subs for t in s.tabs))


# long unsorted lists of positions over several subpaths

several = st.lists(R.solid_strategy(maxlen=2, arct=False, span=40, subpaths=False), min_size=2, max_size=4).map(lambda l: [i for x in l for i in x])
lists = st.fixed_dictionaries(dict(items=several, s=st.lists(frac, min_size=3, max_size=9), obj=st.sampled_from(["path", "normpath"]),
                                   eps=st.none(), join=st.booleans()))

# arithmetic and comparison of path parameters

arith = st.fixed_dictionaries(dict(items=R.solid_strategy(maxlen=5, arct=False, span=60), obj=st.just("normpath"), eps=st.none(),
                                   a=frac, b=frac, k=st.sampled_from([2, 3, 4, 0.5, 0.25, 0.75]),
                                   u=st.sampled_from(["pt", "cm", "mm", "inch", None])))


def check_arith(c, ctx):
    from pyx import unit
    p, ref, ltol, ptol = setup(c)
    L = ref.len
    tol = 8 * ltol
    sa, sb = c["a"] * L, c["b"] * L
    pa, pb = p.arclentoparam_pt([sa, sb])

    def length(s):
        if c["u"] is None:
            return s / PT["cm"]
        return s / PT[c["u"]] * unit.length(1, unit=c["u"])

    def val(q, want, what):
        if tol < want < L - tol:
            close(q.arclen_pt(), want, tol, what)
            got = p.at_pt(q)
            cand = ref.candidates(want, tol)
            ensure(min(math.hypot(got[0] - x, got[1] - y) for x, y in cand) <= ptol + tol, "%s: point %r, expected %r", what, got, cand)
    val(pa + length(sb), sa + sb, "parameter + length")
    val(length(sb) + pa, sa + sb, "length + parameter")
    val(pa - length(sb), sa - sb, "parameter - length")
    val(length(sa) - pb, sa - sb, "length - parameter")
    val(pa + pb, sa + sb, "parameter + parameter")
    val(pa - pb, sa - sb, "parameter - parameter")
    val(pa * c["k"], sa * c["k"], "parameter * number")
    val(c["k"] * pa, sa * c["k"], "number * parameter")
    val(pa / c["k"], sa / c["k"], "parameter / number")
    if abs(sa - sb) > tol:
        for op, r in (("<", pa < pb), (">", pb < pa), ("<=", pa <= pb), (">=", pb <= pa)):
            ensure(bool(r) == ((sa < sb) if op in ("<", "<=") else (sb < sa)), "comparison %s of parameters at %r and %r of %r", op, sa, sb, L)
        ensure(pa != pb and not pa == pb, "parameters at different lengths are equal")
        ensure((pa < length(sb)) == (sa < sb) and (pa > length(sb)) == (sa > sb), "comparison of a parameter at %r with the length %r", sa, sb)
        q = sorted([pa, pb])
        ensure((q[0] is pa) == (sa < sb), "sorted parameters")
    ensure(pa == p.arclentoparam_pt(sa) and pa <= pa and pa >= pa and not pa < pa, "a parameter equals itself")
    ctx.nontrivial(0 < c["a"] < 1 and 0 < c["b"] < 1)


SUBS = [Sub("positions", case, check, quick=900, thorough=30000),
        Sub("lists", lists, check, quick=300, thorough=12000),
        Sub("param_arithmetic", arith, check_arith, quick=450, thorough=12000)]
