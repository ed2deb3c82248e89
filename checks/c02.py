"""C02 affine transformations: composition, inverse, documented special cases, serialisation"""
import io, math, re
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close
from lib.gen import num, real, angle, UNITS, PT

PROP = "C02"
RULE = ("random chains of affine maps (general matrix, rotate, scale, mirror, slant, translate; unit and pt variants; "
        "with and without centre; by product and by the *ed methods) against 3x3 matrices built from the definitions "
        "in the manual, on random points; non-trivial: a chain of at least two non-identity maps")

factor = st.one_of(st.sampled_from([-3, -2, -1, -0.5, 0.5, 1, 2, 3]), real(0.05, 4, 2), real(-4, -0.05, 2))
coord = st.one_of(st.just(0), num(-20, 20))
length = st.tuples(coord, st.sampled_from(["", ""] + UNITS))
centre = st.one_of(st.none(), st.tuples(length, length))
centre_pt = st.one_of(st.none(), st.tuples(coord, coord))
step = st.one_of(
    st.tuples(st.just("rotate"), angle, centre), st.tuples(st.just("rotate_pt"), angle, centre_pt),
    st.tuples(st.just("scale"), factor, st.one_of(st.none(), factor), centre),
    st.tuples(st.just("scale_pt"), factor, st.one_of(st.none(), factor), centre_pt),
    st.tuples(st.just("slant"), factor, angle, centre), st.tuples(st.just("slant_pt"), factor, angle, centre_pt),
    st.tuples(st.just("mirror"), angle),
    st.tuples(st.just("translate"), length, length), st.tuples(st.just("translate_pt"), coord, coord))
gen = st.tuples(st.sampled_from(["trafo", "trafo_pt"]), factor, num(-2, 2, 2), num(-2, 2, 2), factor, coord, coord).filter(
    lambda t: abs(t[1] * t[4] - t[2] * t[3]) > 0.02)
point = st.tuples(num(-20, 20), num(-20, 20))
case = st.fixed_dictionaries(dict(
    uscale=st.sampled_from([1, 1, 2, 0.3]), start=st.one_of(st.none(), gen), steps=st.lists(step, min_size=1, max_size=5),
    other=st.one_of(gen, step), pts=st.lists(point, min_size=1, max_size=4)))


def mat(a, b, c, d, e, f):
    return ((a, b, e), (c, d, f), (0, 0, 1))


def mul(m, n):
    return tuple(tuple(sum(m[i][k] * n[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def app(m, p):
    return (m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], m[1][0] * p[0] + m[1][1] * p[1] + m[1][2])


def topt(l, us):
    return l[0] * PT[l[1] or "cm"] * us


def tolen(unit, l):
    return l[0] if l[1] == "" else l[0] * getattr(unit, l[1])


def about(m, c):
    x, y = c
    return mul(mat(1, 0, 0, 1, x, y), mul(m, mat(1, 0, 0, 1, -x, -y)))


def rot(a):
    phi = math.radians(a)
    return mat(math.cos(phi), -math.sin(phi), math.sin(phi), math.cos(phi), 0, 0)


def model(s, us):
    op = s[0]
    if op in ("trafo", "trafo_pt"):
        k = PT["cm"] * us if op == "trafo" else 1
        return mat(s[1], s[2], s[3], s[4], s[5] * k, s[6] * k)
    if op in ("translate", "translate_pt"):
        if op == "translate":
            return mat(1, 0, 0, 1, topt(s[1], us), topt(s[2], us))
        return mat(1, 0, 0, 1, s[1], s[2])
    if op == "mirror":
        return mul(rot(s[1]), mul(mat(1, 0, 0, -1, 0, 0), rot(-s[1])))
    base = op.split("_")[0]
    c = s[-1]
    if c is None:
        c = (0, 0)
    elif not op.endswith("_pt"):
        c = (topt(c[0], us), topt(c[1], us))
    if base == "rotate":
        m = rot(s[1])
    elif base == "scale":
        m = mat(s[1], 0, 0, s[1] if s[2] is None else s[2], 0, 0)
    else:
        m = mul(rot(s[2]), mul(mat(1, s[1], 0, 1, 0, 0), rot(-s[2])))
    return about(m, c)


def args(unit, s):
    op = s[0]
    if op == "translate":
        return [tolen(unit, s[1]), tolen(unit, s[2])]
    if op in ("translate_pt", "mirror"):
        return list(s[1:])
    a = list(s[1:-1])
    if s[-1] is not None:
        c = s[-1]
        if op.startswith("rotate"):
            pass
        if not op.endswith("_pt"):
            c = (tolen(unit, c[0]), tolen(unit, c[1]))
        a += list(c)
    return a


def build(trafo, unit, s):
    if s[0] in ("trafo", "trafo_pt"):
        return getattr(trafo, s[0])(matrix=((s[1], s[2]), (s[3], s[4])), vector=(s[5], s[6]))
    return getattr(trafo, s[0])(*args(unit, s))


METHOD = dict(rotate="rotated", scale="scaled", slant="slanted", mirror="mirrored", translate="translated")


def method(t, unit, s):
    base = s[0].split("_")[0]
    name = METHOD[base] + ("_pt" if s[0].endswith("_pt") else "")
    return getattr(t, name)(*args(unit, s))


def same(t, m, what):
    size = max(1, max(abs(v) for r in m for v in r))
    tol = 1e-9 * size
    got = [t.matrix[0][0], t.matrix[0][1], t.matrix[1][0], t.matrix[1][1], t.vector[0], t.vector[1]]
    want = [m[0][0], m[0][1], m[1][0], m[1][1], m[0][2], m[1][2]]
    # observable behaviour: the images of three points
    for p in ((0, 0), (1, 0), (0, 1), (7.5, -3)):
        close(t.apply_pt(*p), app(m, p), tol * 20, "%s: image of %r", what, p)
    return got, want


def check(c, ctx):
    from pyx import trafo, unit
    us = c["uscale"]
    unit.set(uscale=us, vscale=1, wscale=1, xscale=1, defaultunit="cm")
    try:
        m = mat(1, 0, 0, 1, 0, 0)
        t = trafo.identity
        if c["start"] is not None:
            t, m = build(trafo, unit, c["start"]), model(c["start"], us)
            same(t, m, c["start"][0])
        tm = t
        for s in c["steps"]:
            single = build(trafo, unit, s)
            same(single, model(s, us), "%s%r" % (s[0], s[1:]))
            before = tm.apply_pt(3, 4)
            tm2 = method(tm, unit, s)
            ensure(tm.apply_pt(3, 4) == before, "a method changed its transformation")
            tm = tm2
            t = single * t
            m = mul(model(s, us), m)
        same(t, m, "product")
        same(tm, m, "method chain")
        o, mo = build(trafo, unit, c["other"]), model(c["other"], us)
        same(t * o, mul(m, mo), "t*o")
        same(o * t, mul(mo, m), "o*t")
        size = max(1, max(abs(v) for r in m for v in r))
        det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
        inv = t.inverse()
        imat = mat(m[1][1] / det, -m[0][1] / det, -m[1][0] / det, m[0][0] / det, 0, 0)
        isize = max(1, max(abs(v) for r in imat for v in r))
        for p in c["pts"]:
            q = t.apply_pt(*p)
            close(q, app(m, p), 1e-9 * size * (1 + abs(p[0]) + abs(p[1])), "apply_pt(%r)", p)
            close(inv.apply_pt(*q), p, 1e-9 * isize * size * (1 + abs(p[0]) + abs(p[1])), "inverse after apply, det %g", det)
            q2 = inv.apply_pt(*p)
            close(t.apply_pt(*q2), p, 1e-9 * isize * size * size * (1 + abs(p[0]) + abs(p[1])), "apply after inverse")
            x, y = t.apply(p[0], p[1])
            k = PT["cm"] * us
            want = app(m, (p[0] * k, p[1] * k))
            unit.set(uscale=us)
            close((unit.topt(x), unit.topt(y)), want, 1e-9 * size * (1 + k * (abs(p[0]) + abs(p[1]))), "apply in units")
            x, y = t.apply(p[0] * unit.t_mm, p[1] * unit.inch)
            want = app(m, (p[0] * PT["mm"], p[1] * PT["inch"] * us))
            close((unit.topt(x), unit.topt(y)), want, 1e-9 * size * 300 * (1 + abs(p[0]) + abs(p[1])), "apply to lengths")
        nonid = [s for s in c["steps"] if any(abs(a - b) > 1e-6 for r, q in zip(model(s, us), mat(1, 0, 0, 1, 0, 0)) for a, b in zip(r, q))]
        ctx.nontrivial(len(nonid) >= 2)
        ctx.label("with_centre", any(s[0].split("_")[0] in ("rotate", "scale", "slant") and s[-1] is not None for s in c["steps"]))
    finally:
        unit.set(uscale=1)


NUM = r"([-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?)"


def check_ser(c, ctx):
    "what the three writers receive is the transformation"
    from pyx import trafo, unit
    unit.set(uscale=1)
    t = trafo.identity
    m = mat(1, 0, 0, 1, 0, 0)
    for s in ([c["start"]] if c["start"] else []) + list(c["steps"]):
        t = build(trafo, unit, s) * t
        m = mul(model(s, 1), m)
    want = [m[0][0], m[1][0], m[0][1], m[1][1], m[0][2], m[1][2]]
    tol = 6e-7 + 1e-9 * max(abs(v) for v in want)
    f = io.StringIO()
    t.processPS(f, None, None, None)
    g = re.fullmatch(r"\s*\[\s*" + r"\s+".join([NUM] * 6) + r"\s*\]\s*concat\s*", f.getvalue())
    ensure(g, "PS: %r", f.getvalue())
    close([float(v) for v in g.groups()], want, tol, "PS matrix")
    f = io.StringIO()
    t.processPDF(f, None, None, None)
    g = re.fullmatch(r"\s*" + r"\s+".join([NUM] * 6) + r"\s*cm\s*", f.getvalue())
    ensure(g, "PDF: %r", f.getvalue())
    close([float(v) for v in g.groups()], want, tol, "PDF matrix")
    attrs = {}
    t.processSVGattrs(attrs, None, None, None)
    g = re.fullmatch(r"\s*matrix\(\s*" + r"[\s,]+".join([NUM] * 6) + r"\s*\)\s*", attrs["transform"])
    ensure(g, "SVG: %r", attrs)
    flip = [m[0][0], -m[1][0], -m[0][1], m[1][1], m[0][2], -m[1][2]]   # y axis points down
    close([float(v) for v in g.groups()], flip, tol, "SVG matrix")
    g = re.fullmatch(r"\[" + r"\s+".join([NUM] * 6) + r"\]", str(t))
    ensure(g, "str: %r", str(t))
    close([float(v) for v in g.groups()], want, tol, "str")
    ctx.nontrivial(len(c["steps"]) >= 2)


half = st.tuples(st.sampled_from(["rotate", "rotate_pt", "scale", "scale_pt"]), factor, coord, st.booleans())


def check_half(c, ctx):
    "only one centre coordinate is rejected by the module's own exception"
    from pyx import trafo
    name, a, v, isx = c
    try:
        getattr(trafo, name)(a, **({"x": v} if isx else {"y": v}))
    except Exception as e:
        ensure(type(e).__name__ == "TrafoException", "rejected by %r", e)
    else:
        fail("%s accepted only one centre coordinate", name)
    ctx.nontrivial()


SUBS = [Sub("algebra", case, check, quick=4000, thorough=80000),
        Sub("serialise", case, check_ser, quick=1500, thorough=30000),
        Sub("centre", half, check_half, quick=60, thorough=200, shards=1)]
