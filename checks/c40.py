"""C40 real roots of polynomials"""
import math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib.gen import real

PROP = "C40"
RULE = ("polynomials up to degree four built from real roots (simple and multiple) and complex pairs, scaled, with leading "
        "zeros; every value returned has to be a root, every simple root has to be returned, once; non-trivial: degree at "
        "least three")

root = st.one_of(st.integers(-5, 5), real(-10, 10, 1), real(-10, 10, 3))
case = st.fixed_dictionaries(dict(roots=st.lists(root, max_size=4), pairs=st.lists(st.tuples(root, real(0.3, 5, 1)), max_size=2),
                                  k=st.one_of(st.sampled_from([1, -1, 2, 0.5]), real(-20, 20, 2)), zeros=st.integers(0, 2)))


def mul(p, q):
    r = [0.0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def check(c, ctx):
    from pyx.mathutils import realpolyroots
    rs, pairs = list(c["roots"]), list(c["pairs"])
    while len(rs) + 2 * len(pairs) > 4:
        if pairs and len(rs) < 3:
            pairs.pop()
        else:
            rs.pop()
    k = c["k"]
    if abs(k) < 0.01:
        raise Skip
    p = [float(k)]
    for r in rs:
        p = mul(p, [1.0, -float(r)])
    for a, b in pairs:
        p = mul(p, [1.0, -2.0 * a, float(a * a + b * b)])
    got = realpolyroots(*([0] * c["zeros"] + p))
    # clusters of roots which are too close to be told apart
    distinct = sorted(set(rs))
    for a, b in zip(distinct, distinct[1:]):
        if b - a < 0.3:
            raise Skip
    tol = 2e-3 if len(distinct) < len(rs) or pairs else 1e-5
    for g in got:
        ensure(any(abs(g - w) < tol * 10 for w in distinct), "%r is not a root of %r (real roots %r)", g, p, distinct)
    for w in distinct:
        n = sum(1 for g in got if abs(g - w) < tol)
        if rs.count(w) == 1:
            ensure(n == 1, "the simple root %r of %r (real roots %r, complex %r) is returned %d times: %r", w, p, rs, pairs, n, got)
        elif rs.count(w) == 3:
            ensure(any(abs(g - w) < 0.05 for g in got), "the triple root %r of %r is missing: %r", w, p, got)
    ctx.nontrivial(len(p) >= 4)
    ctx.label("degree%d" % (len(p) - 1))
    ctx.label("multiple", len(distinct) < len(rs))


def check_close(c, ctx):
    "up to degree three also roots close to each other are told apart"
    from pyx.mathutils import realpolyroots
    r0, gap, r2, k, quad = c
    ws = sorted({r0, r0 + gap} if quad else {r0, r0 + gap, r2})
    seps = [b - a for a, b in zip(ws, ws[1:])]
    scale = max(abs(w) for w in ws) + 1e-3
    if len(ws) < (2 if quad else 3) or min(seps) < 3e-4 * scale or abs(k) < 0.01:
        raise Skip
    p = [float(k)]
    for r in ws:
        p = mul(p, [1.0, -r])
    got = sorted(realpolyroots(*p))
    tol = 1e-9 * scale * scale / min(seps) + 1e-12
    ensure(len(got) == len(ws) and all(abs(a - b) < tol for a, b in zip(got, ws)), "roots of %r: %r, expected %r (tol %g)", p, got, ws, tol)
    ctx.nontrivial(not quad)
    ctx.label("relative gap below 0.02", min(seps) < 0.02 * scale)


SUBS = [Sub("close", st.tuples(real(-10, 10, 3), real(0.001, 1, 3), real(-10, 10, 3), real(-5, 5, 2), st.booleans()), check_close, quick=6000, thorough=100000),
        Sub("roots", case, check, quick=12000, thorough=300000)]
