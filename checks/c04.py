"""C04 the PostScript, PDF and SVG forms of a path all denote the same curve"""
import io
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close
from lib import refpath as R, ps, svg, pdfpath
from lib.gen import real, angle

PROP = "C04"
RULE = ("random paths with all elements; the PostScript operators, PDF operators and SVG path data written for the path, "
        "its normpath and a transformed, reversed or split normpath are each parsed by an independent interpreter and "
        "compared by arc-length sampling with the reference geometry; non-trivial: at least two drawing elements one of which is not a line")

case = st.fixed_dictionaries(dict(items=R.items_strategy(maxlen=9), invert=st.booleans(),
                                  big=st.sampled_from([1, 1, 1, 10, 0.1])))


def flip(subs, inv):
    if not inv:
        return subs
    from lib.gfx import tsubs
    return tsubs(subs, (1, 0, 0, -1, 0, 0))


def forms(p, inv):
    f = io.StringIO()
    p.outputPS(f, None)
    i = ps.new("newpath " + f.getvalue())
    i.run()
    ensure(not i.st, "PostScript leaves operands: %r", i.st)
    yield "PS", i.gs.path.subs
    f = io.StringIO()
    p.outputPDF(f, None)
    yield "PDF", pdfpath.pathops(f.getvalue())
    d = p.returnSVGdata(inverse_y=inv)
    yield "SVG", flip(svg.pathdata(d), inv)


def scaled(items, k):
    out = []
    for it in items:
        op, a = it[0], it[1:]
        if op in ("arc", "arcn"):
            out.append([op] + [v * k for v in a[:3]] + a[3:])
        elif op in ("ml", "mc"):
            out.append([op, [[v * k for v in p] for p in a[0]]])
        else:
            out.append([op] + [v * k for v in a])
    return out


def check(c, ctx):
    items = scaled(c["items"], c["big"])
    p = R.build(items)
    want = R.polys(R.interpret(items))
    # six significant digits, accumulating over relative elements
    tol = (2e-5 + 1.2e-5 * len(items)) * R.extent(want) + 1e-4
    # the centre of an SVG arc follows from its rounded end points: ill-conditioned around 180 degrees
    import math
    disp = 0
    delta = (1e-5 + 6e-6 * len(items)) * R.extent(want)
    for sp in R.interpret(items):
        for g in sp.segs:
            if isinstance(g, R.Arc):
                sw = abs(g.a2 - g.a1)
                for n in (1, 2, 3):
                    if sw / n < 360:
                        k = abs(math.cos(math.radians(sw / n / 2)))
                        disp = max(disp, min(delta / max(k, 1e-9), math.sqrt(2 * g.r * delta) + delta))
    for name, subs in forms(p, c["invert"]):
        R.compare(want, R.polys(subs), tol + (2 * disp if name == "SVG" else 0), "%s of the path" % name, fail=fail)
    n = p.normpath()
    for name, subs in forms(n, c["invert"]):
        R.compare(want, R.polys(subs), tol, "%s of the normpath" % name, fail=fail)
    d = [i for i in items if i[0] not in ("M", "m", "Z")]
    ctx.nontrivial(len(d) >= 2 and any(i[0] not in ("L", "ml", "l") for i in d))
    for k in ("arc", "arcn", "arct", "Z", "c", "mc"):
        ctx.label(k, any(i[0] == k for i in items))
    ctx.label("subpaths", len(want) > 1)


tcase = st.fixed_dictionaries(dict(items=R.items_strategy(maxlen=5), invert=st.booleans(),
                                   a=st.tuples(real(0.3, 2, 2), real(-1, 1, 2), real(-1, 1, 2), real(0.3, 2, 2)).filter(lambda t: abs(t[0] * t[3] - t[1] * t[2]) > 0.05),
                                   v=st.tuples(real(-50, 50, 1), real(-50, 50, 1)), rev=st.booleans()))


def check_t(c, ctx):
    "transformed normpaths"
    from pyx import trafo
    from lib.gfx import tsubs
    items = c["items"]
    a, b, cc, d = c["a"]
    t = trafo.trafo_pt(matrix=((a, b), (cc, d)), vector=tuple(c["v"]))
    n = R.build(items).transformed(t)
    want = R.polys(tsubs(R.interpret(items), (a, cc, b, d, c["v"][0], c["v"][1])))
    tol = 3e-5 * R.extent(want) + 1e-4
    for name, subs in forms(n, c["invert"]):
        R.compare(want, R.polys(subs), tol, "%s of the transformed path" % name, fail=fail)
    for name, subs in forms(n.path(), c["invert"]):
        R.compare(want, R.polys(subs), tol, "%s of the transformed path (as path)" % name, fail=fail)
    ctx.nontrivial(any(i[0] not in ("M", "m", "Z") for i in items))


mag = st.integers(-9, 7).flatmap(lambda e: real(1, 9.99, 2).map(lambda v: v * 10.0 ** e))
mcase = st.lists(st.tuples(mag, mag, mag, mag, mag, mag), min_size=1, max_size=3)


def check_mag(c, ctx):
    "numbers of any magnitude are written in the number syntax of the format with six significant digits (PS, SVG)"
    from pyx import path
    its = [["M", 0, 0]] + [["C"] + list(v) for v in c] + [["L", c[0][0], c[0][1]]]
    p = R.build(its)
    want = [v for it in its for v in it[1:]]
    f = io.StringIO()
    p.outputPS(f, None)
    got = [float(t) for t in f.getvalue().split() if not t[0].isalpha()]
    import re
    got2 = [float(t) for t in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", p.returnSVGdata(inverse_y=False))]
    for what, g in (("PS", got), ("SVG", got2)):
        ensure(len(g) == len(want), "%s: %d numbers, expected %d", what, len(g), len(want))
        for x, y in zip(g, want):
            close(x, y, 6e-6 * abs(y), "%s number", what)
    f = io.StringIO()
    p.outputPDF(f, None)
    pdfpath.pathops(f.getvalue())
    g = [float(t) for t in f.getvalue().split() if not t[0].isalpha()]
    ensure(len(g) == len(want), "PDF: %d numbers, expected %d", len(g), len(want))
    for x, y in zip(g, want):
        close(x, y, 6e-6 * abs(y) + 6e-7, "PDF number")
    ctx.nontrivial(max(abs(v) for v in want) > 1e5 or min(abs(v) for v in want if v) < 1e-4)


SUBS = [Sub("path", case, check, quick=4000, thorough=100000),
        Sub("transformed", tcase, check_t, quick=1500, thorough=30000),
        Sub("magnitude", mcase, check_mag, quick=800, thorough=10000)]
