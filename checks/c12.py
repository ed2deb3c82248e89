"""C12 the bounding boxes in the output cover everything painted"""
import io, logging, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import ps, svg, pdf, prog, heads
from checks.c11 import walk

PROP = "C12"
RULE = ("random canvas programs; the smallest box around everything painted (half the line width around strokes, within the clipping boxes) is computed "
        "from an own evaluation and must lie inside the boxes stated in EPS, PS, PDF and SVG output; without rotations and clippings the boxes must also be "
        "no larger than the enlarged geometry; non-trivial: two painting operations, a transformation or a clipping")


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


def covers(b, ink, e, what):
    ensure(b[0] <= ink[0] + e and b[1] <= ink[1] + e and b[2] >= ink[2] - e and b[3] >= ink[3] - e, "%s %r does not cover %r", what, b, ink)


def check(case, ctx):
    node, be = case["node"], case["enlarge"]
    want = prog.model(node)
    for w in want:
        prog.usable(w)
    geo = prog.inkbox(prog.geometry(node))
    if not want or geo is None:
        raise Skip("nothing is painted")
    from pyx import unit, document, bbox
    c = prog.build(node)
    cb = c.bbox()
    ensure(bool(cb), "the canvas has no bounding box, but %r is painted", geo)
    cb = cb.highrestuple_pt()
    ink = prog.inkbox(want)
    if ink is None:
        raise Skip("nothing is painted inside of the clipping")
    e = 1e-6 * max(abs(v) for v in geo + ink) + 1e-3
    e6 = e + 1e-5 * max(abs(v) for v in cb)                 # six significant digits in %g
    covers(cb, geo, e, "canvas.bbox()")
    tight = prog.axisaligned(node)
    if tight:
        full = prog.inkbox(prog.geometry(node), points=True)
        covers(full, cb, 2 * e + 0.02, "the area of all paths")
        limit = prog.union([full[0] - be, full[1] - be, full[2] + be, full[3] + be], prog.inkbox(want, points=True))
    ctx.nontrivial(len(want) > 1 or any(tuple(w["ctm"]) != (1, 0, 0, 1, 0, 0) or w["clips"] for w in want))
    ctx.label("tight", tight)
    ctx.label("clipped", any(w["clips"] for w in want))
    need = prog.union(ink, [geo[0] - be, geo[1] - be, geo[2] + be, geo[3] + be])
    manual = case["manual"]
    kw = dict(page_bboxenlarge=be * unit.t_pt)
    if manual:
        kw["page_bbox"] = bbox.bbox_pt(*manual)
        need = limit = manual
        tight = True
        be = 0

    def judge(b, what, slack=0.0):
        ensure(b[0] <= b[2] and b[1] <= b[3], "%s %r", what, b)
        covers(b, need, e6, what)
        if tight:
            t = e6 + slack + 0.02
            ensure(b[0] >= limit[0] - t and b[1] >= limit[1] - t and b[2] <= limit[2] + t and b[3] <= limit[3] + t, "%s %r is larger than %r", what, b, limit)

    f = io.BytesIO()
    c.writeEPSfile(f, **kw)
    lo, hi = heads.epsbox(f.getvalue())
    ensure(all(v.is_integer() for v in lo), "BoundingBox %r", lo)
    judge(lo, "EPS BoundingBox", 1)
    judge(hi, "EPS HiResBoundingBox")
    f = io.BytesIO()
    c.writePDFfile(f, **kw)
    p = pdf.PDF(f.getvalue())
    judge([float(v) for v in p.get(p.pages[0]["MediaBox"])], "PDF MediaBox")
    f = io.BytesIO()
    c.writePSfile(f, write_writebbox=True, **kw)
    d = dict(heads.dsc(f.getvalue()))
    judge(heads.numbers(d["PageBoundingBox"], 4), "PS PageBoundingBox", 1)
    judge(heads.numbers(d["BoundingBox"], 4), "PS BoundingBox", 1)
    f = io.BytesIO()
    c.writeSVGfile(f, **kw)
    s = svg.Doc(f.getvalue())
    x, y, w, h = s.viewbox
    judge([x, -y - h, x + w, -y], "SVG viewBox", 2e-5 * (abs(x) + abs(y) + w + h))
    r = s.root.attrib
    for k, v in (("width", w), ("height", h)):
        ensure(r[k].endswith("pt") and abs(float(r[k][:-2]) - v) < 1e-5 * v + 1e-4, "SVG %s %r for a viewBox of %r", k, r[k], v)


strategy = st.fixed_dictionaries(dict(node=prog.nodes(), enlarge=st.sampled_from([1, 0, 0, 7.5]),
                                      manual=st.one_of(st.none(), st.none(), st.none(), st.sampled_from([[-3, -4, 50.25, 60.5], [10, 10, 20, 300]]))))
simple = st.fixed_dictionaries(dict(enlarge=st.sampled_from([0, 0, 1]), manual=st.none(), node=st.fixed_dictionaries(dict(
    attrs=st.lists(st.one_of(prog.styles(), prog.trafo_strategy()), max_size=2), items=st.lists(st.tuples(
        st.sampled_from(["draw", "stroke", "fill"]), prog.path_strategy(3), prog.drawattrs()).map(list), min_size=1, max_size=2)))))
SUBS = [Sub("program", strategy, check, quick=500, thorough=12000), Sub("single", simple, check, quick=500, thorough=12000)]
