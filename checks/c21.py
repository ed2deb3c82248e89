"""C21 an included SVG file shows the graphics of the file at the requested place and size"""
import io, logging, os, tempfile, re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import svgin, prog, svg, refpath as R
from lib.gfx import mul, app
from checks.c11 import eps, pdfl, svgl

PROP = "C21"
RULE = ("random SVG documents (all path commands, shapes, transformations, units, viewBox, nested groups with inherited styles, many spellings) are read by "
        "svgfile at a random place, size and resolution and compared with an own evaluation of the document; non-trivial: more than one "
        "painting operation, a group, a transformation or a viewBox")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


def svgfile(case, text, **kw):
    from pyx import svgfile, unit
    x, y, w, h, ratio = case["place"]
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "in.svg")
        with open(fn, "wb") as f:
            f.write(text.encode("utf-8"))
        if case["pt"]:
            yield svgfile.svgfile_pt(x, y, fn, width_pt=w, height_pt=h, ratio=ratio, resolution=case["res"], **kw)
        else:
            yield svgfile.svgfile(x * unit.t_pt, y * unit.t_pt, fn, width=w if w is None else w * unit.t_pt, height=h if h is None else h * unit.t_pt, ratio=ratio,
                                  resolution=case["res"], **kw)


def walk(items):
    for i in items:
        yield i
        if i[0] == "g":
            yield from walk(i[2])


def boxcheck(b, want, what):
    got = (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
    big = max(1, *[abs(v) for v in want])
    ensure(all(abs(a - c) < 1e-6 * big for a, c in zip(got, want)), "%s: bounding box %r, expected %r", what, got, want)


def asrgb(items):
    "PyX writes black as a grey"
    return [dict(i, color=("rgb",) + (i["color"][1],) * 3) if i["color"][0] == "gray" else i for i in items]


def number(node):
    return max([sum(max(1, len(c[1])) for c in i[1]["d"]) for i in walk(node) if i[0] == "path"] + [1])


def parsed(case, ctx):
    from pyx import canvas
    d = case["doc"]
    for i in walk(d["items"]):
        if i[0] == "path" and svgin.arcborderline(i[1]["d"]):
            raise Skip("elliptical arc of borderline geometry")
    want, box = svgin.evaluate(d, case["res"], case["place"])
    want = [w for w in want if any(l > prog.EPS for l in prog.lengths(w))]
    for w in want:
        prog.usable(w)
    if not prog.ink(want):
        raise Skip("nothing is painted")
    text = svgin.Writer(case["fmt"]).doc(d)
    ctx.nontrivial(len(want) > 1 or d["viewBox"] is not None or any(i[0] == "g" or "transform" in i[2] for i in walk(d["items"])))
    ctx.label("viewBox", d["viewBox"] is not None)
    ctx.label("operations", len(want))
    for s in svgfile(case, text, parsed=True):
        boxcheck(s.bbox(), box, "parsed")
        c = canvas.canvas()
        c.insert(s)
        n = 6 + number(d["items"])
        empty = not c.bbox()
        if not d["viewBox"] or not outside(want):
            ensure(not empty, "nothing is drawn")
            prog.same(want, asrgb(eps(c)), "EPS", npath=n)
            prog.same(want, asrgb(pdfl(c)), "PDF", npath=n)
            prog.same(want, svgl(c), "SVG", svg=True, npath=n)
        else:
            ctx.label("clipped away")


def outside(want):
    "everything painted lies outside of the viewBox"
    return prog.inkbox(want) is None


SVGNS = "{http://www.w3.org/2000/svg}"


def tree(e):
    return (e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [tree(c) for c in e])


def unparsed(case, ctx):
    from pyx import canvas
    d = dict(case["doc"])
    if d["width"] is None:
        d["width"], d["height"] = "100%", "100%"
    case = dict(case, res=96 if not isinstance(d["width"], str) and (d["width"][1] not in ("", "px") or d["height"][1] not in ("", "px")) else case["res"])
    want, box = svgin.evaluate(d, case["res"], case["place"])
    text = svgin.Writer(case["fmt"]).doc(d)
    ctx.nontrivial(case["place"][2] is not None or case["place"][3] is not None or d["viewBox"] is not None)
    for s in svgfile(case, text):
        boxcheck(s.bbox(), box, "not parsed")
        c = canvas.canvas()
        c.insert(s)
        f = io.BytesIO()
        c.writeSVGfile(f, page_bboxenlarge=0)
        root = ET.fromstring(f.getvalue())
        v = [float(x) for x in root.attrib["viewBox"].replace(",", " ").split()]
        want = (box[0], -box[3], box[2] - box[0], box[3] - box[1])
        ensure(all(abs(a - b) < 1e-4 * max(1, abs(b)) for a, b in zip(v, want)), "viewBox %r of the output, expected %r", v, want)
        inner = []

        def find(e, m):
            if e.tag == SVGNS + "svg" and e is not root:
                inner.append((e, m))
                return
            if "transform" in e.attrib:
                m = mul(svg.transform(e.attrib["transform"]), m)
            for ch in e:
                find(ch, m)
        find(root, (1, 0, 0, -1, 0, 0))
        ensure(len(inner) == 1, "%d inner svg elements", len(inner))
        e, m = inner[0]
        ensure(tree(e) == tree(ET.fromstring(text.encode())), "the included file was changed")
        if isinstance(d["width"], str):
            return  # the size of percentages depends on the surrounding viewport
        w, h = [svgin.topx(l, 96) for l in (d["width"], d["height"])]
        for p, q in (((0, 0), (box[0], box[3])), ((w, 0), (box[2], box[3])), ((0, h), (box[0], box[1]))):
            g = app(m, p)
            ensure(max(abs(g[0] - q[0]), abs(g[1] - q[1])) < 1e-3 * (1 + max(abs(x) for x in box)) + 1e-4 * (w + h), "corner at %r, expected %r", g, q)
        for f in (c.writeEPSfile, c.writePDFfile):
            try:
                f(io.BytesIO())
            except ValueError:
                pass
            else:
                fail("an SVG file which is not parsed was written by %s", f.__name__)


size = st.integers(20, 300)
place = st.tuples(st.integers(-50, 200), st.integers(-50, 200)).flatmap(lambda xy: st.one_of(
    st.just([*xy, None, None, None]),
    size.map(lambda w: [*xy, w, None, None]), size.map(lambda h: [*xy, None, h, None]),
    st.tuples(size, size).map(lambda s: [*xy, *s, None]),
    st.tuples(size, st.sampled_from([.5, 1, 2])).map(lambda s: [*xy, s[0], None, s[1]]),
    st.tuples(size, st.sampled_from([.5, 1, 2])).map(lambda s: [*xy, None, s[0], s[1]])))


def cases(doc):
    return st.fixed_dictionaries(dict(doc=doc, place=place, res=st.sampled_from([96, 96, 72, 90, 120]), fmt=st.integers(0, 50), pt=st.booleans()))


single = st.fixed_dictionaries(dict(width=st.just([100, ""]), height=st.just([100, ""]), viewBox=st.none(), attrs=st.just({}), items=st.lists(svgin.shapes(), min_size=1, max_size=1)))
SUBS += [Sub("document", cases(svgin.documents()), parsed, quick=500, thorough=20000),
         Sub("shape", st.fixed_dictionaries(dict(doc=single, place=st.just([0, 0, None, None, None]), res=st.sampled_from([72, 96]), fmt=st.integers(0, 50), pt=st.just(True))),
             parsed, quick=900, thorough=30000),
         Sub("unparsed", cases(svgin.documents()), unparsed, quick=300, thorough=6000)]
