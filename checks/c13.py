"""C13 pages are placed on the paper as requested"""
import io, logging, math, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import ps, svg, pdf, prog, heads
from lib.gfx import mul, ID, app
from lib.gen import real
from checks.c11 import npath

PROP = "C13"
RULE = ("documents of one to three pages with random paper formats, rotation, centring, fitting, margins and bounding boxes around random canvas programs; "
        "the page transformation is predicted from the canvas' box and every painting operation read back from PS, PDF, EPS and SVG is compared with the "
        "own evaluation under that transformation, as are page boxes, page count and page labels; non-trivial: a rotated or fitted page")

FORMATS = {"A5": (148.5, 210), "A4": (210, 297), "A3": (297, 420), "A0": (840, 1188), "Letter": (215.9, 279.4), "Legal": (215.9, 355.6)}


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


def pagetrafo(pg, box):
    W, H = pg["size"]
    if pg["size"] is None:
        return ID
    bx, by = (box[0] + box[2]) / 2, (box[1] + box[3]) / 2
    bw, bh = box[2] - box[0], box[3] - box[1]
    t = (0, 1, -1, 0, W, 0) if pg["rotated"] else ID
    if pg["centered"] or pg["fit"]:
        x, y = app(t, (bx, by))
        t = mul(t, (1, 0, 0, 1, W / 2 - x, H / 2 - y))
    if pg["fit"]:
        if pg["rotated"]:
            bw, bh = bh, bw
        s = min((W - 2 * pg["margin"]) / bw, (H - 2 * pg["margin"]) / bh)
        t = mul(t, (s, 0, 0, s, W / 2 * (1 - s), H / 2 * (1 - s)))
    return t


def makepage(pg):
    from pyx import document, unit, bbox
    c = prog.build(pg["node"])
    f = pg["format"]
    kw = {}
    if f is None:
        pg["size"] = None
    elif isinstance(f, str):
        kw["paperformat"] = getattr(document.paperformat, f)
        pg["size"] = [v / 25.4 * 72 for v in FORMATS[f]]
    else:
        kw["paperformat"] = document.paperformat(f[0] * unit.t_pt, f[1] * unit.t_pt, "Own")
        pg["size"] = list(f)
    if pg["margin"] is not None:
        kw["margin"] = pg["margin"] * unit.t_pt
    else:
        pg["margin"] = 72 / 2.54
    if pg["size"] and 2 * pg["margin"] >= min(pg["size"]):
        pg["margin"] = 10
        kw["margin"] = 10 * unit.t_pt
    if pg["enlarge"] is not None:
        kw["bboxenlarge"] = pg["enlarge"] * unit.t_pt
    if pg["box"]:
        kw["bbox"] = bbox.bbox_pt(*pg["box"])
    if pg["name"]:
        kw["pagename"] = pg["name"]
    if not c.bbox():
        raise Skip("nothing on the page")
    p = document.page(c, rotated=pg["rotated"], centered=pg["centered"], fittosize=pg["fit"], **kw)
    if pg["box"]:
        b = pg["box"]
    else:
        b = list(c.bbox().highrestuple_pt())
        e = 1 if pg["enlarge"] is None else pg["enlarge"]
        b = [b[0] - e, b[1] - e, b[2] + e, b[3] + e]
    if pg["fit"] and min(b[2] - b[0], b[3] - b[1]) < 1e-3:
        raise Skip("a box without area cannot be fitted")
    t = pagetrafo(pg, b) if pg["size"] else ID
    if max(abs(v) for v in t[:4]) > 200 or max(map(abs, b)) > 5000:
        raise Skip("extreme magnification")
    s = prog.State()
    s.ctm = t
    want = []
    prog.mcanvas(pg["node"]).run(s, want)
    if not want:
        raise Skip("nothing is painted")
    for w in want:
        prog.usable(w)
    q = [app(t, (x, y)) for x in b[::2] for y in b[1::2]]
    pb = [min(x for x, y in q), min(y for x, y in q), max(x for x, y in q), max(y for x, y in q)]
    return p, want, pb


def check(case, ctx):
    from pyx import document
    import copy
    pgs = copy.deepcopy(case["pages"])
    made = [makepage(pg) for pg in pgs]
    d = document.document([m[0] for m in made[:1]])
    for m in made[1:]:
        d.append(m[0])
    ctx.nontrivial(any(pg["size"] and (pg["rotated"] or pg["fit"]) for pg in pgs))
    for pg in pgs:
        ctx.label("rotated", bool(pg["size"] and pg["rotated"]))
        ctx.label("fitted", bool(pg["size"] and pg["fit"]))
    ctx.label("%d pages" % len(pgs))
    f = io.BytesIO()
    d.writePDFfile(f, writebbox=case["writebbox"])
    P = pdf.PDF(f.getvalue())
    ensure(len(P.pages) == len(pgs), "PDF with %d pages, expected %d", len(P.pages), len(pgs))
    for k, (pg, (p, want, pb), x) in enumerate(zip(pgs, made, P.pages)):
        if pg["size"]:
            close([float(v) for v in P.get(x["MediaBox"])], [0, 0] + pg["size"], 1e-3, "MediaBox of page %d", k)
            ensure(P.get(x.get("Rotate", 0)) % 180 == (90 if pg["rotated"] else 0), "page %d: /Rotate %r", k, x.get("Rotate"))
        if case["writebbox"]:
            cb = [float(v) for v in P.get(x["CropBox"])]
            ensure(cb[0] <= pb[0] + 1e-3 and cb[1] <= pb[1] + 1e-3 and cb[2] >= pb[2] - 1e-3 and cb[3] >= pb[3] - 1e-3, "page %d: CropBox %r, expected %r", k, cb, pb)
            if pg["box"]:
                close(cb, pb, 1e-3, "page %d: CropBox", k)
        prog.same(want, P.interpret(x).out, "PDF page %d" % (k + 1), npath=npath(pg["node"]))
    f = io.BytesIO()
    d.writePSfile(f, writebbox=case["writebbox"])
    i = ps.interpret(f.getvalue())
    ensure(len(i.pages) == len(pgs) and not i.out, "PS with %d pages, expected %d", len(i.pages), len(pgs))
    for k, (pg, (p, want, pb)) in enumerate(zip(pgs, made)):
        prog.same(want, i.pages[k], "PS page %d" % (k + 1), npath=npath(pg["node"]))
    h = heads.dsc(f.getvalue())
    ensure([v for k, v in h if k == "Pages"] == [str(len(pgs))], "%%Pages %r", [v for k, v in h if k == "Pages"])
    labels = [v.split() for k, v in h if k == "Page"]
    ensure(labels == [[pg["name"] or str(k + 1), str(k + 1)] for k, pg in enumerate(pgs)], "%%Page %r", labels)
    ensure([v for k, v in h if k == "PageOrientation"] == ["Landscape" if pg["rotated"] else "Portrait" for pg in pgs], "PageOrientation")
    if case["writebbox"]:
        for k, (v, (p, want, pb)) in enumerate(zip([v for k, v in h if k == "PageBoundingBox"], made)):
            b = heads.numbers(v, 4)
            ensure(b[0] <= pb[0] + 1e-3 and b[1] <= pb[1] + 1e-3 and b[2] >= pb[2] - 1e-3 and b[3] >= pb[3] - 1e-3, "page %d: PageBoundingBox %r, expected %r", k, b, pb)
            if pgs[k]["box"]:
                close(b, pb, 1.001, "page %d: PageBoundingBox", k)
    if len(pgs) == 1:
        pg, (p, want, pb) = pgs[0], made[0]
        f = io.BytesIO()
        d.writeEPSfile(f)
        i = ps.interpret(f.getvalue())
        prog.same(want, [x for q in i.pages for x in q] + i.out, "EPS", npath=npath(pg["node"]))
        lo, hi = heads.epsbox(f.getvalue())
        ensure(hi[0] <= pb[0] + .01 and hi[1] <= pb[1] + .01 and hi[2] >= pb[2] - .01 and hi[3] >= pb[3] - .01, "EPS HiResBoundingBox %r, expected %r", hi, pb)
        if pg["box"]:
            close(hi, pb, 1e-3 * max(map(abs, pb)) + .01, "EPS HiResBoundingBox")
            close(lo, pb, 1.001, "EPS BoundingBox")
        f = io.BytesIO()
        d.writeSVGfile(f)
        prog.same(want, svg.Doc(f.getvalue()).out, "SVG", svg=True, npath=npath(pg["node"]))


page = st.fixed_dictionaries(dict(
    node=st.fixed_dictionaries(dict(attrs=prog.canvasattrs(), items=st.lists(st.tuples(st.sampled_from(["stroke", "fill"]), prog.path_strategy(3),
         st.lists(prog.styles(), max_size=2)).map(list), min_size=1, max_size=2))),
    format=st.one_of(st.none(), st.sampled_from(sorted(FORMATS)), st.tuples(st.integers(100, 900), st.integers(100, 900)).map(list)),
    rotated=st.booleans(), centered=st.booleans(), fit=st.booleans(), margin=st.one_of(st.none(), st.integers(0, 40)),
    enlarge=st.sampled_from([None, None, 0.5, 5, 20]), box=st.one_of(st.none(), st.none(), st.none(), st.sampled_from([[0, 0, 100, 50], [-30, 20, 40, 300]])),
    name=st.sampled_from([None, None, "iv", "front"])))
strategy = st.fixed_dictionaries(dict(pages=st.lists(page, min_size=1, max_size=3), writebbox=st.booleans()))
one = st.fixed_dictionaries(dict(pages=st.lists(page, min_size=1, max_size=1), writebbox=st.booleans()))
SUBS = [Sub("document", strategy, check, quick=300, thorough=8000), Sub("page", one, check, quick=500, thorough=12000)]
