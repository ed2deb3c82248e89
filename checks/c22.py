"""C22 patterns and meshes paint what they were given in all output formats"""
import io, logging, math, os, re
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import ps, svg, pdf, prog
from lib import refpath as R
from lib.gfx import mul, app, inv, ID
from lib.gen import real

PROP = "C22"
RULE = ("random canvas programs filled with random patterns (cells of own drawings, steps, boxes, transformations) and random triangle meshes are written as EPS, PDF and SVG, "
        "and the pattern cells and triangles read back by independent interpreters; non-trivial: at least two fills, or at least two triangles")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


def eps(c):
    f = io.BytesIO()
    c.writeEPSfile(f)
    i = ps.interpret(f.getvalue())
    return i, [x for p in i.pages for x in p] + i.out


def pdfl(c, compress):
    f = io.BytesIO()
    c.writePDFfile(f, write_compress=compress)
    p = pdf.PDF(f.getvalue())
    return p, p.interpret(p.pages[0]).out


# ---- patterns -----------------------------------------------------------------------------------

def close(a, b, tol, what):
    ensure(len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b)), "%s: %r, expected %r", what, b, a)


def cellps(i, p):
    i.out, i.gs = [], ps.GState()
    n, g = len(i.st), len(i.gstack)
    i.st.append(dict(p))
    i.call(p["PaintProc"])
    ensure(len(i.st) == n and len(i.gstack) == g, "the pattern procedure does not leave the stacks as they were")
    return i.out


def cellsvg(doc, e):
    d = svg.Doc.__new__(svg.Doc)
    d.__dict__.update(doc.__dict__)
    d.out = []
    stl = dict(svg.INHERIT)
    for k, v in doc.root.attrib.items():
        if k in svg.INHERIT:
            stl[k] = v
    for ch in e:
        d.walk(ch, stl, (1, 0, 0, -1, 0, 0), [], 1.0)
    return d.out


def realpattern(p):
    from pyx import pattern, trafo, unit, bbox
    m = p["trafo"]
    kw = {}
    if p["step"]:
        kw["xstep"], kw["ystep"] = [v * unit.t_pt for v in p["step"]]
    if p["bbox"]:
        kw["bbox"] = bbox.bbox_pt(*p["bbox"])
    if p["enlarge"]:
        kw["bboxenlarge"] = p["enlarge"] * unit.t_pt
    if m:
        kw["trafo"] = trafo.trafo_pt(matrix=((m[0], m[2]), (m[1], m[3])), vector=(m[4], m[5]))
    r = pattern.pattern(1, p["tiling"], **(kw if not p["copy"] else {}), attrs=[prog.realattr(a) for a in p["node"]["attrs"]])
    r.verif_layers = []
    prog.fillcanvas(r, p["node"]["items"])
    if p["copy"]:
        r = r(**kw)
    return r


def checkpattern(case, ctx):
    pats = case["patterns"]
    cells = [prog.model(p["node"]) for p in pats]
    boxes = []
    for p, c in zip(pats, cells):
        for w in c:
            prog.usable(w)
        if not prog.ink(c):
            raise Skip("empty pattern cell")
        n = dict(attrs=[], items=[["canvas", p["node"], []]])
        b = prog.build(n)
        if not b.bbox():
            raise Skip("pattern clipped away")
        f = io.BytesIO()
        b.writeEPSfile(f, page_bboxenlarge=0)       # C12 checks this box
        b = [float(v) for v in re.search(rb"%%HiResBoundingBox: (.*)", f.getvalue()).group(1).split()]
        if min(b[2] - b[0], b[3] - b[1]) < 1:
            raise Skip("degenerate pattern cell")
        boxes.append(b)
    prog.PATTERNS[:] = [realpattern(p) for p in pats]
    want = prog.model(case["node"])
    for w in want:
        prog.usable(w)
    if not want:
        raise Skip("nothing is painted")
    c = prog.build(case["node"])
    used = sorted(set(w["color"][1] for w in want if w["color"][0] == "pat"))
    if not used:
        raise Skip("no pattern used")
    ctx.nontrivial(len(want) > 1)
    ctx.label("patterns", len(used))
    ctx.label("operations", len(want))
    ctx.label("colour between patterns", any(a["color"][0] == "pat" and b["color"][0] != "pat" and d["color"][0] == "pat" for a, b, d in zip(want, want[1:], want[2:])))

    def items(got, what):
        "compare the list of operations with the patterns replaced by their numbers; collect the patterns"
        ensure(len(got) == len(want), "%s paints %d times, expected %d", what, len(got), len(want))
        found = {}
        for k, (w, g) in enumerate(zip(want, got)):
            if w["color"][0] == "pat":
                ensure(g["color"][0] == "pattern", "%s: operation %d paints with %r, expected pattern %d", what, k, g["color"], w["color"][1])
                found.setdefault(w["color"][1], []).append(g["color"])
            else:
                ensure(g["color"][0] != "pattern", "%s: operation %d paints with a pattern, expected colour %r", what, k, w["color"])
        strip = lambda l, o: [dict(x, color=("rgb", 0, 0, 0)) if y["color"][0] == "pat" else x for x, y in zip(l, o)]
        prog.same(strip(want, want), strip(got, want), what, svg=what == "SVG", npath=12)
        return found

    def cell(k, got, what):
        prog.same(cells[k], got, "%s: cell of pattern %d" % (what, k), svg=what == "SVG", npath=12)

    def geometry(k, bbox, xs, ys, matrix, what):
        p, b = pats[k], boxes[k]
        step = p["step"] or ((b[2] - b[0], b[3] - b[1]) if not p["bbox"] else None)
        tol = 1e-4
        if step:
            close(step, (xs, ys), tol, "%s: steps of pattern %d" % (what, k))
        e = p["enlarge"] or 0
        close(p["bbox"] or (b[0] - e, b[1] - e, b[2] + e, b[3] + e), bbox, tol, "%s: box of pattern %d" % (what, k))
        close(p["trafo"] or ID, matrix, 2e-5, "%s: matrix of pattern %d" % (what, k))

    i, got = eps(c)
    for k, l in items(got, "EPS").items():
        for q in l:
            d = q[1]
            ensure((d["PatternType"], d["PaintType"], d["TilingType"]) == (1, 1, pats[k]["tiling"]), "EPS: types of pattern %d: %r", k,
                   (d["PatternType"], d["PaintType"], d["TilingType"]))
            geometry(k, d["BBox"], d["XStep"], d["YStep"], d["#matrix"], "EPS")
            close(ID, d["#ctm"], 1e-9, "coordinate system of the pattern")
        cell(k, cellps(i, l[0][1]), "EPS")
    p, got = pdfl(c, case["compress"])
    for k, l in items(got, "PDF").items():
        for q in l:
            s = q[1]
            d = s.dic
            ensure((str(d["Type"]), d["PatternType"], d["PaintType"], d["TilingType"]) == ("Pattern", 1, 1, pats[k]["tiling"]), "PDF: types of pattern %d", k)
            geometry(k, p.get(d["BBox"]), d["XStep"], d["YStep"], p.get(d["Matrix"]), "PDF")
            close(ID, q[3], 1e-9, "coordinate system of the pattern")
        r = p.get(l[0][1].dic["Resources"])
        cell(k, pdf.Content(p, r).run(l[0][1].data()), "PDF")
    if any(p["step"] or p["enlarge"] for p in pats):      # not supported in SVG
        return
    ctx.label("svg", True)
    f = io.BytesIO()
    c.writeSVGfile(f)
    doc = svg.Doc(f.getvalue())
    for k, l in items(doc.out, "SVG").items():
        e = l[0][1]
        a = e.attrib
        ensure(a.get("patternUnits") == "userSpaceOnUse", "SVG: pattern units %r", a.get("patternUnits"))
        x, y, w, h = [float(a.get(n, 0)) for n in ("x", "y", "width", "height")]
        v = [float(s) for s in a["viewBox"].split()]
        ensure(abs(v[2] - w) < 1e-6 * (1 + w) and abs(v[3] - h) < 1e-6 * (1 + h), "SVG: pattern %d is scaled: %r in %r", k, v, (w, h))
        b = pats[k]["bbox"] or boxes[k]
        close((b[0], -b[3], b[2] - b[0], b[3] - b[1]), v, 1e-4, "SVG: view box of pattern %d" % k)
        # a point of the cell appears at its own place (up to tiling)
        for o, n, s in ((x - v[0], "horizontally", w), (y - v[1], "vertically", h)):
            r = (o + s / 2) % s - s / 2
            ensure(abs(r) <= 1e-3 * (1 + abs(o) / s), "SVG: pattern %d is displaced %s by %r (of %r)", k, n, r, s)
        m = svg.transform(a["patternTransform"]) if "patternTransform" in a else ID
        flip = (1, 0, 0, -1, 0, 0)
        close(pats[k]["trafo"] or ID, mul(mul(flip, m), flip), 2e-5, "SVG: matrix of pattern %d" % k)
        cell(k, cellsvg(doc, e), "SVG")


def painted(node):
    "everything is painted: boxes of files contain unpainted paths, those of patterns do not"
    items = []
    for it in node["items"]:
        if it[0] == "canvas":
            items.append(["canvas", painted(it[1]), it[2]])
        else:
            items.append([it[0] if it[0] != "draw" else "stroke", it[1], [a for a in it[2] if a[0] != "clear"]])
    return dict(attrs=node["attrs"], items=items)


@st.composite
def patterncase(draw):
    pats = []
    plain = draw(st.booleans())
    for i in range(draw(st.integers(1, 3))):
        bb = None
        if draw(st.integers(0, 2)) == 0:
            x, y = draw(real(-20, 20, 2)), draw(real(-20, 20, 2))
            bb = [x, y, x + draw(real(5, 60, 2)), y + draw(real(5, 60, 2))]
        pats.append(dict(node=painted(draw(prog.nodes(depth=1, layers=False))), tiling=draw(st.integers(1, 3)), bbox=bb,
                         step=None if plain else draw(st.one_of(st.none(), st.tuples(real(1, 50, 2), real(1, 50, 2)).map(list))),
                         enlarge=None if plain else draw(st.sampled_from([None, None, 5, 1.5])), copy=draw(st.booleans()),
                         trafo=draw(st.one_of(st.none(), prog.trafo_strategy().map(lambda t: t[1])))))
    paint = st.one_of(st.tuples(st.just("pat"), st.integers(0, len(pats) - 1)), st.tuples(st.just("gray"), prog.unitv),
                      st.tuples(st.just("rgb"), prog.unitv, prog.unitv, prog.unitv), st.tuples(st.just("pat"), st.integers(0, len(pats) - 1)),
                      st.tuples(st.just("transp"), prog.unitv)).map(list)
    paints = st.lists(paint, max_size=2)
    filled = st.tuples(st.just("filled"), paints).map(list)

    def node(depth):
        items = []
        for i in range(draw(st.integers(1, 4))):
            if depth and draw(st.integers(0, 2)) == 0:
                items.append(["canvas", node(depth - 1), draw(st.one_of(st.just([]), paints))])
            else:
                items.append(["fill", draw(prog.path_strategy(3)), draw(st.lists(st.one_of(paint, paint, filled), max_size=3))])
        return dict(attrs=draw(paints), items=items)
    return dict(patterns=pats, node=node(2), compress=draw(st.booleans()))


# ---- hatchings ------------------------------------------------------------------------------------

def checkhatch(case, ctx):
    from pyx import canvas, path, pattern, unit, color, style
    cross, d, angle, how = case["cross"], case["dist"], case["angle"], case["how"]
    cls = pattern.crosshatched if cross else pattern.hatched
    stl, lw, col = [], 0.02 * 72 / 2.54 / math.sqrt(32), ("gray", 0)
    if case["styles"]:
        stl, lw, col = [color.rgb.red, style.linewidth(0.7 * unit.t_pt)], 0.7, ("rgb", 1, 0, 0)
    if how == "new":
        p = cls(d * unit.t_pt, angle, stl)
    elif how == "dist":
        p = cls(3.3, angle, stl)(dist=d * unit.t_pt)
    elif how == "angle":
        p = cls(d * unit.t_pt, 77, stl)(angle=angle)
    elif how == "styles":
        p = cls(d * unit.t_pt, angle, [color.rgb.blue])(strokestyles=stl)
    else:
        # the predefined instances
        names = ["SMALL", "SMALl", "SMAll", "SMall", "Small", "small", "normal", "large", "Large", "LArge", "LARge", "LARGe", "LARGE"]
        k, angles = case["named"], (0, 45) if cross else (0, 45, 90, 135)
        angle = angles[case["pick"] % len(angles)]
        p = getattr(getattr(pattern, ("cross" if cross else "") + "hatched%d" % angle), names[k])
        d = 0.1 * 72 / 2.54 * math.sqrt(2) ** (k - 6)
        lw, col = 0.02 * 72 / 2.54 / math.sqrt(32), ("gray", 0)
    ctx.nontrivial(True)
    c = canvas.canvas()
    c.fill(path.rect_pt(0, 0, 100, 100), [p])
    a = math.radians(angle)
    i, got = eps(c)
    cells = [(got[0]["color"][1]["XStep"], got[0]["color"][1]["YStep"], got[0]["color"][1]["#matrix"], got[0]["color"][1]["BBox"], cellps(i, got[0]["color"][1]))]
    q, got = pdfl(c, True)
    s = got[0]["color"][1]
    cells.append((s.dic["XStep"], s.dic["YStep"], q.get(s.dic["Matrix"]), q.get(s.dic["BBox"]), pdf.Content(q, q.get(s.dic["Resources"])).run(s.data())))
    for xs, ys, m, bb, out in cells:
        close((math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0, 0), m, 1e-5, "matrix of the hatching")
        ensure(abs(xs - d) < 1e-4 * d, "hatching repeats after %r, expected %r", xs, d)
        ensure(len(out) == 1 + cross, "%d lines in the cell of a hatching", len(out))
        dirs = set()
        for o in out:
            (x0, y0), (x1, y1) = R.polys(o["subs"])[0].pts[[0, -1]]
            vert = abs(x1 - x0) < 1e-9
            ensure(vert or abs(y1 - y0) < 1e-9, "a line of the hatching is neither across nor along")
            ensure(abs(x0) + abs(y0) < 1e-9 or not cross, "crossed lines start at %r", (x0, y0))
            dirs.add(vert)
            ensure(abs(abs(y1 - y0 + x1 - x0) - (ys if vert else xs)) < 1e-4 * max(xs, ys), "a line of the hatching has length %r, the cell repeats after %r", abs(y1 - y0 + x1 - x0),
                   ys if vert else xs)
            ensure(bb[0] <= min(x0, x1) - vert * lw / 2 + 1e-4 and bb[2] >= max(x0, x1) + vert * lw / 2 - 1e-4 and bb[1] <= min(y0, y1) + 1e-4 and bb[3] >= max(y0, y1) - 1e-4,
                   "the cell %r of the hatching cuts its line %r", bb, (x0, y0, x1, y1))
            ensure(abs(o["lw"] - lw) < 1e-5, "line width %r of the hatching, expected %r", o["lw"], lw)
            ensure(o["color"][0] == col[0] and max(abs(u - v) for u, v in zip(o["color"][1:], col[1:])) < 1e-6, "colour %r of the hatching", o["color"])
        ensure(dirs == ({True, False} if cross else {True}), "lines of the hatching")
        if cross:
            ensure(abs(ys - d) < 1e-4 * d, "crosshatching repeats after %r upwards, expected %r", ys, d)


hatchcase = st.fixed_dictionaries(dict(cross=st.booleans(), dist=real(0.5, 40, 2), angle=st.one_of(st.sampled_from([0, 30, 45, 90, 135]), real(-180, 180, 1)),
                                       how=st.sampled_from(["new", "dist", "angle", "styles", "named"]), styles=st.booleans(), named=st.integers(0, 12), pick=st.integers(0, 3)))


# ---- meshes ----------------------------------------------------------------------------------------

def realcolor(v):
    from pyx import color
    return getattr(color, {1: "gray", 3: "rgb", 4: "cmyk"}[len(v)])(*v)


def triangles(data, decode, n):
    "free-form triangle mesh with flags 0"
    size = 1 + 6 + n
    ensure(len(data) % (3 * size) == 0, "mesh data of %d bytes", len(data))
    ensure(len(decode) == 4 + 2 * n, "mesh: Decode %r", decode)
    out = []
    for k in range(0, len(data), size):
        ensure(data[k] == 0, "mesh: edge flag %d", data[k])
        x, y = [int.from_bytes(data[k + 1 + 3 * j:k + 4 + 3 * j], "big") / (2 ** 24 - 1) for j in (0, 1)]
        v = [data[k + 7 + j] / 255 for j in range(n)]
        out.append((decode[0] + x * (decode[1] - decode[0]), decode[2] + y * (decode[3] - decode[2]),
                    [lo + (hi - lo) * c for lo, hi, c in zip(decode[4::2], decode[5::2], v)]))
    return out


def checkmesh(case, ctx):
    from pyx import canvas, mesh, unit, color, trafo
    nodes = [mesh.node((x * unit.t_pt, y * unit.t_pt), realcolor(v)) if case["units"] else mesh.node_pt((x, y), realcolor(v)) for x, y, v in case["nodes"]]
    el = [mesh.element([nodes[i % len(nodes)] for i in e]) for e in case["elements"]]
    pts = [case["nodes"][i % len(nodes)] for e in case["elements"] for i in e]
    bad = case["bad"]
    if bad:
        extra = {"pair": [nodes[0], nodes[0]], "space": [nodes[0], nodes[0], mesh.node_pt((0, 0), realcolor([0.5] * {1: 3, 3: 4, 4: 1}[len(case["nodes"][0][2])]))],
                 "number": [nodes[0], nodes[0], mesh.node_pt((0, 0), 0.5)], "three": [nodes[0], nodes[0], mesh.node_pt((0, 0, 0), nodes[0].value)]}[bad]
        el.insert(case["at"] % (len(el) + 1), mesh.element(extra))
        try:
            mesh.mesh(el)
        except ValueError:
            return
        fail("a mesh with an invalid element (%s) is accepted", bad)
    n = len(case["nodes"][0][2])
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    m = mesh.mesh(el)
    close((min(xs), min(ys), max(xs), max(ys)), m.bbox().highrestuple_pt(), 1e-9, "box of the mesh")
    ctx.nontrivial(len(el) > 1)
    ctx.label("elements", len(el))
    ctx.label("flat", max(xs) - min(xs) == 0 or max(ys) - min(ys) == 0)
    t = case["trafo"]
    c = canvas.canvas([trafo.trafo_pt(matrix=((t[0], t[2]), (t[1], t[3])), vector=(t[4], t[5]))] if t else [])
    c.insert(m)
    out = []
    i, got = eps(c)
    ensure(len(got) == 1 and got[0]["kind"] == "shading", "EPS paints %r", [g["kind"] for g in got])
    d = got[0]["shading"]
    out.append(("EPS", d, d["Decode"], got[0]["data"], got[0]["ctm"]))
    q, got = pdfl(c, case["compress"])
    ensure(len(got) == 1 and got[0]["kind"] == "shading", "PDF paints %r", [g["kind"] for g in got])
    s = got[0]["shading"]
    out.append(("PDF", s.dic, q.get(s.dic["Decode"]), s.data(), got[0]["ctm"]))
    for what, d, dec, data, ctm in out:
        ensure((d["ShadingType"], str(d["ColorSpace"]), d["BitsPerCoordinate"], d["BitsPerComponent"], d["BitsPerFlag"]) ==
               (4, {1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[n], 24, 8, 8), "%s: shading %r", what, {k: d[k] for k in d if k != "DataSource"})
        ensure(dec[0] <= dec[1] and dec[2] <= dec[3], "%s: Decode %r", what, dec)
        close(t or ID, ctm, 2e-5, what + ": coordinate system of the mesh")
        tr = triangles(data, dec, n)
        ensure(len(tr) == len(pts), "%s: %d corners, expected %d", what, len(tr), len(pts))
        for k, ((x, y, v), w) in enumerate(zip(tr, pts)):
            tx, ty = (max(xs) - min(xs)) / 2 ** 23 + 2e-6, (max(ys) - min(ys)) / 2 ** 23 + 2e-6
            ensure(abs(x - w[0]) <= tx and abs(y - w[1]) <= ty, "%s: corner %d at %r, expected %r", what, k, (x, y), w[:2])
            ensure(all(abs(a - b) <= 1.0001 / 255 for a, b in zip(v, w[2])), "%s: colour %r at corner %d, expected %r", what, v, k, w[2])


@st.composite
def meshcase(draw):
    n = draw(st.sampled_from([1, 3, 4]))
    co = draw(st.sampled_from([real(-100, 100, 2), st.integers(-3, 3), real(-5000, 5000, 4)]))
    fx, fy = [draw(st.one_of(st.none(), st.none(), st.none(), st.integers(-5, 5))) for i in "xy"]
    nodes = [[draw(co) if fx is None else fx, draw(co) if fy is None else fy, [draw(prog.unitv) for i in range(n)]] for k in range(draw(st.integers(1, 8)))]
    return dict(nodes=nodes, elements=draw(st.lists(st.tuples(*[st.integers(0, 20)] * 3).map(list), min_size=1, max_size=8)), units=draw(st.booleans()),
                bad=draw(st.sampled_from([None] * 9 + ["pair", "space", "number", "three"])), at=draw(st.integers(0, 8)), compress=draw(st.booleans()),
                trafo=draw(st.one_of(st.none(), prog.trafo_strategy().map(lambda t: t[1]))))


SUBS += [Sub("pattern", patterncase(), checkpattern, quick=700, thorough=12000),
         Sub("hatch", hatchcase, checkhatch, quick=200, thorough=3000),
         Sub("mesh", meshcase(), checkmesh, quick=400, thorough=15000)]
