"""C42 axes are painted where, and with what, their painters define: base paths, ticks, grids, labels, titles and the distances between axes"""
import io, logging, math, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import ps, svg, prog, refpath as R

PROP = "C42"
RULE = ("axes with random painters (tick lengths, attributes by level, label and title attributes, directions, distances), ticks and labels are painted along paths and in graphs (many axes, linked, flipped, moved, bar and split axes), "
        "with a text engine drawing boxes of given size; all lines and boxes found by the interpreter of the output are compared with formulas; non-trivial: at least one tick or label")
CM = 72 / 2.54
AXIS = 2.5      # height of the mathematical axis of the boxes


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- a text engine which draws boxes ----------------------------------------------------------------
# a text is "width height depth number"

def engine():
    from pyx import text, trafo, style, box, baseclasses, canvas, path, color, attr

    class Box(box.polygon_pt, baseclasses.canvasitem):

        def __init__(self, x, y, pts, k):
            self.k = k
            box.polygon_pt.__init__(self, [(x + a, y + b) for a, b in pts], (x, y))

        def picture(self):
            c = canvas.canvas()
            col = [color.rgb(1, self.k % 20 / 20, self.k // 20 / 20)]
            c.stroke(path.path(path.moveto_pt(*self.corners[0]), *[path.lineto_pt(*q) for q in self.corners[1:]]), col)
            c.stroke(path.path(path.moveto_pt(*self.corners[0]), path.lineto_pt(*self.center)), col)
            return c

        def processPS(self, *args):
            self.picture().processPS(*args)

        def processPDF(self, *args):
            self.picture().processPDF(*args)

        def processSVG(self, *args):
            self.picture().processSVG(*args)

    class Engine:

        def text_pt(self, x, y, s, textattrs=[], **kw):
            textattrs = attr.mergeattrs(textattrs)
            attr.checkattrs(textattrs, [text.textattr, trafo.trafo_pt, style.fillstyle])
            w, h, d, k = (float(t) for t in str(s).split())
            x0, y0 = 0, 0
            for a in attr.getattrs(textattrs, [text.textattr]):
                if isinstance(a, text.halign):
                    x0 = -a.boxhalign * w
                elif a is text.vshift.mathaxis:
                    y0 -= AXIS
                elif isinstance(a, text.vshift):
                    y0 -= a.lowerratio * 6
                else:
                    fail("unexpected text attribute %r", a)
            pts = [(x0, y0 - d), (x0 + w, y0 - d), (x0 + w, y0 + h), (x0, y0 + h)]
            for t in attr.getattrs(textattrs, [trafo.trafo_pt]):
                pts = [t.apply_pt(*q) for q in pts]
            return Box(x, y, pts, int(k))

        def text(self, x, y, *args, **kw):
            from pyx import unit
            return self.text_pt(unit.topt(x), unit.topt(y), *args, **kw)

    return Engine()


def rot(a, x, y):
    a = math.radians(a)
    return math.cos(a) * x - math.sin(a) * y, math.sin(a) * x + math.cos(a) * y


def boxpts(s, attrs):
    "the box around the anchor"
    w, h, d, k = s
    x0, y0 = -w / 2, 0
    shifts = [AXIS]
    for a in attrs:
        if a[0] == "halign":
            x0 = -a[1] * w
        elif a[0] == "hclear":
            x0 = 0
        elif a[0] == "vshift":
            shifts.append(a[1] * 6)
        elif a[0] == "vclear":
            shifts = []
    y0 = -sum(shifts)
    pts = [(x0, y0 - d), (x0 + w, y0 - d), (x0 + w, y0 + h), (x0, y0 + h)]
    for a in attrs:
        if a[0] == "rot":
            pts = [rot(a[1], *q) for q in pts]
        elif a[0] == "scale":
            pts = [(a[1] * x, a[1] * y) for x, y in pts]
    return pts


def textattr(a):
    from pyx import text, trafo
    return {"halign": lambda: text.halign(a[1], a[1]), "hclear": lambda: text.halign.clear, "vshift": lambda: text.vshift(a[1]), "vclear": lambda: text.vshift.clear, "rot": lambda: trafo.rotate(a[1]),
            "scale": lambda: trafo.scale(a[1])}[a[0]]()


def upright(rel, d):
    "angle of a text by rotatetext"
    a = (rel + math.degrees(math.atan2(d[1], d[0])) + 180) % 360 - 180
    if a > 90 + 1e-6:
        a -= 180
    if a < -90 - 1e-6:
        a += 180
    return a


def dirs(l):
    from pyx.graph.axis import painter
    if l is None:
        return None
    if l == "parallel":
        return painter.rotatetext.parallel
    if l == "orthogonal":
        return painter.rotatetext.orthogonal
    return painter.rotatetext(l)


def relative(l):
    return {"parallel": 90, "orthogonal": 180}.get(l, l)


# ---- the picture of an axis -------------------------------------------------------------------------

def colour(k, n):
    return (k / 32, n / 16, 1)


class Picture:
    "lines {colour: [path]}, boxes [(number, corners, anchor, turned alternative)], extent; at and d give the positions and tick directions"

    def __init__(self, at, d, base, grid, k, straight):
        self.at, self.d, self.base, self.grid, self.k, self.straight = at, d, base, grid, k, straight
        self.lines, self.boxes, self.extent = {}, [], 0

    def line(self, n, pts, k=None):
        self.lines.setdefault(colour(self.k if k is None else k, n), []).append(pts)

    def aligned(self, x, d, a, pts):
        "distance to move along -d"
        u = (-d[0], -d[1])
        return a - min(p[0] * u[0] + p[1] * u[1] for p in pts)

    def put(self, num, x, d, s, pts, alt=None):
        place = lambda s, pts: ((x[0] - s * d[0], x[1] - s * d[1]), [(x[0] - s * d[0] + p[0], x[1] - s * d[1] + p[1]) for p in pts])
        self.boxes.append((num, [place(s, pts)] + ([place(*alt)] if alt else [])))

    def size(self, d, pts):
        v = [p[0] * d[0] + p[1] * d[1] for p in pts]
        return max(v) - min(v)

    def texts(self, items, dist, equal):
        "items: (v, (w, h, d, k), attrs)"
        res = []
        for v, s, attrs in items:
            pts = boxpts(s, attrs)
            x, d = self.at(v), self.d(v)
            res.append((s[3], x, d, self.aligned(x, d, dist, pts), pts))
        if equal and res:
            m = max(r[3] for r in res)
            res = [(n, x, d, m, pts) for n, x, d, s, pts in res]
        for r in res:
            self.put(*r)
        return [dist + self.size(r[2], r[4]) for r in res]

    def equal(self, vs, h, v):
        "texts are aligned equally for straight horizontal and vertical axes"
        if not self.straight or len(vs) < 2:
            return False
        d = self.d(0)
        return bool((abs(d[0]) < 1e-10 and v) or (abs(d[1]) < 1e-10 and h))

    def title(self, p, s):
        if s is None or p["titleattrs"] is None:
            return
        v = p["titlepos"]
        x, d = self.at(v), self.d(v)
        attrs = list(p["titleattrs"])
        if p["titledirection"] is not None:
            y = self.at(v + 1e-3)
            t = (y[0] - x[0], y[1] - x[1])
            if d[0] * t[1] - d[1] * t[0] < 0:
                t = (-t[0], -t[1])
            attrs.append(("rot", upright(relative(p["titledirection"]), (t[1], -t[0]))))
        pts = boxpts(s, attrs)
        self.extent += p["titledist"] * CM
        alt = None
        if p["titledirection"] is not None and abs(abs(attrs[-1][1]) - 90) < 1e-6:      # upwards or downwards, by rounding
            alt = boxpts(s, attrs[:-1] + [("rot", -attrs[-1][1])])
            alt = self.aligned(x, d, self.extent, alt), alt
        self.put(s[3], x, d, self.aligned(x, d, self.extent, pts), pts, alt)
        self.extent += self.size(d, pts)

    def regular(self, p, ticks, title):
        "ticks: (v, ticklevel, labellevel, size, own attributes)"
        sel = lambda l, n: None if l is None else l[n % len(l)]
        items = []
        for v, tl, ll, s, own in ticks:
            if ll is not None and p["labelattrs"] is not None:
                attrs = list(p["labelattrs"])
                if p["labellevels"] is not None:
                    a = p["labellevels"][ll % len(p["labellevels"])]
                    if a is None:
                        continue
                    attrs.append(a)
                if p["labeldirection"] is not None:
                    attrs.append(("rot", upright(relative(p["labeldirection"]), self.d(v))))
                items.append((v, s, attrs + list(own or [])))
        ext = self.texts(items, p["labeldist"] * CM, self.equal(ticks, p["labelhequalize"], p["labelvequalize"]))
        self.extent = max([self.extent] + ext)
        for v, tl, ll, s, own in ticks:
            if tl is not None:
                x, d = self.at(v), self.d(v)
                i, o = length(p["inner"], tl), length(p["outer"], tl)
                if p["tickattrs"] and (i is not None or o is not None):
                    i, o = i or 0, o or 0
                    self.line(tl, [(x[0] + i * d[0], x[1] + i * d[1]), (x[0] - o * d[0], x[1] - o * d[1])])
                    self.extent = max(self.extent, o, -i)
                if p["grid"] and self.grid is not None:
                    self.line(4 + tl, self.grid(v))
        if p["base"]:
            self.line(8, self.base(0, 1))
        self.title(p, title)

    def bar(self, p, names, title):
        "names: [(size, vmin, vmax, vminover)]"
        items = []
        dist = self.extent + p["labeldist"] * CM
        if p["labelattrs"] is not None:
            for s, vmin, vmax, over in names:
                v = vmin + p["namepos"] * (vmax - vmin)
                attrs = list(p["labelattrs"])
                if p["labeldirection"] is not None:
                    attrs.append(("rot", upright(relative(p["labeldirection"]), self.d(v))))
                items.append((v, s, attrs))
        ext = self.texts(items, dist, self.equal(names, p["labelhequalize"], p["labelvequalize"]))
        if p["base"]:
            self.line(8, self.base(0, 1))
        i, o = p["inner"], p["outer"]
        if p["tickattrs"] and (i is not None or o is not None):
            i, o = (i or 0) * CM, (o or 0) * CM
            for v in [n[3] for n in names] + [1]:
                x, d = self.at(v), self.d(v)
                self.line(0, [(x[0] + i * d[0], x[1] + i * d[1]), (x[0] - o * d[0], x[1] - o * d[1])])
            self.extent = max(self.extent, o, -i)
        self.extent = max([self.extent] + ext)
        self.title(p, title)

    def part(self, vmin, vmax, over1, over2, k):
        "picture of a part of the axis"
        m = lambda v: vmin + v * (vmax - vmin)
        return Picture(lambda v: self.at(m(v)), lambda v: self.d(m(v)), lambda a, b: self.base(over1 if a == 0 else m(a), over2 if b == 1 else m(b)), self.grid and (lambda v: self.grid(m(v))), k, self.straight)

    def join(self, o):
        for c, l in o.lines.items():
            self.lines.setdefault(c, []).extend(l)
        self.boxes += o.boxes
        self.extent = max(self.extent, o.extent)


def length(l, n):
    "tick length in points"
    if l is None:
        return None
    if isinstance(l, (int, float)):
        return l * CM
    if l[0] == "list":
        x = l[1][n % len(l[1])]
        return None if x is None else x * CM
    if l[0] == "series":
        return l[1] * CM * l[2] ** n
    names = ["SHORT", "SHORt", "SHOrt", "SHort", "Short", "short", "normal", "long", "Long", "LOng", "LONg", "LONG"]
    g = 2 / (1 + 5 ** 0.5)
    return 0.12 * CM * 2 ** (0.5 * (names.index(l[1]) - 6)) * g ** n


def length_(l):
    from pyx import attr
    from pyx.graph.axis.painter import ticklength
    if l is None or isinstance(l, (int, float)):
        return l
    if l[0] == "list":
        return attr.changelist(l[1])
    return ticklength(l[1], l[2]) if l[0] == "series" else getattr(ticklength, l[1])


# ---- generators ---------------------------------------------------------------------------------

size_ = st.tuples(st.sampled_from([4, 8, 12, 15, 30]), st.sampled_from([6, 6, 8, 3]), st.sampled_from([0, 0, 2, 4]))
tattr = st.one_of(st.tuples(st.just("halign"), st.sampled_from([0, 1, 0.5, 0.25])), st.tuples(st.just("vshift"), st.sampled_from([0, 0.5, 1])), st.sampled_from([("vclear",), ("hclear",)]),
                  st.tuples(st.just("rot"), st.sampled_from([90, 30, -45, 180])), st.tuples(st.just("scale"), st.sampled_from([2, 0.5])))
tattrs = st.one_of(st.just([]), st.just([]), st.lists(tattr, max_size=3))
direction = st.sampled_from([None, None, None, "parallel", "orthogonal", 45, -30, 135])
lens = st.one_of(st.none(), st.sampled_from([0.2, 0.1, -0.3]), st.tuples(st.just("name"), st.sampled_from(["SHORT", "SHORt", "SHOrt", "SHort", "Short", "short", "normal", "long", "Long", "LOng", "LONg", "LONG"])),
                 st.tuples(st.just("series"), st.sampled_from([0.2, 0.3]), st.sampled_from([0.5, 2])), st.tuples(st.just("list"), st.lists(st.sampled_from([0.1, 0.2, 0.4, None]), min_size=1, max_size=3)))
painters = st.fixed_dictionaries(dict(
    inner=lens, outer=st.one_of(st.none(), lens), tickattrs=st.sampled_from([True, True, True, False]), grid=st.sampled_from([False, False, True]), base=st.sampled_from([True, True, True, False]),
    labeldist=st.sampled_from([0.3, 0.3, 0.1, 0, 0.5]), labelattrs=st.one_of(tattrs, tattrs, tattrs, st.none()), labellevels=st.one_of(st.none(), st.none(), st.lists(st.one_of(st.none(), tattr, tattr), min_size=1, max_size=2)),
    labeldirection=direction, labelhequalize=st.sampled_from([0, 0, 1]), labelvequalize=st.sampled_from([1, 1, 0]),
    titledist=st.sampled_from([0.3, 0.3, 0.1, 0]), titleattrs=st.one_of(tattrs, tattrs, tattrs, st.none()), titledirection=st.sampled_from(["parallel", "parallel", None, "orthogonal", 45]), titlepos=st.sampled_from([0.5, 0.5, 0, 0.25, 0.9])))
barpainters = st.tuples(painters, st.sampled_from([None, None, 0.1, 0.3, -0.2]), st.sampled_from([None, 0.2, 0.1]), st.sampled_from([0.5, 0.5, 0, 0.3, 1])).map(lambda t: dict(t[0], inner=t[1], outer=t[2], namepos=t[3], labellevels=None, grid=False))


@st.composite
def ticks_(draw, p):
    res = []
    for x in draw(st.lists(st.integers(0, 20), unique=True, min_size=0, max_size=6)):
        tl = draw(st.sampled_from([0, 0, 0, 1, 2, None]))
        if p["grid"] and tl is None:
            tl = 0
        res.append(dict(x=x, tl=tl, ll=draw(st.sampled_from([0, 0, 0, 1, None])), size=draw(size_), own=draw(st.one_of(st.none(), st.just([]), st.lists(tattr, max_size=1)))))
    return res


@st.composite
def axes_(draw, painter=None):
    p = draw(painters) if painter is None else painter
    return dict(p=p, ticks=draw(ticks_(p)), reverse=draw(st.booleans()), title=draw(st.one_of(st.none(), size_)), how=draw(st.sampled_from(["init", "init", "call", "split"])))


def painter_(p, k, kind="regular"):
    from pyx import attr, color
    from pyx.graph.axis import painter
    kw = dict(titledist=p["titledist"], titledirection=dirs(p["titledirection"]), titlepos=p["titlepos"], titleattrs=None if p["titleattrs"] is None else [textattr(a) for a in p["titleattrs"]])
    la = None if p["labelattrs"] is None else [textattr(a) for a in p["labelattrs"]]
    base = [color.rgb(*colour(k, 8))] if p["base"] else None
    ln, labels = ("label", "labelattrs") if kind == "regular" else ("name", "nameattrs")
    if kind == "regular":
        kw["tickattrs"] = [attr.changelist([color.rgb(*colour(k, n)) for n in range(3)])] if p["tickattrs"] else None
        kw["gridattrs"] = [attr.changelist([color.rgb(*colour(k, 4 + n)) for n in range(3)])] if p["grid"] else None
        if la is not None and p["labellevels"] is not None:
            la.append(attr.changelist([None if a is None else textattr(a) for a in p["labellevels"]]))
        kw.update(innerticklength=length_(p["inner"]), outerticklength=length_(p["outer"]))
    else:
        kw["tickattrs"] = [color.rgb(*colour(k, 0))] if p["tickattrs"] else None
        kw.update(innerticklength=p["inner"], outerticklength=p["outer"], namepos=p["namepos"])
    kw.update({"basepathattrs": base, ln + "dist": p["labeldist"], labels: la, ln + "direction": dirs(p["labeldirection"]), ln + "hequalize": p["labelhequalize"], ln + "vequalize": p["labelvequalize"]})
    return getattr(painter, kind), dict(kw, textengine=engine())


def made(a, k, kind="regular"):
    cls, kw = painter_(a["p"], k, kind)
    if a["how"] == "call":
        few = dict(list(kw.items())[::2])
        return cls(**few)(**{n: v for n, v in kw.items() if n not in few})
    return cls(**kw)


def text_(s, num):
    return None if s is None else "%g %g %g %d" % (tuple(s) + (num,))


def linear(a, k, painter=None, **kw):
    "the axis; texts are numbered from 20 k"
    from pyx import graph
    ticks = [graph.axis.tick.tick((t["x"], 20), ticklevel=t["tl"], labellevel=t["ll"], label=text_(t["size"], 20 * k + n), labelattrs=None if t["own"] is None else [textattr(b) for b in t["own"]]) for n, t in enumerate(a["ticks"])]
    kw = dict(min=0, max=1, reverse=int(a["reverse"]), title=text_(a["title"], 20 * k + 19), parter=None, manualticks=ticks, **kw)
    if a["how"] == "split" and painter is None:
        cls, pw = painter_(a["p"], k)
        few = {"painter_" + n: v for n, v in pw.items()}
        return graph.axis.linear(painter=graph.axis.painter.regular(), **few, **kw)
    return graph.axis.linear(painter=painter or made(a, k), **kw)


def tickrows(a, k):
    return [(1 - t["x"] / 20 if a["reverse"] else t["x"] / 20, t["tl"], t["ll"], tuple(t["size"]) + (20 * k + n,), t["own"]) for n, t in sorted(enumerate(a["ticks"]), key=lambda e: e[1]["x"])]


def titlerow(a, k):
    return None if a["title"] is None else tuple(a["title"]) + (20 * k + 19,)


def draw_(a, k, pic):
    pic.regular(a["p"], tickrows(a, k), titlerow(a, k))


# ---- comparison ------------------------------------------------------------------------------------

def out(c, fmt):
    from pyx import canvas
    try:
        f = io.BytesIO()
        o = canvas.canvas()
        o.insert(c)
        if fmt == "svg":
            o.writeSVGfile(f)
            return prog.ink(svg.Doc(f.getvalue()).out)
        o.writeEPSfile(f)
        i = ps.interpret(f.getvalue())
        return prog.ink([x for p in i.pages for x in p] + i.out)
    except ValueError as e:
        if "empty" in str(e):
            return []
        raise


def points(s):
    if isinstance(s, list):
        return s
    return [tuple(s.first)] + [tuple(float(x) for x in g.eval([1.0])[0]) for g in s.segs]


def near(a, b, tol):
    return len(a) == len(b) and all(math.dist(p, q) < tol for p, q in zip(a, b))


def compare(pics, items, tol=4e-3, turned=False):
    lines, boxes = {}, []
    for p in pics:
        for c, l in p.lines.items():
            lines.setdefault(c, []).extend(l)
        boxes += p.boxes
    got, gotb = {}, {}
    for it in items:
        if it["kind"] != "stroke":
            continue
        c = it["color"]
        ensure(c[0] == "rgb", "line with colour %r", c)
        if abs(c[1] - 1) < 1e-4:
            gotb.setdefault(round(c[2] * 20) + 20 * round(c[3] * 20), []).append(it["subs"])
        else:
            got.setdefault((round(c[1] * 32), round(c[2] * 16)), []).extend(it["subs"])
    want = {(round(c[0] * 32), round(c[1] * 16)): [l for l in ls if isinstance(l, R.Subpath) or math.dist(l[0], l[-1]) > 1e-3 or len(l) > 2] for c, ls in lines.items()}
    names = {8: "base path", 0: "ticks", 1: "subticks", 2: "subsubticks", 4: "grid", 5: "subgrid", 6: "subsubgrid"}
    for key in set(want) | set(got):
        w, g = want.get(key, []), list(got.get(key, []))
        what = "%s of axis %d" % (names.get(key[1], "lines %d" % key[1]), key[0])
        g = [s for s in g if len(s.segs) > 1 or math.dist(*[points(s)[i] for i in (0, -1)]) > 2e-3]
        ensure(len(w) == len(g), "%s: %d lines, expected %d", what, len(g), len(w))
        for l in w:
            if isinstance(l, R.Subpath):
                R.compare(R.polys([l]), R.polys(g), tol, what, eps=2e-3, closed=False, fail=fail)
                continue
            k = [i for i, s in enumerate(g) if near(l, points(s), tol) or near(l[::-1], points(s), tol)]
            ensure(k, "%s: %r is missing in %r", what, l, [points(s) for s in g])
            g.pop(k[0])
    wantb = {}
    for b in boxes:
        wantb.setdefault(b[0], []).append(b)
    ensure(set(wantb) == set(gotb), "texts %r, expected %r", sorted(gotb), sorted(wantb))
    for k, ws in wantb.items():
        g = [points(sub) for subs in gotb[k] for sub in subs]
        outlines = [q for q in g if len(q) > 2]
        marks = [q for q in g if len(q) == 2]
        ensure(len(outlines) == len(ws), "text %d is painted %d times, expected %d", k, len(outlines), len(ws))
        for _, ways in ws:
            ok = [w for w in ways if any(near(q, w[1], tol) for q in outlines)]
            ensure(ok, "text %d is at %r, expected %r", k, outlines, ways)
            ensure(any(math.dist(w[1][0], w[0]) < 5e-3 or any(near(q, [w[1][0], w[0]], tol) for q in marks) for w in ok), "anchor of text %d is not at %r: %r", k, ok[0][0], marks)


def busy(pics, ctx):
    if any(p.boxes for p in pics) and any(p.lines for p in pics):
        ctx.nontrivial("painted")


def ambiguous(p, pic, vs):
    "text directions at the border of turning them around"
    def bad(rel, d):
        a = (rel + math.degrees(math.atan2(d[1], d[0]))) % 180
        return abs(a - 90) < 0.2 and not (pic.straight and abs(a - 90) < 1e-12)
    for v in vs:
        if p["labeldirection"] is not None and bad(relative(p["labeldirection"]), pic.d(v)):
            raise Skip("direction")
    if p["titledirection"] is not None:
        d = pic.d(p["titlepos"])
        x, y = pic.at(p["titlepos"]), pic.at(p["titlepos"] + 1e-3)
        t = (y[0] - x[0], y[1] - x[1])
        if d[0] * t[1] - d[1] * t[0] < 0:
            t = (-t[0], -t[1])
        if bad(relative(p["titledirection"]), (t[1], -t[0])) or bad(relative(p["titledirection"]), d):
            raise Skip("direction")


# ---- axes along paths ------------------------------------------------------------------------------

@st.composite
def paths(draw):
    c = draw(axes_())
    c["path"] = draw(st.one_of(st.tuples(st.just("line"), st.sampled_from([0, 1, -3]), st.sampled_from([0, 2, -1]), st.sampled_from([2, 5, 10]), st.sampled_from([0, 0, 90, 180, 270, 37, -65, 200])),
                               st.tuples(st.just("arc"), st.sampled_from([0, 1, -3]), st.sampled_from([0, 2, -1]), st.sampled_from([1, 2, 4]), st.sampled_from([0, 0, 20, 100, 250]), st.sampled_from([350, 90, 200, -90, -330]))))
    c["direction"] = draw(st.sampled_from([1, 1, -1]))
    c["fmt"] = draw(st.sampled_from(["eps", "eps", "svg"]))
    return c


def check_path(c, ctx):
    from pyx import graph, path, trafo
    from pyx.graph import axis
    p = c["path"]
    s = c["direction"]
    if p[0] == "line":
        x, y, l, a = p[1:]
        u = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}.get(a, (math.cos(math.radians(a)), math.sin(math.radians(a))))
        pth = path.line(x, y, x + l * u[0], y + l * u[1])
        at = lambda v: ((x + v * l * u[0]) * CM, (y + v * l * u[1]) * CM)
        d = lambda v: (-s * u[1], s * u[0])
        base = lambda v, w: [at(v), at(w)]
    else:
        x, y, r, a, turn = p[1:]
        b = a + turn
        pth = path.path((path.arc if turn > 0 else path.arcn)(x, y, r, a, b))
        an = lambda v: math.radians(a + v * turn)
        at = lambda v: ((x + r * math.cos(an(v))) * CM, (y + r * math.sin(an(v))) * CM)
        f = -s if turn > 0 else s
        d = lambda v: (f * math.cos(an(v)), f * math.sin(an(v)))

        def base(v, w):
            return [at(v + (w - v) * k / 400) for k in range(401)]
    if any(t["ll"] is None for t in c["ticks"]):
        ctx.label("ticks without label")
    pic = Picture(at, d, base, None, 1, p[0] == "line")
    ambiguous(c["p"], pic, [t[0] for t in tickrows(c, 1)])
    draw_(c, 1, pic)
    cv = axis.pathaxis(pth, linear(c, 1), direction=s) if s != 1 or c["reverse"] else axis.pathaxis(pth, linear(c, 1))
    items = out(cv, c["fmt"])
    if p[0] == "arc" and c["p"]["base"]:
        k = colour(1, 8)
        l = pic.lines.pop(k)
        sub = R.Subpath(l[0][0])
        sub.segs = [R.Line(q, w) for q, w in zip(l[0], l[0][1:])]
        pic.lines[k] = [sub]
    compare([pic], items, tol=4e-3 if p[0] == "line" else 0.05)
    busy([pic], ctx)
    ctx.label(p[0])



# ---- axes of graphs --------------------------------------------------------------------------------

links = painters.map(lambda p: dict(p, labelattrs=p["labelattrs"] if p["labelvequalize"] == 0 else None, titleattrs=p["titleattrs"] if p["labelhequalize"] else None))


@st.composite
def graphs(draw):
    c = dict(geom=draw(st.fixed_dictionaries(dict(xpos=st.sampled_from([0, 0, 1, -3.25]), ypos=st.sampled_from([0, 0, 2]), width=st.sampled_from([5, 8]), height=st.sampled_from([4, 6]),
                                                  kind=st.sampled_from(["xy", "xy", "flipped", "flipped", "vertical", "horizontal"])))))
    kind = c["geom"]["kind"]
    c["axes"] = {}
    for n in "xy" if kind in ("xy", "flipped") else "x":
        two = draw(st.sampled_from([False, False, True]))       # only the second axis is given
        if not two:
            c["axes"][n] = draw(axes_())
        second = draw(st.sampled_from(["link", "link", "none", "own"])) if not two else "own"
        if second == "own":
            c["axes"][n + "2"] = draw(axes_())
        elif second == "none":
            c["axes"][n + "2"] = None
        if draw(st.sampled_from([False, False, True])):
            c["axes"][n + "3"] = draw(axes_())
            if draw(st.sampled_from([False, True])):
                c["axes"][n + "5"] = draw(axes_())
        if second != "none" and draw(st.sampled_from([False, False, True])):
            c["axes"][n + "4"] = draw(axes_())
    for a in c["axes"].values():
        if a:
            a["link"] = draw(links)
            if any(t["tl"] is None for t in a["ticks"]):    # there is no level for the grid
                a["link"] = dict(a["link"], grid=False)
    c["order"] = draw(st.permutations(sorted(c["axes"])))
    c["axesdist"] = draw(st.sampled_from([None, 0.8, 0.5, 0]))
    c["at"] = {n: draw(st.sampled_from([None, None, None, 0.5, 0.3, 0])) if kind in ("xy", "flipped") else None for n in "xy"}
    for n in "xy":      # the linked axis is not created then
        if c["at"][n] is not None and n not in c["axes"]:
            c["at"][n] = None
        if c["at"][n] is not None and n + "2" not in c["axes"]:
            c["axes"].pop(n + "4", None)
    c["order"] = [n for n in c["order"] if n in c["axes"]]
    c["background"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(["eps", "eps", "svg"]))
    c["first"] = draw(st.sampled_from([None, None, "dolayout", "doaxes", "bbox", "last"]))
    c["vals"] = [draw(real(0, 1, 2)) for _ in range(2)]
    return c


NAMES = ["x", "x2", "x3", "x4", "x5", "y", "y2", "y3", "y4", "y5"]


def sides(g):
    "line of an axis at the side: start, vector, tick direction"
    x, y, w, h = (g[k] * CM for k in ("xpos", "ypos", "width", "height"))
    bottom, top = ((x, y), (w, 0), (0, 1)), ((x, y + h), (w, 0), (0, -1))
    left, right = ((x, y), (0, h), (1, 0)), ((x + w, y), (0, h), (-1, 0))
    if g["kind"] in ("xy", "horizontal"):
        return {"x": bottom, "x2": top, "y": left, "y2": right}
    return {"x": right, "x2": left, "y": bottom, "y2": top}


def picture(g, side, k):
    (x, y), (w, h), d = side
    at = lambda v: (x + v * w, y + v * h)
    if w:
        grid = lambda v: [(x + v * w, g["ypos"] * CM), (x + v * w, (g["ypos"] + g["height"]) * CM)]
    else:
        grid = lambda v: [(g["xpos"] * CM, y + v * h), ((g["xpos"] + g["width"]) * CM, y + v * h)]
    return Picture(at, lambda v: d, lambda a, b: [at(a), at(b)], grid, k, True)


def check_graph(c, ctx):
    from pyx import graph, color, deco, unit
    g = c["geom"]
    if g["kind"] == "vertical":
        g = dict(g, width=1)
        kw = dict(length=g["height"], size=1, direction="vertical")
        cls = graph.graphx
    elif g["kind"] == "horizontal":
        g = dict(g, height=1)
        kw = dict(length=g["width"], size=1, direction="horizontal")
        cls = graph.graphx
    else:
        cls = graph.graphxy
        kw = dict(width=g["width"], height=g["height"], flipped=g["kind"] == "flipped")
    kw.update(xpos=g["xpos"], ypos=g["ypos"])
    if c["axesdist"] is not None:
        kw["axesdist"] = c["axesdist"]
    dist = (0.8 if c["axesdist"] is None else c["axesdist"]) * CM
    if c["background"]:
        kw["backgroundattrs"] = [deco.filled([color.rgb(0, 1, 0)])]
    num = {n: i + 1 for i, n in enumerate(NAMES)}
    from pyx.graph import axis
    for n in c["order"]:
        a = c["axes"][n]
        if a is None:
            kw[n] = None
        else:
            lc, lk = painter_(a["link"], num[n] + 15)
            kw[n] = linear(a, num[n], linkpainter=axis.painter.linked(**lk))
    v_ = lambda n, x: 1 - x if c["axes"].get(n, c["axes"].get(n + "2"))["reverse"] else x
    at = dict(c["at"])
    for n in "xy":
        if at[n] is not None:
            kw[n + "axisat"] = at[n]
    gr = cls(**kw)
    if c["first"] == "last":
        gr.doaxiscreate(sorted(gr.axes)[-1])
    elif c["first"]:
        getattr(gr, c["first"])()
    pics, S = {}, sides(g)
    for n in "xy" if cls is graph.graphxy else "x":
        exists = {m: c["axes"][m] for m in c["axes"] if m[0] == n}
        linked = {}
        if n not in exists:
            linked[n] = n + "2"
        elif n + "2" not in exists and at[n] is None:
            linked[n + "2"] = n
        for m in sorted(set(exists) | set(linked), key=lambda m: int(m[1:] or 1)):
            i = int(m[1:] or 1)
            if exists.get(m, 1) is None:
                continue
            if i < 3:
                side = S[m]
            else:
                prev = n if i == 3 else n + str(i - 2)
                (x, y), w, d = where[prev]
                e = pics[prev].extent + dist
                side = ((x - e * d[0], y - e * d[1]), w, d)
            if i == 1:
                where = {}
            where[m] = side
            if i == 1 and at[n] is not None:
                v = v_("y" if n == "x" else "x", at[n])
                side = ((side[0][0] if side[1][0] else (g["xpos"] + v * g["width"]) * CM, side[0][1] if side[1][1] else (g["ypos"] + v * g["height"]) * CM), *side[1:])
            if m in linked:
                o = linked[m]
                pic = picture(g, side, num[o] + 15)
                pic.regular(exists[o]["link"], tickrows(exists[o], num[o]), titlerow(exists[o], num[o]))
            else:
                pic = picture(g, side, num[m])
                draw_(exists[m], num[m], pic)
            pics[m] = pic
            if i == 1:
                mine = picture(g, side, 0) if at[n] is None else picture(g, where[m], 0)
                rev = (exists.get(n) or exists[n + "2"])["reverse"]
                t, u = c["vals"]
                vt, vu = (1 - t, 1 - u) if rev else (t, u)
                ln = lambda p: [q for e in (p.atbegin(), p.atend()) for q in (unit.topt(e[0]), unit.topt(e[1]))] if not isinstance(p, list) else [q for e in p for q in e]
                close(mine.at(vt), [unit.topt(q) for q in getattr(gr, n + "tickpoint")(t)], 1e-6, "tickpoint")
                close(mine.at(t), [unit.topt(q) for q in getattr(gr, n + "vtickpoint")(t)], 1e-6, "vtickpoint")
                close(mine.at(vt), getattr(gr, n + "tickpoint_pt")(t), 1e-6, "tickpoint_pt")
                close(mine.d(0), getattr(gr, n + "tickdirection")(t), 1e-9, "tickdirection")
                close(ln(mine.grid(vt)), ln(getattr(gr, n + "gridpath")(t)), 1e-6, "gridpath")
                close(ln(mine.base(vt, vu)), ln(getattr(gr, n + "basepath")(t, u)), 1e-6, "basepath")
                close(ln(mine.base(0, vu)), ln(getattr(gr, n + "basepath")(x2=u)), 1e-6, "basepath")
                close(ln(mine.base(vt, 1)), ln(getattr(gr, n + "basepath")(t)), 1e-6, "basepath")
                close(ln(mine.base(t, u)), ln(getattr(gr, n + "vbasepath")(t, u)), 1e-6, "vbasepath")
                close(ln(mine.grid(t)), ln(gr.axes[n].vgridpath(t)), 1e-6, "vgridpath")
                close(ln(mine.grid(t)), ln(getattr(gr, n + "vgridpath")(t)), 1e-6, "vgridpath")
    ensure(set(gr.axes) - {"y", "y2"} == set(pics) - {"y", "y2"}, "axes %r, expected %r", sorted(gr.axes), sorted(pics))
    items = out(gr, c["fmt"])
    if c["background"]:
        ensure(items and items[0]["kind"] == "fill", "no background")
        ensure(items[0]["color"][0] == "rgb" and near([items[0]["color"][1:]], [(0, 1, 0)], 1e-3), "colour of the background %r", items[0]["color"])
        x, y, w, h = (g[k] * CM for k in ("xpos", "ypos", "width", "height"))
        close((x, y, x + w, y + h), box_(items[0]["subs"]), 4e-3, "background")
        items = [it for it in items[1:] if not (it["kind"] == "stroke" and it["color"][0] == "gray")]
    ensure(all(it["kind"] == "stroke" for it in items), "painted: %r", [it["kind"] for it in items])
    if cls is graph.graphx:     # the other axis is a detail
        items = [it for it in items if it["color"][0] == "rgb" and max(it["color"][1:]) > 0]
    # order
    def rank(it):
        r, e, b = it["color"][1:]
        if abs(r - 1) < 1e-4:
            return 4 if round(e * 20) == 19 else 3
        e = round(e * 16)
        return 0 if 4 <= e < 8 else 1 if e == 8 else 2
    ranks = [rank(it) for it in items]
    ensure(ranks == sorted(ranks), "order of grid, base paths, ticks, labels and titles: %r", ranks)
    compare(list(pics.values()), items)
    busy(list(pics.values()), ctx)
    for n in pics:
        ctx.label("axis " + n)
    ctx.label("moved", any(v is not None for v in at.values()))
    ctx.label(g["kind"])


def box_(subs):
    p = [q for s in subs for q in points(s)]
    return (min(x for x, y in p), min(y for x, y in p), max(x for x, y in p), max(y for x, y in p))



# ---- bar and split axes -----------------------------------------------------------------------------

barlinks = barpainters.map(lambda p: dict(p, labelattrs=p["labelattrs"] if p["labelvequalize"] == 0 else None, titleattrs=p["titleattrs"] if p["labelhequalize"] else None))
dists = dict(dist=st.sampled_from([0.5, 0, 0.2, 1]), firstdist=st.sampled_from([None, None, 0, 0.4]), lastdist=st.sampled_from([None, None, 0, 0.3]), reverse=st.sampled_from([False, False, True]))


@st.composite
def bars(draw):
    c = dict(geom=dict(xpos=draw(st.sampled_from([0, 1])), ypos=draw(st.sampled_from([0, 2])), width=draw(st.sampled_from([5, 8])), height=draw(st.sampled_from([4, 6])), kind=draw(st.sampled_from(["xy", "flipped"]))))
    c["name"] = draw(st.sampled_from(["x", "y"]))
    c["kind"] = draw(st.sampled_from(["plain", "plain", "nested", "sub", "split", "split"]))
    c["dists"] = {k: draw(v) for k, v in dists.items()}
    c["p"], c["link"] = draw(barpainters), draw(barlinks)
    if c["kind"] == "split":
        for k in ("p", "link"):
            c[k] = dict(c[k], blen=draw(st.sampled_from([0.5, 0.2, 1])), bdist=draw(st.sampled_from([0.05, 0.2, 0.1])), angle=draw(st.sampled_from([-60, -60, 60, 90, 30, 0])), lines=draw(st.sampled_from([True, True, True, False])))
    c["title"] = draw(st.one_of(st.none(), size_))
    c["how"] = draw(st.sampled_from(["init", "call"]))
    c["subs"] = []
    for _ in range(draw(st.integers(1, 4))):
        d = dict(size=draw(size_), sized=draw(st.sampled_from([None, None, 2, 0.5])))
        if c["kind"] == "nested":
            d["names"] = draw(st.lists(size_, min_size=1, max_size=3))
        elif c["kind"] != "plain":
            d["axis"] = draw(axes_())
            d["axis"]["how"] = "init"
            d["axis"]["link"] = dict(draw(links), grid=False)
        c["subs"].append(d)
    c["inner"] = dict(dists={k: draw(v) for k, v in dists.items()}, p=draw(barpainters), link=draw(barlinks))
    c["fmt"] = draw(st.sampled_from(["eps", "eps", "svg"]))
    return c


def total(n, d):
    return (d["dist"] / 2 if d["firstdist"] is None else d["firstdist"]) + (d["dist"] / 2 if d["lastdist"] is None else d["lastdist"]) + n + (n - 1) * d["dist"]


def spans(sizes, d):
    "[(vmin, vmax, from, to)]"
    first = d["dist"] / 2 if d["firstdist"] is None else d["firstdist"]
    last = d["dist"] / 2 if d["lastdist"] is None else d["lastdist"]
    total = first + last + sum(sizes) + d["dist"] * (len(sizes) - 1)
    res, x = [], first
    for s in sizes:
        res.append([x / total, (x + s) / total, (x - d["dist"] / 2) / total, (x + s + d["dist"] / 2) / total])
        x += s + d["dist"]
    res[0][2], res[-1][3] = 0, 1
    return res


def split_(p, k, cls):
    from pyx import color
    cls, kw = cls, dict(titledist=p["titledist"], titledirection=dirs(p["titledirection"]), titlepos=p["titlepos"], titleattrs=None if p["titleattrs"] is None else [textattr(a) for a in p["titleattrs"]],
                        breaklinesdist=p["bdist"], breaklineslength=p["blen"], breaklinesangle=p["angle"], breaklinesattrs=[color.rgb(*colour(k, 9))] if p["lines"] else None, textengine=engine())
    return cls(**kw)


def called(c, a, p, k, cls):
    _, kw = painter_(p, k, "bar")
    if c["how"] == "call":
        few = dict(list(kw.items())[1::2])
        return cls(**few)(**{n: v for n, v in kw.items() if n not in few})
    return cls(**kw)


def check_bar(c, ctx):
    from pyx import graph
    from pyx.graph import axis
    P = axis.painter
    g = c["geom"]
    kind = c["kind"]
    n = len(c["subs"])
    names = [text_(s["size"], 20 + i) for i, s in enumerate(c["subs"])]
    d = {k: v for k, v in c["dists"].items()}
    kw = dict(dist=d["dist"], reverse=int(d["reverse"]), title=text_(c["title"], 20 + 19))
    if kind == "split":
        # first and last distances vanish by default
        for k in ("firstdist", "lastdist"):
            if d[k] is None:
                d[k] = 0
            else:
                kw[k] = d[k]
        kw.update(painter=split_(c["p"], 1, P.split), linkpainter=split_(c["link"], 16, P.linkedsplit))
    else:
        kw.update(firstdist=d["firstdist"], lastdist=d["lastdist"], painter=called(c, None, c["p"], 1, P.bar), linkpainter=called(c, None, c["link"], 16, P.linkedbar))
    order = list(range(n))[::-1] if d["reverse"] else list(range(n))
    sizes = [1] * n
    if kind in ("sub", "split"):
        subs = {}
        for i, s in enumerate(c["subs"]):
            lc, lk = painter_(s["axis"]["link"], 17 + i)
            if s["sized"] is None:
                subs[names[i]] = linear(s["axis"], 2 + i, linkpainter=P.linked(**lk))
            else:
                sizes[i] = s["sized"]
                lin = linear(s["axis"], 2 + i, linkpainter=P.linked(**lk))
                subs[names[i]] = axis.sizedlinear(size=s["sized"], min=0, max=1, reverse=lin.reverse, title=lin.title, parter=None, manualticks=lin.manualticks, painter=lin.painter, linkpainter=lin.linkpainter)
        kw["subaxes"] = subs
        ax = (axis.split if kind == "split" else axis.bar)(**kw)
    elif kind == "nested":
        e = c["inner"]["dists"]
        inner = axis.bar(dist=e["dist"], firstdist=e["firstdist"], lastdist=e["lastdist"], reverse=int(e["reverse"]), painter=called(c, None, c["inner"]["p"], 2, P.bar), linkpainter=called(c, None, c["inner"]["link"], 17, P.linkedbar))
        ax = axis.nestedbar(defaultsubaxis=inner, **kw)
    else:
        ax = axis.bar(**kw)
    o = "y" if c["name"] == "x" else "x"
    gr = graph.graphxy(xpos=g["xpos"], ypos=g["ypos"], width=g["width"], height=g["height"], flipped=g["kind"] == "flipped",
                       **{c["name"]: ax, o: axis.lin(min=0, max=1, painter=None, linkpainter=None, parter=None)})
    rows = []
    for i, s in enumerate(c["subs"]):
        if kind == "nested":
            rows += [(names[i], (text_(m, 20 * (i + 2) + j), v)) for j, m in enumerate(s["names"]) for v in (0, 1)]
        else:
            rows += [(names[i], v) for v in (0, 1)]
    gr.plot(graph.data.values(**{c["name"]: rows, o: [0.5] * len(rows)}), [graph.style.symbol(symbolattrs=None)])
    items = out(gr, c["fmt"])
    if kind == "nested":    # as large as the inner axis
        sizes = [total(len(s["names"]), c["inner"]["dists"]) for s in c["subs"]]
    S = sides(g)
    pics, fills = [], []
    for side, p, k in ((S[c["name"]], c["p"], 1), (S[c["name"] + "2"], c["link"], 16)):
        sp = spans([sizes[i] for i in order], d)
        pic = picture(g, side, k)
        for i, (a, b, f, t) in zip(order, sp):
            s = c["subs"][i]
            if kind in ("sub", "split"):
                part = pic.part(a, b, f, t, k + 1 + i)
                ap = s["axis"]["p"] if k == 1 else s["axis"]["link"]
                part.regular(ap, tickrows(s["axis"], i + 2), titlerow(s["axis"], i + 2))
                pic.join(part)
            elif kind == "nested":
                part = pic.part(a, b, f, t, k + 1)
                e = c["inner"]["dists"]
                inner = list(enumerate(s["names"]))
                if e["reverse"]:
                    inner = inner[::-1]
                part.bar(c["inner"]["p"] if k == 1 else c["inner"]["link"], [(tuple(m) + (20 * (i + 2) + j,), u, v, w) for (j, m), (u, v, w, x) in zip(inner, spans([1] * len(inner), e))], None)
                pic.join(part)
        if kind == "split":
            if p["lines"]:
                r = math.radians(p["angle"])
                (x, y), (w, h), dd = side
                l = math.hypot(w, h)
                u = (w / l, h / l)
                z = (math.cos(r) * u[0] - math.sin(r) * u[1], math.sin(r) * u[0] + math.cos(r) * u[1])
                nrm = (-z[1], z[0])
                L, D = p["blen"] * CM / 2, p["bdist"] * CM / 2
                for a, b, f, t in sp[1:]:
                    q = pic.at(f)
                    two = [[(q[0] + s * D * nrm[0] + e * L * z[0], q[1] + s * D * nrm[1] + e * L * z[1]) for e in (-1, 1)] for s in (-1, 1)]
                    for ln in two:
                        pic.line(9, ln)
                    fills.append((k, two[0] + two[1][::-1]))
                pic.extent = max(pic.extent, D * abs(math.cos(r)) + L * abs(math.sin(r)))
            pic.title(p, None if c["title"] is None else tuple(c["title"]) + (39,))
        else:
            pic.bar(p, [(tuple(c["subs"][i]["size"]) + (20 + i,), a, b, f) for i, (a, b, f, t) in zip(order, sp)], None if c["title"] is None else tuple(c["title"]) + (39,))
        pics.append(pic)
    gotf = [(i, it) for i, it in enumerate(items) if it["kind"] == "fill"]
    ensure(len(gotf) == len(fills), "%d filled areas, expected %d", len(gotf), len(fills))
    for i, it in gotf:
        ensure(it["color"] in (("gray", 1.0), ("rgb", 1.0, 1.0, 1.0)) or list(it["color"]) in (["gray", 1.0], ["rgb", 1.0, 1.0, 1.0]), "colour of the break %r", it["color"])
        q = points(it["subs"][0])[:4]
        m = [k for k, w in fills if all(min(math.dist(x, y) for y in w) < 4e-3 for x in q)]
        ensure(m, "break at %r, expected %r", q, fills)
        for j, jt in enumerate(items):
            if jt["kind"] == "stroke" and jt["color"][0] == "rgb" and abs(jt["color"][1] - 1) > 1e-4 and round(jt["color"][1] * 32) // 16 == m[0] // 16:
                e = round(jt["color"][2] * 16)
                ensure(e != 8 or j < i, "base path above a break")
                if e == 9 and all(min(math.dist(x, y) for y in q) < 4e-3 for x in points(jt["subs"][0])):
                    ensure(j > i, "lines of a break below its area")
    items = [it for it in items if it["kind"] != "fill"]
    compare(pics, items)
    busy(pics, ctx)
    ctx.label(kind)
    if fills:
        ctx.nontrivial("break")


SUBS = [Sub("paths", paths(), check_path, quick=1500, thorough=40000),
        Sub("graphs", graphs(), check_graph, quick=700, thorough=20000),
        Sub("bars", bars(), check_bar, quick=900, thorough=25000)]
