"""C35 three-dimensional graphs show the projection of their data and axes"""
import io, logging, math, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import ps, prog, refpath as R
from checks.c33 import clip, cutline, conv, critical, inside, value, axspec, axis_, polylines, seg, data_
from checks.c22 import triangles

PROP = "C35"
RULE = ("random three-dimensional graphs (central and parallel projectors, scales, sizes, axes on any of the twelve edges) with lines, symbols, grids, surfaces and bars of random data are written as EPS; "
        "axes, ticks, cut lines, visible faces and the colour seen at sample points are compared with own projective geometry and ray casting; non-trivial: something visible inside the graph")
CM = 72 / 2.54


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


angles = dict(phi=st.one_of(st.sampled_from([-30, 30, 45, 120, 210, -100]), real(-400, 400, 1)), theta=st.one_of(st.sampled_from([30, 20, -25, 60]), real(-85, 85, 1)), rad=st.booleans())
projectors = st.one_of(st.fixed_dictionaries(dict(kind=st.just("parallel"), **angles)),
                       st.fixed_dictionaries(dict(kind=st.just("central"), distance=st.sampled_from([6, 8, 10, 10, 25.5, 1000]), **angles)))
geoms = st.fixed_dictionaries(dict(proj=projectors, xpos=st.sampled_from([0, 0, 1, -3.5]), ypos=st.sampled_from([0, 0, 2, -0.75]), size=st.sampled_from([1, 2, 4, 3.3]),
                                   xs=st.sampled_from([1, 1, 1, 0.5, 2]), ys=st.sampled_from([1, 1, 1, 0.7, 1.8]), zs=st.sampled_from([None, None, 1, 0.4])))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(dot(a, a))


class View:

    def __init__(self, p):
        phi, theta = math.radians(p["phi"]), math.radians(p["theta"])
        # towards the viewer, to the right and up
        self.n = [math.cos(phi) * math.cos(theta), math.sin(phi) * math.cos(theta), math.sin(theta)]
        r = cross([0, 0, 1], self.n)
        self.r = [x / norm(r) for x in r]
        self.u = cross(self.n, self.r)
        self.d = p.get("distance")
        self.eye = [self.d * x for x in self.n] if self.d else None

    def point(self, p):
        t = self.d / (self.d - dot(p, self.n)) if self.d else 1
        return t * dot(p, self.r), t * dot(p, self.u)

    def toeye(self, p):
        return sub(self.eye, p) if self.d else self.n

    def depth(self, p):
        "the larger the farther"
        return norm(self.toeye(p)) - self.d if self.d else -dot(p, self.n)

    def angle(self, a, b, c):
        n = cross(sub(b, a), sub(c, a))
        e = self.toeye(a)
        return -dot(n, e) / norm(n) / norm(e)


class Geom(View):
    "the same in graph coordinates"

    def __init__(self, g):
        View.__init__(self, g["proj"])
        self.s = [g["xs"], g["ys"], g["zs"] or 2 / (1 + 5 ** 0.5)]
        if self.d and self.d < 1.5 * norm(self.s):
            raise Skip("viewer inside")
        self.g = g

    def space(self, v):
        return [2 * s * (x - 0.5) for s, x in zip(self.s, v)]

    def pos(self, v):
        x, y = self.point(self.space(v))
        return ((self.g["xpos"] + x * self.g["size"]) * CM, (self.g["ypos"] + y * self.g["size"]) * CM)


def projector(p):
    from pyx import graph
    kw = dict(phi=p["phi"], theta=p["theta"])
    if p["rad"]:
        kw = dict(phi=math.radians(p["phi"]), theta=math.radians(p["theta"]), anglefactor=1)
    if p["kind"] == "central":
        return graph.graphxyz.central(p["distance"], **kw)
    return graph.graphxyz.parallel(**kw)


def graph_(g, **axes):
    from pyx import graph
    kw = dict(axes)
    if g["zs"]:
        kw["zscale"] = g["zs"]
    return graph.graphxyz(xpos=g["xpos"], ypos=g["ypos"], size=g["size"], xscale=g["xs"], yscale=g["ys"], projector=projector(g["proj"]), **kw)


def dataaxes(c, gr):
    from pyx.graph import axis
    for ax in gr.axes.values():
        if isinstance(ax, axis.linkedaxis):
            ax.painter = None
    return gr


def out(gr):
    try:
        f = io.BytesIO()
        gr.writeEPSfile(f)
        i = ps.interpret(f.getvalue())
        return prog.ink([x for p in i.pages for x in p] + i.out)
    except ValueError as e:
        if "empty" in str(e):
            return []
        raise


# ---- projectors ------------------------------------------------------------------------------------

vec = st.tuples(real(-0.5, 1.5, 3), real(-0.5, 1.5, 3), real(-0.5, 1.5, 3))


def check_projector(c, ctx):
    from pyx import unit
    V = Geom(c["geom"])
    p = projector(c["geom"]["proj"])
    gr = graph_(c["geom"])
    pts = c["pts"]
    scale = norm(V.s)
    for v in pts:
        q = V.space(v)
        close(V.point(q), p.point(*q), 1e-8, "point(%r)" % (q,))
        ensure(abs(V.depth(q) - p.zindex(*q)) < 1e-8, "zindex(%r) is %r, expected %r", q, p.zindex(*q), V.depth(q))
        close(V.pos(v), gr.vpos_pt(*v), 1e-6, "vpos_pt(%r)" % (v,))
        close(V.pos(v), [unit.topt(x) for x in gr.vpos(*v)], 1e-6, "vpos(%r)" % (v,))
        ensure(abs(V.depth(q) / scale - gr.vzindex(*v)) < 1e-8, "vzindex(%r)", v)
        if inside(v):
            ensure(-1 - 1e-9 <= gr.vzindex(*v) <= 1 + 1e-9, "vzindex(%r) is %r", v, gr.vzindex(*v))
            ctx.nontrivial()
    for a, b, d in zip(pts, pts[1:], pts[2:]):
        A, B, D = V.space(a), V.space(b), V.space(d)
        n = norm(cross(sub(B, A), sub(D, A)))
        if n < 1e-4:
            continue
        want = V.angle(A, B, D)
        ensure(abs(p.angle(*(A + B + D)) - want) < 1e-6, "angle")
        ensure(abs(gr.vangle(*(tuple(a) + tuple(b) + tuple(d))) - want) < 1e-6, "vangle of %r is %r, expected %r", (a, b, d), gr.vangle(*(tuple(a) + tuple(b) + tuple(d))), want)
        l = gr.vgeodesic(*(tuple(a) + tuple(b)))
        l.append(gr.vgeodesic_el(*(tuple(b) + tuple(d))))
        same([V.pos(a) + V.pos(b), V.pos(b) + V.pos(d)], [dict(subs=frompath(l))], "geodesic")
        gr2 = [V.pos(a), V.pos(b)]
        for k in range(3):
            ln = c["cap"]
            e = [0, 0, 0]
            e[k] = 0.5 * ln / (c["geom"]["size"] * CM) / (2 * V.s[k])
            cap = gr.vcap_pt(k, ln, *a)
            close(V.pos([x - y for x, y in zip(a, e)]) + V.pos([x + y for x, y in zip(a, e)]), cap.atbegin_pt() + cap.atend_pt(), 1e-6, "cap")
    ctx.label(c["geom"]["proj"]["kind"])
    # values
    x, y, z = (c["vals"][0] - 1) / 4, (c["vals"][1] + 2) / 3, math.log10(c["vals"][2]) / 2
    from pyx import graph
    kw = dict(painter=None, parter=None)
    ga = graph_(c["geom"], x=graph.axis.lin(min=1, max=5, **kw), y=graph.axis.lin(min=-2, max=1, reverse=1, **kw), z2=graph.axis.log(min=1, max=100, **kw), z=graph.axis.lin(min=0, max=1, **kw), x2=None, y2=None)
    close(V.pos((x, 1 - y, z)), ga.pos_pt(*c["vals"], zaxis=ga.axes["z2"]), 1e-6, "pos_pt")
    close(V.pos((x, 1 - y, c["vals"][2])), [unit.topt(t) for t in ga.pos(*c["vals"])], 1e-6, "pos")


def frompath(p):
    pts = [(e.x_pt, e.y_pt) for e in p.pathitems]
    s = R.Subpath(pts[0])
    s.segs = [R.Line(a, b) for a, b in zip(pts, pts[1:])]
    return [s]


# ---- axes ------------------------------------------------------------------------------------------

EDGES = [n + k for n in "xyz" for k in ("", "2", "3", "4")]


@st.composite
def axescase(draw):
    c = dict(geom=draw(geoms))
    names = draw(st.lists(st.sampled_from(EDGES), unique=True, max_size=8))
    c["axes"] = {n: dict(ticks=draw(st.lists(st.integers(0, 20), unique=True, min_size=1, max_size=4)), rev=draw(st.booleans()), grid=draw(st.sampled_from([False, False, True])),
                         inner=draw(st.sampled_from([0.2, None, 0.1, -0.3])), outer=draw(st.sampled_from([None, None, 0.15]))) for n in names}
    c["at"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 20)))
    c["atname"] = draw(st.sampled_from([None, "z", "z2"]))
    c["insert"] = draw(st.booleans())
    return c


def check_axes(c, ctx):
    from pyx import graph, color
    V = Geom(c["geom"])
    kw = {}
    P = graph.axis.painter
    cols = {}
    for n in EDGES:
        if n in c["axes"]:
            a = c["axes"][n]
            k = EDGES.index(n) + 1
            cols[n] = [(k / 16, e, 0.5) for e in (0.25, 0.5, 0.75)]
            pa = P.regular(innerticklength=a["inner"], outerticklength=a["outer"], basepathattrs=[color.rgb(*cols[n][0])], tickattrs=[color.rgb(*cols[n][1])],
                           gridattrs=[color.rgb(*cols[n][2])] if a["grid"] else None, labelattrs=None, titleattrs=None)
            kw[n] = graph.axis.lin(min=0, max=1, reverse=int(a["rev"]), manualticks=[graph.axis.tick.tick((t, 20)) for t in a["ticks"]], parter=None, painter=pa)
        elif len(n) == 1:
            kw[n] = graph.axis.lin(min=0, max=1, painter=None, parter=None)
        elif n[1] == "2":
            kw[n] = None
    at = c["at"]
    if at is not None:
        kw["xy12axesat"] = at / 20
        if c["atname"] and (c["atname"] == "z" or "z2" in c["axes"]):
            kw["xy12axesatname"] = c["atname"]
    gr = graph_(c["geom"], **kw)
    gr.layer("filldata").fill(__import__("pyx").path.rect_pt(1, 2, 3, 4), [color.rgb(1, 0, 1)])
    try:
        got = out(gr)
    except ZeroDivisionError:
        e = V.eye or V.n
        if any(abs(e[0] * s - e[1]) < 1e-2 for s in (-1, 1)) or abs(V.n[2]) < 1e-2:
            # ticks along the view direction
            raise Skip("tick direction")
        raise
    base = 0
    if at is not None:
        base = at / 20
        n = kw.get("xy12axesatname", "z")
        if n in c["axes"] and c["axes"][n]["rev"]:
            base = 1 - base
    # the edge in front: depth of the edges
    front = lambda i: V.depth([0 if k != i else 1 for k in range(3)]) < V.depth([0 if k != i else -1 for k in range(3)])
    for i in (0, 1):
        if abs(V.n[i]) < 1e-4:
            raise Skip("along an axis")
    xo, yo = int(front(1)), int(front(0))

    def shown(i, k):
        "is the outside of a face seen?"
        n = [0, 0, 0]
        n[i] = 1 if k else -1
        p = [0, 0, 0]
        p[i] = V.s[i] * n[i]
        a = dot(n, V.toeye(p))
        if abs(a) < 1e-4:
            raise Skip("along a face")
        return a > 0

    marks = [i for i, g in enumerate(got) if g["kind"] == "fill"]
    ensure(len(marks) == 1, "%d fills", len(marks))
    left = [g for g in got if g["kind"] != "fill"]
    for n, a in c["axes"].items():
        i, k = "xyz".index(n[0]), int(n[1:] or 1) - 1
        o = [j for j in (0, 1, 2) if j != i]
        if i == 2:
            fixed = {0: k & 1, 1: k >> 1}
            to = {0: 1 - fixed[0], 1: 1 - fixed[1]}
        else:
            e = xo if i == 0 else yo
            if k & 1:
                e = 1 - e
            z = base if k < 2 else 1
            fixed = {1 - i: e, 2: z}
            to = {1 - i: 1 - e, 2: z}
        at_ = lambda v, f: V.pos([v if j == i else f[j] for j in range(3)])
        mine = lambda col: [g for g in left if g["color"][0] == "rgb" and all(abs(x - y) < 1e-4 for x, y in zip(g["color"][1:], cols[n][col]))]
        b, t, gd = mine(0), mine(1), mine(2)
        ensure(len(b) == 1, "axis %s has %d baselines", n, len(b))
        same([at_(0, fixed) + at_(1, fixed)], b, "baseline of axis " + n)
        want = []
        for x in a["ticks"]:
            v = 1 - x / 20 if a["rev"] else x / 20
            p, q = at_(v, fixed), at_(v, to)
            d = sub(q, p)
            if norm(d) < 1e-3:
                raise Skip("tick direction")
            d = [y / norm(d) for y in d]
            r, s = (a["inner"] or 0) * CM, (a["outer"] or 0) * CM
            want.append((p[0] + r * d[0], p[1] + r * d[1], p[0] - s * d[0], p[1] - s * d[1]))
        if a["inner"] is None and a["outer"] is None:
            ensure(not t, "axis %s has ticks", n)
        else:
            same([w for w in want if math.dist(w[:2], w[2:]) > 1e-6], t, "ticks of axis " + n)
        if a["grid"]:
            ensure(len(gd) == len(a["ticks"]), "axis %s has %d grid lines", n, len(gd))
            pts = []
            for x in a["ticks"]:
                v = 1 - x / 20 if a["rev"] else x / 20
                cs = [at_(v, dict(zip(o, (e, f)))) for e, f in ((0, 0), (1, 0), (1, 1), (0, 1))]
                pts += [p + q for p, q in zip(cs, cs[1:] + cs[:1])]
            same(pts, gd, "grid of axis " + n)
        else:
            ensure(not gd, "grid of axis %s", n)
        left = [g for g in left if not any(g is h for h in b + t + gd)]
        # axes at edges which are behind the data
        if at is None or k >= 2 or i == 2:
            hidden = not any(shown(j, fixed[j]) for j in fixed)
            pos = [m for m, g in enumerate(got) if any(g is h for h in b + t)]
            ensure(all((m < marks[0]) == hidden for m in pos), "axis %s is painted %s the data", n, "after" if hidden else "before")
            ctx.label("hidden" if hidden else "visible")
        ctx.nontrivial("axis")
    ensure(not left, "%d additional lines", len(left))


def same(want, got, what):
    "lines (x1, y1, x2, y2), in any order and direction"
    ls = []
    for p in polylines(got):
        ls += [tuple(a) + tuple(b) for a, b in zip(p, p[1:])]
    for g in got:
        for s in g["subs"]:
            if s.closed and math.dist(R_end(s), s.first) > 1e-6:
                ls.append(tuple(R_end(s)) + tuple(s.first))
    ls = [l for l in ls if math.dist(l[:2], l[2:]) > 1e-4]
    want = [w for w in want if math.dist(w[:2], w[2:]) > 1e-3]
    for w in want:
        best = min(((min(max(abs(a - b) for a, b in zip(w, l)), max(abs(a - b) for a, b in zip(w, l[2:] + l[:2]))), k) for k, l in enumerate(ls)), default=None)
        ensure(best is not None and best[0] < 5e-3, "%s: the line %r is missing in %r", what, w, ls)
        ls.pop(best[1])
    ensure(not [l for l in ls if math.dist(l[:2], l[2:]) > 5e-3], "%s: the lines %r are not expected", what, ls)


def R_end(s):
    return tuple(float(x) for x in s.segs[-1].eval([1.0])[0]) if s.segs else s.first


# ---- lines and symbols -----------------------------------------------------------------------------

@st.composite
def lines(draw):
    c = dict(geom=draw(geoms), x=draw(axspec), y=draw(axspec), z=draw(axspec), z2=draw(st.one_of(st.none(), axspec)))
    c["data"] = []
    for _ in range(draw(st.integers(1, 2))):
        nz = draw(st.sampled_from(["z", "z2"])) if c["z2"] else "z"
        c["data"].append(dict(nz=nz, rows=draw(st.lists(st.tuples(value(c["x"]), value(c["y"]), value(c[nz])), min_size=2, max_size=8))))
    c["style"] = draw(st.sampled_from(["line", "line", "symbol", "error"]))
    return c


def dgraph(c):
    kw = {k: axis_(c[k]) for k in ("x", "y", "z", "z2") if c.get(k)}
    gr = graph_(c["geom"], x2=None, y2=None, **kw)
    return gr


def check_line(c, ctx):
    from pyx import graph
    V = Geom(c["geom"])
    gr = dgraph(c)
    S = graph.style
    style = {"line": [S.line()], "symbol": [S.symbol(S.symbol.plus, size=0.1)], "error": [S.errorbar(size=0.1)]}[c["style"]]
    ds = []
    for d in c["data"]:
        cols = ["x", "y", d["nz"]]
        rows = d["rows"]
        if c["style"] == "error":
            cols = cols + ["dx", "d" + d["nz"]]
            lo, hi = c[d["nz"]][1], c["x"][1]
            rows = [tuple(r) + (0.25, 0.5) for r in rows]
        ds.append(data_(cols, rows))
    gr.plot(ds, style)
    got = out(gr)
    n = 0
    allbars = []
    for i, d in enumerate(c["data"]):
        rows = []
        for r in d["rows"]:
            v = [conv(c[k], x) for k, x in zip(("x", "y", d["nz"]), r)]
            if any(critical(t) for t in v):
                raise Skip("at the boundary")
            rows.append(None if None in v else tuple(v))
        if c["style"] == "line":
            pieces, cut = cutline(rows)
            want = []
            for l in pieces:
                pts = [V.pos(p) for p in l]
                want += [p + q for p, q in zip(pts, pts[1:])]
            want = [w for w in want if math.dist(w[:2], w[2:]) > 1e-2]
            if want:
                ensure(n < len(got), "line %d is not painted", i)
                same(want, [got[n]], "line %d" % i)
                n += 1
                ctx.nontrivial("line")
                ctx.label("cut" if cut else "whole")
            elif n < len(got) and sum(p.len for p in R.polys(got[n]["subs"])) < 2e-2:
                n += 1
            continue
        for r, raw in zip(rows, d["rows"]):
            if c["style"] == "symbol":
                if inside(r):
                    x, y = V.pos(r)
                    h = 0.1 * CM * 0.5 ** 0.5
                    ensure(n < len(got), "a symbol is missing")
                    same([(x - h, y, x + h, y), (x, y - h, x, y + h)], [got[n]], "symbol")
                    n += 1
                    ctx.nontrivial("symbol")
            else:
                if r is None:
                    continue
                want = []
                crit = False
                for k, (nm, dv) in enumerate(zip(("x", "y", d["nz"]), (0.25, None, 0.5))):
                    if dv is None:
                        continue
                    e1, e2 = conv(c[nm], raw[k] - dv), conv(c[nm], raw[k] + dv)
                    if e1 is None or e2 is None:
                        raise Skip("missing end")
                    if critical(e1) or critical(e2):
                        raise Skip("at the boundary")
                    if not all(inside([x]) for m, x in enumerate(r) if m != k):
                        continue
                    A, B = list(r), list(r)
                    A[k], B[k] = e1, e2
                    pc = clip(A, B)
                    if pc is not None:
                        want.append(V.pos(pc[0]) + V.pos(pc[1]))
                    for E, v in ((A, e1), (B, e2)):
                        if inside(E):
                            for m in range(3):
                                if m != k:
                                    f = [0, 0, 0]
                                    f[m] = 0.5 * 0.1 / c["geom"]["size"] / (2 * V.s[m])
                                    want.append(V.pos([s - t for s, t in zip(E, f)]) + V.pos([s + t for s, t in zip(E, f)]))
                allbars += want
    if c["style"] == "error":
        if allbars:
            ctx.nontrivial("errorbar")
        same(allbars, got, "errorbars")
        n = len(got)
    ensure(n == len(got), "%d additional items", len(got) - n)
    ctx.label(c["style"])


# ---- surfaces --------------------------------------------------------------------------------------

@st.composite
def surfaces(draw):
    c = dict(geom=draw(geoms))
    c["index"] = draw(st.sampled_from([[0, 1], [0, 1], [1, 0], [0, 2], [2, 1], [1, 2], [2, 0]]))
    n1, n2 = draw(st.integers(2, 5)), draw(st.integers(2, 4))
    c["v1"] = draw(st.lists(st.integers(0, 20), min_size=n1, max_size=n1, unique=True))
    if draw(st.sampled_from([False, False, True])):
        # quadratic cells
        k = draw(st.sampled_from([3, 5]))
        c["v1"], c["v2"] = [k * i for i in range(n1)], [k * i for i in range(n2)]
        c["geom"] = dict(c["geom"], xs=1, ys=1, zs=1)
    else:
        c["v2"] = draw(st.lists(st.integers(0, 20), min_size=n2, max_size=n2, unique=True))
    rows = [[a, b, draw(st.one_of(real(0, 1, 2), real(0.3, 0.6, 2))), draw(real(0, 1, 2))] for a in range(n1) for b in range(n2)]
    if draw(st.sampled_from([False, False, True])):
        for _ in range(draw(st.integers(1, 2))):
            if draw(st.booleans()):
                rows.pop(draw(st.integers(0, len(rows) - 1)))
            else:
                rows[draw(st.integers(0, len(rows) - 1))][2] = draw(st.sampled_from([None, 1.5, -0.25]))
    c["rows"] = draw(st.permutations(rows))
    c["rev"] = [draw(st.sampled_from([False, False, True])) for _ in range(3)]
    c["color"] = draw(st.booleans())
    c["space"] = draw(st.sampled_from(["gray", "rgb"]))
    c["back"] = draw(st.booleans())
    c["grid"] = draw(st.sampled_from([None, None, (0.05, 0.05), (0.2, 0), (0, 0.1), (0.15, 0.25)]))
    c["pts"] = draw(st.lists(st.tuples(real(0, 1, 3), real(0, 1, 3)), min_size=8, max_size=8))
    return c


def bary(t, p):
    (x1, y1), (x2, y2), (x3, y3) = t
    d = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3)
    if abs(d) < 1e-3:
        return None
    a = ((y2 - y3) * (p[0] - x3) + (x3 - x2) * (p[1] - y3)) / d
    b = ((y3 - y1) * (p[0] - x3) + (x1 - x3) * (p[1] - y3)) / d
    return a, b, 1 - a - b


def lerp(a, b, t):
    return [x + t * (y - x) for x, y in zip(a, b)]


def check_surface(c, ctx):
    from pyx import graph, color
    V = Geom(c["geom"])
    i1, i2 = c["index"]
    i3 = 3 - i1 - i2
    if V.d and any(abs(V.eye[i]) <= V.s[i] for i in (i1, i2)):
        raise Skip("viewer above the surface")
    ax = {n: graph.axis.lin(min=0, max=1, reverse=int(r), painter=None, parter=None) for n, r in zip("xyz", c["rev"])}
    gr = graph_(c["geom"], x2=None, y2=None, **ax)
    if c["space"] == "gray":
        grad, back, gridc = color.gradient.Gray, color.gray(0.03125), color.gray(0.984375)
        val = lambda t: [grad.getcolor(t).g]
        backv, gridv = [0.03125], [0.984375]
    else:
        grad, back, gridc = color.rgbgradient(color.gradient.Rainbow), color.rgb(0, 0, 0.25), color.rgb(0.5, 1, 1)
        val = lambda t: [getattr(grad.getcolor(t), k) for k in "rgb"]
        backv, gridv = [0, 0, 0.25], [0.5, 1, 1]
    kw = dict(gradient=grad, backcolor=back if c["back"] else None, keygraph=None, coloraxis=graph.axis.lin(min=0, max=1))
    if c["grid"]:
        kw.update(gridcolor=gridc, gridlines1=c["grid"][0], gridlines2=c["grid"][1])
    rows = []
    for a, b, h, col in c["rows"]:
        r = [None] * 4
        r[i1], r[i2], r[i3], r[3] = c["v1"][a] / 20, c["v2"][b] / 20, h, col
        rows.append(r)
    cols = ["x", "y", "z"] + (["color"] if c["color"] else [])
    gr.plot(data_(cols, [r[:len(cols)] for r in rows]), [graph.style.gridpos(index1=i1, index2=i2), graph.style.surface(**kw)])
    # own triangles
    P = {}
    for (a, b, h, col), r in zip(c["rows"], rows):
        v = [None if x is None else 1 - x if c["rev"][i] else x for i, x in enumerate(r[:3])]
        P[a, b] = (v if inside(v) else None, col)
    o1 = sorted({r[0] for r in c["rows"] if r[2] is not None}, key=lambda k: c["v1"][k] * (-1 if c["rev"][i1] else 1))
    o2 = sorted({r[1] for r in c["rows"] if r[2] is not None}, key=lambda k: c["v2"][k] * (-1 if c["rev"][i2] else 1))
    # the diagonals of the stripes of the grid depend on the direction (from far to near)
    flip = False
    for i, o in ((i1, o1), (i2, o2)):
        e = V.eye[i] if V.d else V.n[i]
        if abs(V.n[i]) < 1e-4:
            raise Skip("along an axis")
        if e < 0:
            o.reverse()
            flip = not flip
    T, allpts = [], []
    for a, a2 in zip(o1, o1[1:]):
        for b, b2 in zip(o2, o2[1:]):
            corners = [P.get(k) for k in ((a, b), (a, b2), (a2, b), (a2, b2))]
            if any(k is None or k[0] is None for k in corners):
                continue
            vf = [k[0] for k in corners]
            cv = [k[1] for k in corners]
            g1, g2 = c["grid"] or (0, 0)
            v = vf
            v = [lerp(v[0], v[1], g1), lerp(v[1], v[0], g1), lerp(v[2], v[3], g1), lerp(v[3], v[2], g1)]
            v = [lerp(v[0], v[2], g2), lerp(v[1], v[3], g2), lerp(v[2], v[0], g2), lerp(v[3], v[1], g2)]
            mid = [sum(x) / 4 for x in zip(*v)]
            z = V.depth(V.space(mid)) / norm(V.s)
            for k, m in ((0, 1), (2, 0), (1, 3), (3, 2)):
                A, B, M = V.space(v[k]), V.space(v[m]), V.space(mid)
                n = cross(sub(B, A), sub(M, A))
                allpts += [v[k], v[m]]
                if norm(n) < 1e-9 or abs(V.angle(A, B, M)) < 1e-3:
                    raise Skip("along a triangle")
                ang = V.angle(A, B, M)
                # the front is where the direction of increasing first times increasing second coordinate points to
                front = (ang > 0) != flip
                if c["back"] and not front:
                    cc = [backv] * 3
                elif c["color"]:
                    cc = [val(cv[k]), val(cv[m]), val(sum(cv) / 4)]
                else:
                    # the angle is measured at any of the corners
                    cc = [val(0.7 - 0.4 * abs(x) + 0.1 * z) for x in (ang, V.angle(B, M, A), V.angle(M, A, B))]
                T.append(([A, B, M], cc, (a, b)))
            if c["grid"]:
                for k, m, g in ((0, 1, g2), (0, 2, g1), (1, 3, g1), (2, 3, g2)):
                    if g:
                        for tri in ((vf[k], v[m], v[k]), (vf[k], v[m], vf[m])):
                            T.append(([V.space(x) for x in tri], [gridv] * 3, (a, b)))
    S = [([V.pos([x / (2 * s) + 0.5 for x, s in zip(p, V.s)]) for p in t[0]], t) for t in T]
    got = out(gr) if T else []
    if not T:
        try:
            got = [g for g in out(gr) if g["kind"] == "shading"]
        except Exception as e:
            raise Skip("nothing to paint")
        ensure(not any(g["data"] for g in got), "something is painted")
        return
    ensure(len(got) == 1 and got[0]["kind"] == "shading", "painted: %r", [g["kind"] for g in got])
    n = len(backv)
    tr = triangles(got[0]["data"], got[0]["shading"]["Decode"], n)
    G = [tr[k:k + 3] for k in range(0, len(tr), 3)]
    xs, ys = [x for x, y, v in tr], [y for x, y, v in tr]
    want = [p for s in S for p in s[0]]
    close((min(p[0] for p in want), min(p[1] for p in want), max(p[0] for p in want), max(p[1] for p in want)), (min(xs), min(ys), max(xs), max(ys)), 1e-2, "extent of the surface") if not c["back"] or True else None
    seen = 0
    for k, (s, t) in enumerate(c["pts"]):
        tri = S[int(s * 1e6) % len(S)][0]
        w = (0.2 + 0.6 * t) * 1.0
        p = [w * tri[0][j] + (1 - w) * (tri[1][j] * s + tri[2][j] * (1 - s)) for j in (0, 1)]
        hits = []
        bad = False
        for q, (pts3, cc, cell) in S:
            b = bary(q, p)
            if b is None:
                bad |= min(math.dist(p, x) for x in q) < 3 or (min(x[0] for x in q) - 1 < p[0] < max(x[0] for x in q) + 1 and min(x[1] for x in q) - 1 < p[1] < max(x[1] for x in q) + 1)
                continue
            if min(b) < -0.02:
                continue
            if min(b) < 0.02:
                bad = True
                break
            # where the ray meets the plane
            nn = cross(sub(pts3[1], pts3[0]), sub(pts3[2], pts3[0]))
            px, py = [(p[j] / CM - (c["geom"]["xpos"], c["geom"]["ypos"])[j]) / c["geom"]["size"] for j in (0, 1)]
            o = [px * r + py * u for r, u in zip(V.r, V.u)]
            d = sub(o, V.eye) if V.d else [-x for x in V.n]
            dd = dot(nn, d)
            if abs(dd) < 1e-9 * norm(nn):
                bad = True
                break
            tt = dot(nn, sub(pts3[0], o)) / dd
            at = [x + tt * y for x, y in zip(o, d)]
            hits.append((V.depth(at), [dot(b, x) for x in zip(*cc)], cell, cc))
        if bad or not hits:
            continue
        hits.sort(key=lambda h: h[0])
        if len(hits) > 1 and hits[1][0] - hits[0][0] < 1e-3:
            continue
        last = None
        for g in G:
            b = bary([x[:2] for x in g], p)
            if b is not None and min(b) >= 0:
                last = [dot(b, x) for x in zip(*[v[2] for v in g])]
        ensure(last is not None, "nothing is painted at %r: %r", p, hits)
        # occlusion within a cell (three triangles of a single element)
        if len(hits) > 1 and hits[1][2] == hits[0][2]:
            # the order inside a cell is right for quadratic cells only
            a, b = hits[0][2]
            w = min(abs(c["v1"][k] - c["v1"][a]) for k in [o1[o1.index(a) + 1]]) * V.s[i1]
            h = min(abs(c["v2"][k] - c["v2"][b]) for k in [o2[o2.index(b) + 1]]) * V.s[i2]
            if V.d or c["grid"] or V.s[i1] != V.s[i2] or w != h or abs(abs(V.n[i1]) - abs(V.n[i2])) < 1e-2:
                continue
            ctx.label("folded cell")
        ensure(same_(last, hits[0], c), "colour %r at %r, expected %r (layers %r)", last, p, hits[0][1], hits)
        seen += 1
        if len(hits) > 1:
            ctx.label("occlusion")
    if seen:
        ctx.nontrivial("surface")
    ctx.label("points", seen)


def same_(got, hit, c):
    for w in [hit[1]] if c["color"] else [hit[1]] + hit[3]:
        if all(abs(x - y) <= 0.02 for x, y in zip(got, w)):
            return True


# ---- bars ------------------------------------------------------------------------------------------

@st.composite
def bars(draw):
    c = dict(geom=draw(geoms), z=draw(axspec), index=draw(st.sampled_from([2, 2, 0, 1])))
    nx, ny = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    keys = draw(st.permutations([(a, b) for a in range(nx) for b in range(ny)]))[:draw(st.integers(1, nx * ny))]
    c["rows"] = [["abc"[a], "uvw"[b], draw(value(c["z"]))] for a, b in keys]
    c["from"] = draw(st.one_of(st.none(), value(c["z"]).filter(lambda x: x is not None and (c["z"][0] == "lin" or x > 0))))
    c["light"] = draw(st.booleans())
    return c


def check_bars(c, ctx):
    from pyx import graph, color, deco
    V = Geom(c["geom"])
    vi = c["index"]
    o = [k for k in range(3) if k != vi]
    ba = lambda: graph.axis.bar(painter=None)
    names = "xyz"
    axes = {names[o[0]]: ba(), names[o[1]]: ba(), names[vi]: axis_(c["z"])}
    if vi != 2:
        pass
    gr = graph_(c["geom"], x2=None, y2=None, **axes)
    S = graph.style
    kw = {} if c["light"] else dict(gradient=None)
    cols = {names[o[0]] + "name": [r[0] for r in c["rows"]], names[o[1]] + "name": [r[1] for r in c["rows"]], names[vi]: [r[2] for r in c["rows"]]}
    gr.plot(graph.data.values(**cols), [S.barpos(fromvalue=c["from"], frompathattrs=None), S.bar([color.rgb.green], **kw)])
    got = out(gr)
    def span(col):
        ns = []
        for r in c["rows"]:
            if r[col] not in ns:
                ns.append(r[col])
        tot = 1.5 * len(ns)
        return {n: ((0.25 + 1.5 * k) / tot, (1.25 + 1.5 * k) / tot) for k, n in enumerate(ns)}
    sx, sy = span(0), span(1)
    f = 0 if c["from"] is None else min(1, max(0, conv(c["z"], c["from"])))
    faces = []
    for r in c["rows"]:
        v = conv(c["z"], r[2])
        if v is None:
            continue
        if critical(v):
            raise Skip("at the boundary")
        lo, hi = min(f, v), max(f, v)
        if lo > 1 or hi < 0:
            continue
        lo, hi = max(0, lo), min(1, hi)
        if hi - lo < 1e-3:
            raise Skip("thin")
        rng = [None] * 3
        rng[o[0]], rng[o[1]], rng[vi] = sx[r[0]], sy[r[1]], (lo, hi)
        mid = [sum(t) / 2 for t in rng]
        mid[vi] = 0.5
        z = V.depth(V.space(mid)) / norm(V.s)
        for k in range(3):
            for e in (0, 1):
                a, b = [m for m in range(3) if m != k]
                cs = []
                for s, t in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    p = [None] * 3
                    p[k], p[a], p[b] = rng[k][e], rng[a][s], rng[b][t]
                    cs.append(p)
                nrm = [0, 0, 0]
                nrm[k] = 1 if e else -1
                # cosine between the ray to the first corner and the normal
                P = [V.space(p) for p in cs]
                s = [dot(nrm, V.toeye(p)) / norm(V.toeye(p)) for p in P]
                if abs(s[0]) < 1e-4:
                    raise Skip("along a face")
                if s[0] > 0:
                    faces.append(([V.pos(p) for p in cs], s, z, (r[0], r[1])))
    fills = [g for g in got if g["kind"] == "fill"]
    strokes = [g for g in got if g["kind"] == "stroke"]
    ensure(len(fills) == len(strokes) == len(faces), "%d faces are filled and %d stroked, expected %d", len(fills), len(strokes), len(faces))
    order = []
    left = list(faces)
    for g, s in zip(fills, strokes):
        q = polylines([g])[0]
        if math.dist(q[0], q[-1]) < 1e-3:
            q = q[:-1]
        ensure(len(q) == 4, "face with %d corners", len(q))
        m = [w for w in left if all(min(math.dist(a, b) for b in q) < 5e-3 for a in w[0])]
        ensure(m, "face %r is not expected", q)
        if len(m) > 1:
            # degenerated faces look the same
            raise Skip("ambiguous")
        w = m[0]
        left.remove(w)
        same([a + b for a, b in zip(w[0], w[0][1:] + w[0][:1])], [s], "outline")
        order.append(w[3])
        if c["light"]:
            ok = False
            for ang in w[1]:
                col = color.gradient.RedBlack.getcolor(0.7 - 0.4 * abs(ang) + 0.1 * w[2])
                ok |= g["color"][0] == "rgb" and all(abs(x - y) < 5e-3 for x, y in zip(g["color"][1:], [col.r, col.g, col.b]))
            ensure(ok, "colour %r", g["color"])
        else:
            ensure(g["color"] == ("rgb", 0.0, 1.0, 0.0), "colour %r", g["color"])
    # bars behind another one are painted before
    bars = []
    for b in order:
        if b not in bars:
            bars.append(b)
    ensure([b for b in bars for x in order if x == b] == order, "faces of different bars are mixed up")
    for j, b in enumerate(bars):
        for b2 in bars[j + 1:]:
            for k, col in ((0, sx), (1, sy)):
                if b[1 - k] == b2[1 - k]:
                    d = o[k]
                    e = V.n[d] if not V.d else V.eye[d]
                    if V.d and abs(e) <= V.s[d] or abs(V.n[d]) < 1e-3:
                        continue
                    ensure((col[b2[k]][0] - col[b[k]][0]) * e > 0, "bar %r is painted over %r in front of it", b2, b)
                    ctx.label("occlusion")
    if faces:
        ctx.nontrivial("bars")


SUBS = [Sub("projectors", st.fixed_dictionaries(dict(geom=geoms, pts=st.lists(vec, min_size=3, max_size=6), cap=real(0.5, 9, 1), vals=st.tuples(real(1, 5, 2), real(-2, 1, 2), real(1, 100, 2)))), check_projector, quick=600, thorough=20000),
        Sub("axes", axescase(), check_axes, quick=600, thorough=20000),
        Sub("lines", lines(), check_line, quick=700, thorough=25000),
        Sub("surfaces", surfaces(), check_surface, quick=600, thorough=20000),
        Sub("bars", bars(), check_bars, quick=400, thorough=12000)]
