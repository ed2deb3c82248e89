"""C33 graphs place data at the positions defined by the axes; lines and errorbars are cut at the graph boundary, symbols outside are omitted"""
import io, logging, math, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import ps, svg, prog, refpath as R

PROP = "C33"
RULE = ("random two-dimensional graphs (position, size, flipped, linear and logarithmic axes with fixed ends, reversed, up to two axes per dimension) with random data tables including missing and outlying values are plotted "
        "by random styles and written as EPS or SVG; what the interpreter of the output finds is compared with formulas; non-trivial: at least two data rows inside the graph, or a cut")
CM = 72 / 2.54


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- graphs ---------------------------------------------------------------------------------------

lin = st.tuples(st.just("lin"), st.sampled_from([-10, -2, -1, 0, 0, 0.5, 3]), st.sampled_from([1, 1, 2, 4, 10, 7.5]), st.booleans())
log = st.tuples(st.just("log"), st.sampled_from([0.01, 0.5, 1, 1]), st.sampled_from([10, 100, 3]), st.booleans())
axspec = st.one_of(lin, lin, log)
geom = st.fixed_dictionaries(dict(xpos=st.sampled_from([0, 0, 1, -3.25]), ypos=st.sampled_from([0, 0, 2, -0.5]), width=st.sampled_from([None, 5, 8, 12.5]), height=st.sampled_from([None, 5, 3, 10]),
                                  ratio=st.sampled_from([None, 1, 2]), flipped=st.sampled_from([False, False, True])))
graphs = st.fixed_dictionaries(dict(geom=geom, x=axspec, y=axspec, x2=st.one_of(st.none(), axspec), y2=st.one_of(st.none(), axspec), fmt=st.sampled_from(["eps", "eps", "svg"]), insert=st.booleans()))


def lim(a):
    return (a[1], a[1] + a[2]) if a[0] == "lin" else (a[1], a[1] * a[2])


def axis_(a, **kw):
    from pyx import graph
    lo, hi = lim(a)
    return getattr(graph.axis, a[0])(min=lo, max=hi, reverse=int(a[3]), painter=None, parter=None, **kw)


def size(g):
    w, h = g["width"], g["height"]
    r = g["ratio"] or (1 + 5 ** 0.5) / 2
    if w is None and h is None:
        w = 6
    if w is None:
        w = h * r
    elif h is None:
        h = w / r
    return w, h


def graph_(c, **kw):
    from pyx import graph
    g = c["geom"]
    a = dict(xpos=g["xpos"], ypos=g["ypos"], flipped=g["flipped"])
    if g["ratio"]:
        a["ratio"] = g["ratio"]
    a["width"] = g["width"] if g["width"] is not None or g["height"] is not None else 6
    a["height"] = g["height"]
    for k in ("x", "y", "x2", "y2"):
        if c.get(k):
            a[k] = axis_(c[k])
        elif len(k) == 2 and c.get("single"):
            a[k] = None
    a.update(kw)
    gr = graph.graphxy(**a)
    for ax in gr.axes.values():     # linked axes have a painter of their own
        ax.painter = None
        if hasattr(ax, "linkpainter"):
            ax.linkpainter = None
        from pyx.graph import axis
        if isinstance(ax, axis.linkedaxis):
            ax.painter = None
    return gr


def conv(a, v):
    "graph coordinate or None"
    lo, hi = lim(a)
    if v is None or isinstance(v, str):
        return None
    if a[0] == "log":
        if v <= 0:
            return None
        r = math.log(v / lo) / math.log(hi / lo)
    else:
        r = (v - lo) / (hi - lo)
    return 1 - r if a[3] else r


def place(c, vx, vy):
    "position in points"
    g = c["geom"]
    w, h = size(g)
    if g["flipped"]:
        vx, vy = vy, vx
    return ((g["xpos"] + vx * w) * CM, (g["ypos"] + vy * h) * CM)


def critical(v):
    "too near to the boundary to be decided with rounding"
    return v is not None and any(1e-12 < abs(v - b) < 1e-7 for b in (0, 1))


def inside(v):
    return v is not None and all(x is not None and -1e-10 <= x <= 1 + 1e-10 for x in v)


def value(a):
    "strategy of the values of a column for an axis; most are inside"
    lo, hi = lim(a)
    if a[0] == "log":
        return st.one_of(real(-0.5, 1.5, 2).map(lambda t: float("%.4g" % (lo * (hi / lo) ** t))), real(0, 1, 2).map(lambda t: float("%.4g" % (lo * (hi / lo) ** t))), st.sampled_from([lo, hi, lo * a[2] ** 0.5, -1, 0, None]))
    s = real(-0.7, 1.7, 2).map(lambda t: round(lo + t * (hi - lo), 3))
    return st.one_of(s, real(0, 1, 2).map(lambda t: round(lo + t * (hi - lo), 3)), st.sampled_from([lo, hi, (lo + hi) / 2, None]))


def out(c, gr):
    from pyx import canvas
    if c.get("insert"):
        o = canvas.canvas()
        o.insert(gr)
        gr = o
    try:
        f = io.BytesIO()
        if c["fmt"] == "svg":
            gr.writeSVGfile(f)
            return prog.ink(svg.Doc(f.getvalue()).out)
        gr.writeEPSfile(f)
        i = ps.interpret(f.getvalue())
        return prog.ink([x for p in i.pages for x in p] + i.out)
    except ValueError as e:
        if "empty" in str(e):
            return []
        raise


def polylines(items):
    "list of lists of points (straight lines only)"
    res = []
    for it in items:
        for s in it["subs"]:
            res.append([tuple(s.first)] + [tuple(float(x) for x in g.eval([1.0])[0]) for g in s.segs])
    return res


def clip(a, b):
    "the part of the line between two points in graph coordinates which is inside the graph (Liang-Barsky)"
    t0, t1 = 0.0, 1.0
    for p, q in zip(a, b):
        d = q - p
        for s, lo in ((d, p), (-d, 1 - p)):
            # lo + s*t >= 0
            if abs(s) < 1e-13:
                if lo < -1e-10:
                    return None
            elif s > 0:
                t0 = max(t0, -lo / s)
            else:
                t1 = min(t1, -lo / s)
    if t0 >= t1:
        return None
    at = lambda t: tuple(p + t * (q - p) for p, q in zip(a, b))
    return at(t0), at(t1)


def cutline(rows):
    "pieces of the line through the rows (None: interruption)"
    res = []
    cut = False
    for a, b in zip(rows, rows[1:]):
        if a is None or b is None:
            continue
        piece = clip(a, b)
        if piece is None:
            cut = True
            continue
        p, q = piece
        cut |= p != a or q != b
        if res and res[-1][1] is a and math.dist(p, a) < 1e-9:
            res[-1][0].append(q)
            res[-1][1] = b if math.dist(q, b) < 1e-9 else None
        else:
            res.append([[p, q], b if math.dist(q, b) < 1e-9 else None])
    return [r[0] for r in res], cut


def subpaths(c, lines):
    res = []
    for l in lines:
        pts = [place(c, *p) for p in l]
        s = R.Subpath(pts[0])
        s.segs = [R.Line(p, q) for p, q in zip(pts, pts[1:])]
        res.append(s)
    return res


def samepaths(want, got, what, tol=3e-3):
    R.compare(R.polys(want), R.polys(got), tol, what, eps=2e-3, closed=False, fail=fail)


def data_(cols, rows, how="values", title=None):
    from pyx import graph
    if how == "values":
        return graph.data.values(title=title, **{n: [r[i] for r in rows] for i, n in enumerate(cols)})
    return graph.data.points([list(r) for r in rows], title=title, **{n: i + 1 for i, n in enumerate(cols)})


DASHES = [("solid",), ("dashed",), ("dotted",), ("dashdotted",)]


def kindofdash(it):
    n = len(it["dash"][0])
    return "solid" if n == 0 else "dashdotted" if n == 4 else "dotted" if n == 2 and it["dash"][0][0] == 0 else "dashed"


# ---- lines -----------------------------------------------------------------------------------------

@st.composite
def lines(draw):
    c = draw(graphs)
    c["data"] = []
    for _ in range(draw(st.integers(1, 3))):
        nx = draw(st.sampled_from(["x", "x", "x2"])) if c["x2"] else "x"
        ny = draw(st.sampled_from(["y", "y", "y2"])) if c["y2"] else "y"
        rows = draw(st.lists(st.tuples(value(c[nx]), value(c[ny])), min_size=2, max_size=9))
        c["data"].append(dict(nx=nx, ny=ny, rows=rows, how=draw(st.sampled_from(["values", "points"]))))
    c["separate"] = draw(st.booleans())
    c["symbols"] = draw(st.booleans())
    c["rename"] = draw(st.sampled_from([False, False, True]))
    return c


def vrows(c, d):
    res = []
    for x, y in d["rows"]:
        v = conv(c[d["nx"]], x), conv(c[d["ny"]], y)
        if critical(v[0]) or critical(v[1]):
            raise Skip("at the boundary")
        res.append(None if None in v else v)
    return res


def check_line(c, ctx):
    from pyx import graph
    gr = graph_(c)
    if c["rename"]:
        styles = [graph.style.pos(usenames=dict(x="a", y="b", x2="c", y2="d")), graph.style.line()]
        names = dict(x="a", y="b", x2="c", y2="d")
    else:
        styles = [graph.style.line()]
        names = dict(x="x", y="y", x2="x2", y2="y2")
    if c["symbols"]:
        styles.append(graph.style.symbol(graph.style.symbol.plus, size=0.1))
    ds = [data_([names[d["nx"]], names[d["ny"]]], d["rows"], d["how"]) for d in c["data"]]
    if c["separate"]:
        for d in ds:
            gr.plot(d, styles)
    else:
        gr.plot(ds, styles)
    got = out(c, gr)
    n = 0
    for i, d in enumerate(c["data"]):
        rows = vrows(c, d)
        pieces, cut = cutline(rows)
        want = subpaths(c, pieces)
        want = [s for s in want if R.polys([s])[0].len > 1e-2]
        if want:
            ensure(n < len(got), "line %d is not painted", i)
            it = got[n]
            n += 1
            ensure(it["kind"] == "stroke", "a line is painted by %s", it["kind"])
            samepaths(want, it["subs"], "line %d" % i)
            ensure(kindofdash(it) == DASHES[i % 4][0], "line %d is %s", i, kindofdash(it))
            ctx.label("cut" if cut else "whole")
            if cut or len(pieces) > 1 or len(rows) > 2:
                ctx.nontrivial("line")
        elif n < len(got) and sum(p.len for p in R.polys(got[n]["subs"])) < 2e-2:
            n += 1
        if c["symbols"]:
            for r in rows:
                if inside(r):
                    ensure(n < len(got), "data set %d: symbol at %r is missing", i, r)
                    x, y = place(c, *r)
                    s = 0.1 * CM * 0.5 ** 0.5
                    samepaths([seg(x - s, y, x + s, y), seg(x, y - s, x, y + s)], got[n]["subs"], "plus %d" % i)
                    n += 1
    ensure(n == len(got), "%d paths are painted, expected %d", len(got), n)


def seg(x1, y1, x2, y2):
    s = R.Subpath((x1, y1))
    s.segs = [R.Line((x1, y1), (x2, y2))]
    return s


# ---- symbols ---------------------------------------------------------------------------------------

NAMES = ["cross", "plus", "square", "triangle", "circle", "diamond"]


def polygon(pts):
    s = R.Subpath(pts[0])
    s.segs = [R.Line(p, q) for p, q in zip(pts, pts[1:] + pts[:1])]
    s.closed = True
    return s


def shape(name, x, y, s):
    "symbols of the area s*s (the lines of cross and plus are diagonals of such squares)"
    h = s / 2
    if name == "cross":
        return [seg(x - h, y - h, x + h, y + h), seg(x - h, y + h, x + h, y - h)]
    if name == "plus":
        r = s / 2 ** 0.5
        return [seg(x - r, y, x + r, y), seg(x, y - r, x, y + r)]
    if name == "square":
        return [polygon([(x - h, y - h), (x + h, y - h), (x + h, y + h), (x - h, y + h)])]
    if name == "triangle":
        e = s * 2 / 3 ** 0.25       # edge: area is sqrt(3)/4 e^2
        return [polygon([(x - e / 2, y - e / 12 ** 0.5), (x + e / 2, y - e / 12 ** 0.5), (x, y + e / 3 ** 0.5)])]
    if name == "diamond":
        w = s / (2 * 3 ** 0.5) ** 0.5
        return [polygon([(x - w, y), (x, y - w * 3 ** 0.5), (x + w, y), (x, y + w * 3 ** 0.5)])]
    r = s / math.pi ** 0.5
    b = R.Subpath((x + r, y))
    b.segs = [R.Arc(x, y, r, 0, 360)]
    b.closed = True
    return [b]


@st.composite
def symbols(draw):
    c = draw(graphs)
    c["data"] = [dict(nx="x", ny="y", rows=draw(st.lists(st.tuples(value(c["x"]), value(c["y"])), min_size=1, max_size=6)), how="values") for _ in range(draw(st.integers(1, 7)))]
    c["symbol"] = draw(st.sampled_from(["change" + n for n in NAMES] + ["change%stwice" % n for n in NAMES[2:]] + NAMES))
    c["size"] = draw(st.one_of(st.sampled_from([None, 0.1, 0.3]), st.tuples(real(0.1, 0.3, 2), real(0.2, 0.5, 2))))
    c["paint"] = draw(st.sampled_from(["", "strokedfilled", "filledstroked", "color", "rainbow"]))
    c["missing"] = draw(st.sampled_from([None, None, None, "dx"]))
    return c


def cycle(name, i):
    if not name.startswith("change"):
        return name
    name = name[6:]
    if name.endswith("twice"):
        k = NAMES[2:].index(name[:-5])
        l = NAMES[2:][k:] + NAMES[2:][:k]
        return l[i // 2 % 4] if name[:-5] != "square" or True else None
    k = NAMES.index(name)
    return (NAMES[k:] + NAMES[:k])[i % 6]


def check_symbol(c, ctx):
    from pyx import graph, color, attr, deco
    gr = graph_(c)
    S = graph.style.symbol
    kw = {}
    if c["size"] is not None:
        kw["size"] = attr.changelist(list(c["size"])) if isinstance(c["size"], (list, tuple)) else c["size"]
    if c["paint"] in ("strokedfilled", "filledstroked"):
        kw["symbolattrs"] = [getattr(S, "change" + c["paint"])]
    elif c["paint"] == "color":
        kw["symbolattrs"] = [deco.filled([color.rgb.red]), deco.stroked.clear]
    elif c["paint"] == "rainbow":
        kw["symbolattrs"] = [color.gradient.Grey]
    gr.plot([data_(["x", "y"], d["rows"]) for d in c["data"]], [S(getattr(S, c["symbol"]), **kw)])
    got = out(c, gr)
    n = 0
    tot = len(c["data"])
    for i, d in enumerate(c["data"]):
        size = c["size"][i % 2] if isinstance(c["size"], (list, tuple)) else 0.2 if c["size"] is None else c["size"]
        name = cycle(c["symbol"], i)
        if c["symbol"].endswith("twice") and i >= 8:
            continue
        for r in vrows(c, d):
            if not inside(r):
                continue
            kinds = {"": ["stroke"], "strokedfilled": [["stroke"], ["fill", "stroke"]][i % 2], "filledstroked": [["fill", "stroke"], ["stroke"]][i % 2], "color": ["fill"], "rainbow": ["stroke"]}[c["paint"]]
            x, y = place(c, *r)
            want = shape(name, x, y, size * CM)
            if name in ("cross", "plus") and kinds == ["fill"]:
                raise Skip("fill of a line")
            for k in kinds:
                ensure(n < len(got), "symbol at %r is missing", r)
                ensure(got[n]["kind"] == k, "symbol %r is painted by %s, expected %s", name, got[n]["kind"], k)
                if name == "circle":
                    r0 = size * CM / math.pi ** 0.5
                    ps_ = R.polys(got[n]["subs"])
                    ensure(len(ps_) == 1, "%d subpaths in a circle", len(ps_))
                    for q in ps_[0].pts:
                        ensure(abs(math.dist(q, (x, y)) - r0) < 0.01 * r0 + (3e-3 if c["fmt"] == "eps" else 0.2), "point of the circle at distance %g, expected %g", math.dist(q, (x, y)), r0)
                    ensure(abs(ps_[0].len - 2 * math.pi * r0) < 0.03 * ps_[0].len, "length %g of a circle of radius %g", ps_[0].len, r0)
                else:
                    samepaths(want, got[n]["subs"], "%s %d (%s)" % (name, i, k), tol=5e-3)
                if c["paint"] == "color":
                    ensure(got[n]["color"][0] == "rgb" and got[n]["color"][1:] == (1, 0, 0), "colour %r", got[n]["color"])
                if c["paint"] == "rainbow":
                    v = 1 - i / max(1, tot - 1)         # from white to black
                    g = got[n]["color"]
                    ensure(all(abs(z - v) < 1.01 / 255 for z in g[1:]), "colour %r of symbol %d of %d", g, i, tot)
                n += 1
            ctx.nontrivial("symbol")
    ensure(n == len(got), "%d paths are painted, expected %d", len(got), n)
    ctx.label(c["symbol"])


# ---- errorbars -------------------------------------------------------------------------------------

MODES = [None, "d", "dmin", "dmax", "dminmax", "min", "max", "minmax", "minmax-", "mindmax"]


@st.composite
def errorbars(draw):
    c = draw(graphs)
    c["x2"] = c["y2"] = None
    c["single"] = True
    c["modes"] = [draw(st.sampled_from(MODES)), draw(st.sampled_from(MODES))]
    if c["modes"] == [None, None]:
        c["modes"][1] = "d"
    cols = {}
    n = draw(st.integers(1, 5))
    for k, m in zip("xy", c["modes"]):
        def col(s):
            return draw(st.lists(s, min_size=n, max_size=n))
        w = c[k][2] if c[k][0] == "lin" else 0.5 * c[k][1]
        delta = st.one_of(real(0, 0.6, 2).map(lambda t: round(t * w, 3)), st.sampled_from([None, 0, round(-0.2 * w, 3), 2 * w]))
        if m != "minmax-":
            cols[k] = col(value(c[k]))
        for o in {None: (), "d": ("d",), "dmin": ("dmin",), "dmax": ("dmax",), "dminmax": ("dmin", "dmax"), "min": ("min",), "max": ("max",), "minmax": ("min", "max"), "minmax-": ("min", "max"), "mindmax": ("min", "dmax")}[m]:
            if o[0] == "d":
                cols["d" + k + o[1:]] = col(delta)
            else:
                cols[k + o] = col(value(c[k]))
    c["cols"] = cols
    c["size"] = draw(st.sampled_from([None, 0.3]))
    c["attrs"] = draw(st.sampled_from(["", "color", "none"]))
    c["order"] = draw(st.permutations(sorted(cols)))
    return c


def check_errorbar(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    kw = {}
    if c["size"] is not None:
        kw["size"] = c["size"]
    if c["attrs"] == "color":
        kw["errorbarattrs"] = [color.rgb.blue]
    elif c["attrs"] == "none":
        kw["errorbarattrs"] = None
    gr.plot(graph.data.values(**{k: c["cols"][k] for k in c["order"]}), [graph.style.errorbar(**kw)])
    got = out(c, gr)
    want = []
    cap = (c["size"] or 0.1) * CM / 2
    n = len(next(iter(c["cols"].values())))
    sub = lambda a, b, s: None if a is None or b is None else a + s * b
    for r in range(n):
        row = {k: v[r] for k, v in c["cols"].items()}
        pos, ran = [], []
        for k in "xy":
            a = c[k]
            v = row.get(k)
            lo = hi = None
            for o, val in row.items():
                if o == k + "min": lo = val
                if o == k + "max": hi = val
                if o in ("d" + k, "d" + k + "min"): lo = sub(v, val, -1)
                if o in ("d" + k, "d" + k + "max"): hi = sub(v, val, 1)
            pos.append(conv(a, v))
            ran.append([conv(a, lo), conv(a, hi)])
        if any(critical(v) for v in pos + ran[0] + ran[1]):
            raise Skip("at the boundary")
        for i in (0, 1):
            j = 1 - i
            if pos[j] is None or not -1e-10 <= pos[j] <= 1 + 1e-10:
                continue
            if ran[i][0] is None and ran[i][1] is None:
                continue
            ends = [ran[i][0] if ran[i][0] is not None else pos[i], ran[i][1] if ran[i][1] is not None else pos[i]]
            if None in ends:
                continue
            caps = [v for v in ran[i] if v is not None and -1e-10 <= v <= 1 + 1e-10]
            lo, hi = min(ends), max(ends)
            if lo > 1 + 1e-10 or hi < -1e-10:
                ctx.label("outside")
                continue
            if lo < 0 or hi > 1:
                ctx.label("cut")
                ctx.nontrivial("cut")
            lo, hi = max(lo, 0), min(hi, 1)

            def P(v):
                p = [None, None]
                p[i], p[j] = v, pos[j]
                return place(c, *p)
            if math.dist(P(lo), P(hi)) > 1e-2:
                want.append(P(lo) + P(hi))
            for v in caps:
                x, y = P(v)
                vert = (j == 1) != c["geom"]["flipped"]
                want.append((x, y - cap, x, y + cap) if vert else (x - cap, y, x + cap, y))
    segs = []
    for it in got:
        ensure(it["kind"] == "stroke", "errorbar is painted by %s", it["kind"])
        if c["attrs"] == "color":
            ensure(it["color"][0] == "rgb" and max(abs(a - b) for a, b in zip(it["color"][1:], (0, 0, 1))) < 1e-3, "colour %r", it["color"])
        for l in polylines([it]):
            if math.dist(l[0], l[-1]) > 5e-3:
                ensure(len(l) == 2, "%d points", len(l))
                segs.append(l[0] + l[1])
    if c["attrs"] == "none":
        want = []
    rest = [tuple(s) for s in segs]
    for w in want:
        for s in rest:
            if min(max(abs(a - b) for a, b in zip(w, t)) for t in (s, s[2:] + s[:2])) < 5e-3:
                rest.remove(s)
                break
        else:
            fail("line %r of an errorbar is missing in %r", w, segs)
        ctx.nontrivial("errorbar") if len(want) > 2 else None
    ensure(not rest, "lines %r are additionally painted to %r", rest, want)
    ctx.label("/".join(str(m) for m in c["modes"]))


# ---- impulses --------------------------------------------------------------------------------------

@st.composite
def impulses(draw):
    c = draw(graphs)
    c["single"] = True
    c["x2"] = c["y2"] = None
    c["data"] = [dict(nx="x", ny="y", rows=draw(st.lists(st.tuples(value(c["x"]), value(c["y"])), min_size=1, max_size=6)), how="values") for _ in range(draw(st.integers(1, 3)))]
    c["index"] = draw(st.sampled_from([0, 1, 1]))
    a = c["xy"[c["index"]]]
    c["from"] = draw(st.one_of(st.none(), value(a).filter(lambda v: v is not None and (a[0] == "lin" or v > 0))))
    c["path"] = draw(st.sampled_from([True, False]))
    c["rename"] = draw(st.sampled_from([False, False, True]))
    return c


def check_impulses(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    styles = [graph.style.impulses([color.rgb.red], fromvalue=c["from"], frompathattrs=[color.rgb.blue] if c["path"] else None, valueaxisindex=c["index"])]
    cols = ["x", "y"]
    if c["rename"]:
        cols = ["aa", "bb"]
        styles.insert(0, graph.style.pos(usenames=dict(x="aa", y="bb")))
    gr.plot([data_(cols, d["rows"]) for d in c["data"]], styles)
    got = out(c, gr)
    i = c["index"]
    v0 = 0 if c["from"] is None else min(1, max(0, conv(c["xy"[i]], c["from"])))
    want = []
    if c["from"] is not None and c["path"]:
        want.append(("blue", at(c, i, v0, 0) + at(c, i, v0, 1)))
    for d in c["data"]:
        for r in vrows(c, d):
            if inside(r):
                p = at(c, i, v0, r[1 - i]) + place(c, *r)
                if math.dist(p[:2], p[2:]) > 1e-2:
                    want.append(("red", p))
                    if v0 != 0:
                        ctx.nontrivial("impulse")
    segs = []
    for it in got:
        ensure(it["kind"] == "stroke", "impulses are painted by %s", it["kind"])
        for l in polylines([it]):
            if math.dist(l[0], l[-1]) > 5e-3:
                segs.append(("red" if it["color"][1] > 0.5 else "blue", l[0] + l[-1]))
    ensure(len(segs) == len(want), "%d lines, expected %d", len(segs), len(want))
    for w, g in zip(want, segs):
        ensure(w[0] == g[0], "%s line painted as %s", w[0], g[0])
        ensure(min(max(abs(a - b) for a, b in zip(w[1], t)) for t in (g[1], g[1][2:] + g[1][:2])) < 5e-3, "line %r, expected %r", g, w)


def at(c, i, v, w):
    return place(c, *((v, w) if i == 0 else (w, v)))


# ---- arrows, texts ---------------------------------------------------------------------------------

@st.composite
def arrows(draw):
    c = draw(graphs)
    c["single"] = True
    c["x2"] = c["y2"] = None
    c["rows"] = draw(st.lists(st.tuples(value(c["x"]), value(c["y"]), st.one_of(real(0, 3, 2), st.sampled_from([None, 0, 1])), st.one_of(real(-400, 400, 1), st.sampled_from([0, 90, None]))), min_size=1, max_size=6))
    c["length"] = draw(st.sampled_from([None, 0.5, 1]))
    c["pos"] = draw(st.sampled_from([None, 0, 1, 0.25]))
    c["deco"] = draw(st.booleans())
    return c


def check_arrow(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    kw = {}
    if c["length"] is not None:
        kw["linelength"] = c["length"]
    if c["pos"] is not None:
        kw["arrowpos"] = c["pos"]
    if not c["deco"]:
        kw["decorator"] = None
    gr.plot(data_(["x", "y", "size", "angle"], c["rows"]), [graph.style.arrow(**kw)])
    got = out(c, gr)
    L = (c["length"] or 0.25) * CM
    f = 0.5 if c["pos"] is None else c["pos"]
    n = 0
    for x, y, s, a in c["rows"]:
        v = conv(c["x"], x), conv(c["y"], y)
        if critical(v[0]) or critical(v[1]):
            raise Skip("at the boundary")
        if not inside(v) or s is None or a is None or s <= 1e-5:
            continue
        p = place(c, *v)
        d = math.cos(math.radians(a)), math.sin(math.radians(a))
        b = p[0] - f * L * s * d[0], p[1] - f * L * s * d[1]
        e = b[0] + L * s * d[0], b[1] + L * s * d[1]
        ctx.nontrivial("arrow")
        ensure(n < len(got), "arrow at %r is missing", p)
        # first the line (shortened at the tip), then the filled and stroked head
        if c["deco"]:
            mine = []
            while n < len(got) and len(mine) < 2:
                mine.append(got[n])
                n += 1
            pts = [q for it in mine for s_ in R.polys(it["subs"]) for q in s_.pts]
            # along the direction of the arrow
            t = [(q[0] - b[0]) * d[0] + (q[1] - b[1]) * d[1] for q in pts]
            o = [abs(-(q[0] - b[0]) * d[1] + (q[1] - b[1]) * d[0]) for q in pts]
            size = 0.15 * CM * s
            lo, hi = min(t), max(t)
            ensure(abs(hi - L * s) < 2e-2, "arrow ends at %g along its direction, expected %g", hi, L * s)
            if size * 1.01 < L * s:
                ensure(abs(lo) < 2e-2, "arrow begins at %g along its direction", lo)
            ensure(max(o) < size * 0.5, "arrow head too wide: %g for size %g", max(o), size)
        else:
            samepaths([seg(*b, *e)], got[n]["subs"], "line of an arrow")
            n += 1
    ensure(n == len(got), "%d paths are painted, expected %d", len(got), n)


@st.composite
def texts(draw):
    c = draw(graphs)
    c["single"] = True
    c["fmt"] = "svg"
    c["x2"] = c["y2"] = None
    c["rows"] = draw(st.lists(st.tuples(value(c["x"]), value(c["y"]), st.sampled_from(["a", "bc", 12, 1.5, None]), real(-2, 2, 2), real(-2, 2, 2)), min_size=1, max_size=5))
    c["dx"] = draw(st.sampled_from([None, None, "dx", "fixed"]))
    c["dy"] = draw(st.sampled_from([None, None, "dy", "fixed"]))
    return c


def check_text(c, ctx):
    from pyx import graph, text, unit, canvas
    gr = graph_(c)
    kw = {}
    ox, oy = 0, 0.3
    if c["dx"] == "dx": kw.update(dxname="dx", dxunit=0.5)
    if c["dy"] == "dy": kw.update(dyname="dy")
    if c["dx"] == "fixed": kw.update(textdx=-1); ox = -1
    if c["dy"] == "fixed": kw.update(textdy=1.25); oy = 1.25
    calls = []

    class Engine:
        def text_pt(self, x, y, s, attrs):
            calls.append((x, y, s, attrs))
            return canvas.canvas()
    gr.layer("data").textengine = Engine()
    gr.plot(data_(["x", "y", "text", "dx", "dy"], c["rows"]), [graph.style.text(**kw)])
    gr.finish()
    want = []
    for x, y, t, dx, dy in c["rows"]:
        v = conv(c["x"], x), conv(c["y"], y)
        if critical(v[0]) or critical(v[1]):
            raise Skip("at the boundary")
        if not inside(v):
            continue
        p = place(c, *v)
        want.append((p[0] + (dx * 0.5 if c["dx"] == "dx" else ox) * CM, p[1] + (dy * 0.3 if c["dy"] == "dy" else oy) * CM, str(t)))
        ctx.nontrivial("text")
    ensure(len(calls) == len(want), "%d texts, expected %d", len(calls), len(want))
    for (x, y, s, a), w in zip(calls, want):
        ensure(s == w[2] and abs(x - w[0]) < 1e-6 and abs(y - w[1]) < 1e-6, "text %r at %r, expected %r", s, (x, y), w)


# ---- positions -------------------------------------------------------------------------------------

positions = st.fixed_dictionaries(dict(g=graphs, probe=st.lists(st.tuples(real(0, 1, 3), real(0, 1, 3)), min_size=1, max_size=4), x2=st.booleans(), y2=st.booleans(), points=st.sampled_from([0, 0, 50])))


TICK = dict(bottom=(0, 1), left=(1, 0), right=(-1, 0))


def side(c, i):
    "where the x or y axis is: the x axis of a flipped graph is at the right"
    if c["geom"]["flipped"]:
        return ("right", 1) if i == 0 else ("bottom", 0)
    return ("bottom", 0) if i == 0 else ("left", 0)


def pt(p):
    from pyx import unit
    return tuple(float(unit.topt(v)) for v in p)


def ends(p):
    return tuple(float(v) for v in p.atbegin_pt() + p.atend_pt())


def check_pos(case, ctx):
    from pyx import graph, unit
    c = case["g"]
    gr = graph_(c)
    gr.dolayout()
    T = 1e-6
    for tx, ty in case["probe"]:
        nx = "x2" if case["x2"] and c["x2"] else "x"
        ny = "y2" if case["y2"] and c["y2"] else "y"
        val = []
        for n, t in ((nx, tx), (ny, ty)):
            lo, hi = lim(c[n])
            val.append(lo + (hi - lo) * t)
        v = conv(c[nx], val[0]), conv(c[ny], val[1])
        w = place(c, *v)
        ax = dict(xaxis=gr.axes[nx], yaxis=gr.axes[ny]) if (nx, ny) != ("x", "y") else {}
        close(gr.pos_pt(*val, **ax), w, T, "pos_pt")
        close(pt(gr.pos(*val, **ax)), w, T, "pos")
        close(gr.vpos_pt(*v), w, T, "vpos_pt")
        close(pt(gr.vpos(*v)), w, T, "vpos")
        # grid lines and tick positions
        for n, i, k in (("x", 0, v[0]), ("y", 1, v[1])):
            a, b = at(c, i, k, 0), at(c, i, k, 1)
            e = side(c, i)
            d = TICK[e[0]]
            a = at(c, i, k, e[1])
            b0 = at(c, i, k, 0)
            cur = val[i] if (nx, ny)[i] == n else None
            if cur is not None:
                if getattr(gr, n + "gridpath", None) is not None:
                    close(ends(getattr(gr, n + "gridpath")(cur)), b0 + b, T, n + "gridpath")
                close(getattr(gr, n + "tickpoint_pt")(cur), a, T, n + "tickpoint_pt")
                close(pt(getattr(gr, n + "tickpoint")(cur)), a, T, n + "tickpoint")
                close(getattr(gr, n + "tickdirection")(cur), d, T, n + "tickdirection")
            close(getattr(gr, n + "vtickpoint_pt")(k), a, T, n + "vtickpoint_pt")
            close(pt(getattr(gr, n + "vtickpoint")(k)), a, T, n + "vtickpoint")
            close(getattr(gr, n + "vtickdirection")(k), d, T, n + "vtickdirection")
            close(ends(gr.axes[n].vgridpath(k)), b0 + b, T, n + " vgridpath")
        o = (1 - v[1], v[0])
        close(ends(gr.vgeodesic(*v, *o)), w + place(c, *o), T, "vgeodesic")
        el = gr.vgeodesic_el(*v, *o)
        close((el.x_pt, el.y_pt), place(c, *o), T, "vgeodesic_el")
        for i in (0, 1):
            p = gr.vcap_pt(i, 5, *v)
            hor = (i == 0) != c["geom"]["flipped"]
            close(ends(p), (w[0] - 2.5, w[1], w[0] + 2.5, w[1]) if hor else (w[0], w[1] - 2.5, w[0], w[1] + 2.5), T, "vcap_pt")
        # parts of the axes
        for n, i in (("x", 0), ("y", 1)):
            b = getattr(gr, n + "vbasepath")
            lo, hi = sorted((v[i], 0.75))
            if hi - lo > 1e-3:
                close(ends(b(lo, hi)), at(c, i, lo, side(c, i)[1]) + at(c, i, hi, side(c, i)[1]), T, n + "vbasepath")
            close(ends(b()), at(c, i, 0, side(c, i)[1]) + at(c, i, 1, side(c, i)[1]), T, n + "vbasepath")
    for n in ("x2", "y2"):
        i = "xy".index(n[0])
        close(gr.axes[n].vtickpoint_pt(0.25), at(c, i, 0.25, 1 - side(c, i)[1]), T, n + " vtickpoint_pt")
        d = TICK[side(c, i)[0]]
        close(gr.axes[n].vtickdirection(0.25), (-d[0], -d[1]), T, n + " vtickdirection")
    ctx.nontrivial("position")
    ctx.label("flipped" if c["geom"]["flipped"] else "normal")


SUBS = [Sub("lines", lines(), check_line, quick=1200, thorough=30000),
        Sub("symbols", symbols(), check_symbol, quick=500, thorough=15000),
        Sub("errorbars", errorbars(), check_errorbar, quick=1200, thorough=30000),
        Sub("impulses", impulses(), check_impulses, quick=500, thorough=15000),
        Sub("arrows", arrows(), check_arrow, quick=400, thorough=10000),
        Sub("texts", texts(), check_text, quick=400, thorough=10000),
        Sub("positions", positions, check_pos, quick=400, thorough=10000)]
