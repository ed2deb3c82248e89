"""C34 areas in graphs: histograms, bars, rectangles, density plots and grids cover what the data define, inside the graph"""
import io, math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import ps, refpath as R, prog
from checks import c33
from checks.c33 import geom, lin, graphs, graph_, conv, place, critical, inside, value, out, lim, prepare, data_, CM, cutline, subpaths, samepaths, size

PROP = "C34"
RULE = ("random two-dimensional graphs as in C33 with random histograms (given or automatic bins, steps, fillable, base value), bars (also stacked and nested), coloured rectangles, density plots and grids with missing and "
        "outlying data; the painted lines, areas and samples found in the output are mapped back to graph coordinates and compared with a model; non-trivial: a cut area or at least two areas")


def vback(c, p):
    g = c["geom"]
    w, h = size(g)
    v = ((p[0] / CM - g["xpos"]) / w, (p[1] / CM - g["ypos"]) / h)
    return (v[1], v[0]) if g["flipped"] else v


def vpolys(c, items):
    "subpaths in graph coordinates"
    res = []
    for it in items:
        for s in it["subs"]:
            pts = [tuple(s.first)] + [tuple(float(x) for x in g.eval([1.0])[0]) for g in s.segs]
            res.append([vback(c, p) for p in pts])
    return res


def axial(polys):
    "lines parallel to the axes: (direction, position, from, to)"
    res = []
    for p in polys:
        for a, b in zip(p, p[1:]):
            if math.dist(a, b) < 1e-4:
                continue
            if abs(a[0] - b[0]) < 1e-4:
                res.append((1, (a[0] + b[0]) / 2, min(a[1], b[1]), max(a[1], b[1])))
            else:
                ensure(abs(a[1] - b[1]) < 1e-4, "inclined line from %r to %r", a, b)
                res.append((0, (a[1] + b[1]) / 2, min(a[0], b[0]), max(a[0], b[0])))
    return res


def covered(seg, segs, tol=1e-3):
    d, q, a, b = seg
    pos = a
    for lo, hi in sorted((s[2], s[3]) for s in segs if s[0] == d and abs(s[1] - q) < tol):
        if lo > pos + tol:
            break
        pos = max(pos, hi)
    return pos > b - tol


def sameink(want, got, what):
    for w in want:
        if w[3] - w[2] > 1e-3:
            ensure(covered(w, got), "%s: line %r is missing in %r", what, w, got)
    for g in got:
        ensure(covered(g, want), "%s: line %r is additionally painted to %r", what, g, want)


def winding(polys, p):
    n = 0
    for l in polys:
        for (x1, y1), (x2, y2) in zip(l, l[1:] + l[:1]):
            if (y1 <= p[1]) != (y2 <= p[1]):
                x = x1 + (p[1] - y1) / (y2 - y1) * (x2 - x1)
                if x > p[0]:
                    n += 1 if y2 > y1 else -1
    return n


def samearea(boxes, polys, what):
    "the areas (lo, hi) x (lo, hi) are what the polygons fill (nonzero winding)"
    xs = sorted({min(1.3, max(-0.3, x)) for b in boxes for x in b[0]} | {0, 1, -0.2, 1.2} | {min(1.3, max(-0.3, p[0])) for l in polys for p in l})
    ys = sorted({min(1.3, max(-0.3, y)) for b in boxes for y in b[1]} | {0, 1, -0.2, 1.2} | {min(1.3, max(-0.3, p[1])) for l in polys for p in l})
    for x1, x2 in zip(xs, xs[1:]):
        if x2 - x1 < 1e-3:
            continue
        for y1, y2 in zip(ys, ys[1:]):
            if y2 - y1 < 1e-3:
                continue
            p = ((x1 + x2) / 2, (y1 + y2) / 2)
            w = any(b[0][0] < p[0] < b[0][1] and b[1][0] < p[1] < b[1][1] for b in boxes)
            g = winding(polys, p) != 0
            ensure(w == g, "%s: at graph position %r %s be filled", what, p, "should" if w else "should not")


def cutbox(a, b):
    "box with the given opposite corners inside of the graph or None"
    r = []
    for p, q in zip(a, b):
        lo, hi = max(0, min(p, q)), min(1, max(p, q))
        if lo > hi:
            return None
        r.append((lo, hi))
    return r


# ---- histograms ------------------------------------------------------------------------------------

@st.composite
def histograms(draw):
    c = draw(graphs)
    c["fmt"] = "eps"
    c["x2"] = c["y2"] = None
    c["single"] = True
    i = c["index"] = draw(st.sampled_from([0, 0, 1]))
    a, b = c["xy"[i]], c["xy"[1 - i]]
    c["auto"] = draw(st.sampled_from([False, False, True]))
    n = draw(st.integers(1, 7))
    c["data"] = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        vals = [draw(value(b)) for _ in range(n)]
        if c["auto"]:
            lo, hi = lim(a)
            start = draw(real(-0.3, 0.6, 2))
            step = draw(real(0.05, 0.4, 2)) * draw(st.sampled_from([1, 1, -1]))
            if n < 2:
                n, vals = 2, vals * 2
            if a[0] == "log":
                pos = [lo * (hi / lo) ** (start + k * step) for k in range(n)]
            else:
                pos = [lo + (hi - lo) * (start + k * step) for k in range(n)]
            c["data"].append([[p, v] for p, v in zip(pos, vals)])
        else:
            e = sorted(draw(st.lists(value(a).filter(lambda v: v is not None and (a[0] == "lin" or v > 0)), min_size=n + 1, max_size=n + 1, unique=True)))
            rows = [[p, q, v] for p, q, v in zip(e, e[1:], vals)]
            drop = draw(st.lists(st.integers(0, n - 1), max_size=2))
            how = draw(st.sampled_from(["drop", "none"]))
            for k in sorted(set(drop), reverse=True):
                if how == "drop" and len(rows) > 1:
                    del rows[k]
                elif how == "none":
                    rows[k] = [None, rows[k][1], rows[k][2]]
            c["data"].append(rows)
    c["pointpos"] = draw(st.sampled_from([None, None, 0, 1, 0.25]))
    c["steps"] = draw(st.booleans())
    c["fillable"] = draw(st.booleans())
    c["from"] = draw(st.one_of(st.just(0) if b[0] == "lin" else st.none(), st.none(), value(b).filter(lambda v: v is not None and (b[0] == "lin" or v > 0))))
    c["path"] = draw(st.booleans())
    c["rename"] = draw(st.sampled_from([False, False, True]))
    return c


def binrows(c, rows):
    i = c["index"]
    a, b = c["xy"[i]], c["xy"[1 - i]]
    out = []
    if c["auto"]:
        f = 0.5 if c["pointpos"] is None else c["pointpos"]
        vs = [conv(a, r[0]) for r in rows]
        w = vs[1] - vs[0]
        for v, r in zip(vs, rows):
            out.append((v - f * w, v + (1 - f) * w, conv(b, r[1])))
    else:
        for r in rows:
            out.append((conv(a, r[0]), conv(a, r[1]), conv(b, r[2])))
    for r in out:
        if any(critical(v) for v in r):
            raise Skip("at the boundary")
    return [None if None in r else r for r in out]


def check_histogram(c, ctx):
    from pyx import graph, color, deco
    gr = graph_(c)
    i = c["index"]
    a, b = c["xy"[i]], c["xy"[1 - i]]
    kw = {}
    if c["pointpos"] is not None:
        kw["autohistogrampointpos"] = c["pointpos"]
    H = graph.style.histogram([deco.filled([color.rgb.green]), deco.stroked([color.rgb.red])], steps=int(c["steps"]), fillable=int(c["fillable"]), fromvalue=c["from"],
                              frompathattrs=[color.rgb.blue] if c["path"] else None, autohistogramaxisindex=i, **kw)
    n = "xy"[i], "xy"[1 - i]
    styles = [H]
    if c["rename"]:
        styles = [graph.style.pos(usenames={n[0]: "aa", n[1]: "bb"}), graph.style.range(usenames={n[0]: "aa", n[1]: "bb"}), H]
        n = "aa", "bb"
    cols = [n[0], n[1]] if c["auto"] else [n[0] + "min", n[0] + "max", n[1]]
    gr.plot([data_(cols, rows) for rows in c["data"]], styles)
    try:
        got = out(c, gr)
    except ValueError as e:
        if "equal steps" in str(e):
            # rounding of large steps
            raise Skip("steps")
        raise
    f = 0 if c["from"] is None else conv(b, c["from"])
    f1 = min(1, max(0, f))
    D, V = i, 1 - i     # directions of the lines along the bins and along the values
    flat = lambda p, q: (p, q) if i == 0 else (q, p)
    if c["from"] is not None and c["path"]:
        ensure(got and got[0]["kind"] == "stroke" and got[0]["color"] != ("rgb", 1.0, 0.0, 0.0), "base line missing")
        sameink([(D, f1, 0, 1)], axial(vpolys(c, got[:1])), "base line")
        got = got[1:]
    # the bins of all data sets, painted one by one
    groups = []
    while got:
        mine = [got.pop(0)]
        if mine[0]["kind"] == "fill" and got and got[0]["kind"] == "stroke":
            mine.append(got.pop(0))
        groups.append(mine)
    todo = []
    for rows in c["data"]:
        bins = binrows(c, rows)
        tops, walls, boxes = [], [], []
        last = None
        for r in bins + [None]:
            if c["steps"]:
                adj = r is not None and last is not None and abs(r[0] - last[1]) <= 1e-10
                if adj:
                    walls.append((r[0], last[2], r[2]))
                else:
                    if last is not None:
                        walls.append((last[1], last[2], f1))
                    if r is not None:
                        walls.append((r[0], f1, r[2]))
            elif r is not None:
                walls += [(r[0], f1, r[2]), (r[1], f1, r[2])]
            if r is not None:
                tops.append((r[2], r[0], r[1]))
                box = cutbox((r[0], f1), (r[1], r[2]))
                if box is not None:
                    boxes.append(box if i == 0 else box[::-1])
            last = r
        ink = []
        strict = []
        for v, p, q in tops:
            if -1e-10 <= v <= 1 + 1e-10:
                p, q = max(0, min(p, q)), min(1, max(p, q))
                if p < q:
                    ink.append((D, v, p, q))
                    if 1e-6 < v < 1 - 1e-6:
                        strict.append(ink[-1])
        for p, v, w in walls:
            if -1e-10 <= p <= 1 + 1e-10:
                v, w = max(0, min(v, w)), min(1, max(v, w))
                if v < w:
                    ink.append((V, p, v, w))
                    if 1e-6 < p < 1 - 1e-6:
                        strict.append(ink[-1])
        todo.append((ink, strict, boxes))
    # a data set without ink may paint nothing or something empty
    if len(groups) < len(todo):
        keep = [t for t in todo if t[0]]
        ensure(len(groups) >= len([t for t in todo if [x for x in t[1] if x[3] - x[2] > 1e-3]]), "%d paths for %d data sets", len(groups), len(keep))
        if len(keep) != len(groups):
            raise Skip("data sets at the boundary")
        todo = keep
    ensure(len(groups) == len(todo), "%d paths for %d data sets", len(groups), len(todo))
    for mine, (ink, strict, boxes) in zip(groups, todo):
        ensure([m["kind"] for m in mine] in (["fill", "stroke"], ["fill"], ["stroke"]), "kinds")
        strokes = [m for m in mine if m["kind"] == "stroke"]
        fills = [m for m in mine if m["kind"] == "fill"]
        lines = axial(vpolys(c, strokes))
        if c["fillable"]:
            samearea(boxes, [p for p in vpolys(c, fills)], "histogram")
            for s in strict:
                if s[3] - s[2] > 1e-3:
                    ensure(covered(s, lines), "line %r of the histogram is missing", s)
            edges = []
            for x, y in boxes:
                edges += [(0, y[0], x[0], x[1]), (0, y[1], x[0], x[1]), (1, x[0], y[0], y[1]), (1, x[1], y[0], y[1])]
            for l in lines:
                if c["steps"] and l[0] == D and abs(l[1] - f1) < 1e-3:
                    continue
                ensure(covered(l, edges + ink), "line %r is not part of the outline", l)
            ctx.label("fillable steps" if c["steps"] else "fillable")
        else:
            sameink(ink, lines, "histogram")
            ctx.label("steps" if c["steps"] else "boxes")
        if len(boxes) > 1:
            ctx.nontrivial("bins")
    if c["auto"]:
        ctx.label("automatic")


# ---- rectangles ------------------------------------------------------------------------------------

@st.composite
def rects(draw):
    c = draw(graphs)
    c["x2"] = c["y2"] = None
    c["single"] = True
    n = draw(st.integers(1, 6))
    sx, sy = value(c["x"]), value(c["y"])
    c["rows"] = [[draw(sx), draw(sx), draw(sy), draw(sy), draw(st.one_of(real(-1, 5, 2), st.sampled_from([0, 1, 4])))] for _ in range(n)]
    c["delta"] = draw(st.sampled_from([False, False, True]))
    c["color"] = draw(st.sampled_from(["color", "color", "hue"]))
    c["caxis"] = draw(st.sampled_from([[0, 4, False], [0, 4, True], [1, 2, False]]))
    c["gradient"] = draw(st.sampled_from(["Grey", "ReverseGrey", "RedBlack"]))
    c["keygraph"] = draw(st.sampled_from(["none", "given"]))
    return c


def gradcolor(name, v):
    if name == "Grey": return [1 - v]
    if name == "ReverseGrey": return [v]
    return [1 - v, 0, 0]


def samecolor(want, got, fmt="eps"):
    g = list(got[1:])
    if len(want) == 1 and len(g) == 3:
        want = want * 3
    return len(want) == len(g) and all(abs(a - b) < (1.01 / 255 if fmt == "svg" else 2e-5) for a, b in zip(want, g))


def check_rect(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    lo, hi, rev = c["caxis"]
    ax = graph.axis.lin(min=lo, max=hi, reverse=int(rev), painter=None, parter=None)
    kw = dict(gradient=getattr(color.gradient, c["gradient"]))
    if c["color"] != "color":
        kw["colorname"] = c["color"]
    if c["keygraph"] == "none":
        kw.update(keygraph=None, coloraxis=ax)
    else:
        kw.update(keygraph=graph.graphx(length=3, x=ax))
    rows = [list(r) for r in c["rows"]]
    if c["delta"]:
        d = graph.data.values(x=[r[0] for r in rows], dx=[0.25 * c["x"][2]] * len(rows), y=[r[2] for r in rows], dymin=[0.1 * c["y"][2]] * len(rows), dymax=[0.3 * c["y"][2]] * len(rows), **{c["color"]: [r[4] for r in rows]})
        p = lambda a, b: None if a is None else a + b
        rows = [[p(r[0], -0.25 * c["x"][2]), p(r[0], 0.25 * c["x"][2]), p(r[2], -0.1 * c["y"][2]), p(r[2], 0.3 * c["y"][2]), r[4]] for r in rows]
    else:
        d = data_(["xmin", "xmax", "ymin", "ymax", c["color"]], rows)
    gr.plot(d, [graph.style.rect(**kw)])
    got = [g for g in out(c, gr) if extent(vpolys(c, [g])) > 1e-3]
    want = []
    for r in rows:
        v = [conv(c["x"], r[0]), conv(c["x"], r[1]), conv(c["y"], r[2]), conv(c["y"], r[3])]
        if any(critical(x) for x in v):
            raise Skip("at the boundary")
        if None in v:
            continue
        b = cutbox((v[0], v[2]), (v[1], v[3]))
        if b is None or min(s[1] - s[0] for s in b) < 1e-3:
            if b is not None and min(s[1] - s[0] for s in b) > 1e-9:
                raise Skip("thin")
            continue
        t = min(1, max(0, (r[4] - lo) / (hi - lo)))
        want.append((b, 1 - t if rev else t))
        if min(v) < 0 or max(v) > 1:
            ctx.nontrivial("cut")
    ensure(len(got) == len(want), "%d rectangles are painted, expected %d", len(got), len(want))
    for (b, t), g in zip(want, got):
        ensure(g["kind"] == "fill", "rectangle is painted by %s", g["kind"])
        samearea([b], vpolys(c, [g]), "rectangle")
        ensure(samecolor(gradcolor(c["gradient"], t), g["color"], c["fmt"]), "colour %r, expected %r", g["color"], gradcolor(c["gradient"], t))
    if len(want) > 1:
        ctx.nontrivial("rectangles")


def extent(polys):
    "smaller one of width and height"
    x = [p[0] for l in polys for p in l]
    y = [p[1] for l in polys for p in l]
    return min(max(x) - min(x), max(y) - min(y)) if x else 0


# ---- bars ------------------------------------------------------------------------------------------

NAMES_ = ["a", "b", "c", "d"]


@st.composite
def bars(draw):
    c = draw(graphs)
    c["x2"] = c["y2"] = None
    c["single"] = True
    i = c["index"] = draw(st.sampled_from([0, 0, 0, 1]))      # dimension of the bar axis
    b = c["xy"[1 - i]]
    c["style"] = draw(st.sampled_from(["bar", "bar", "changebar", "stacked", "ontop"]))
    nd = 1 if c["style"] == "changebar" else draw(st.integers(1, 3))
    c["nested"] = nd > 1 or draw(st.booleans())
    c["data"] = []
    for _ in range(nd):
        n = draw(st.integers(1, 4))
        names = draw(st.lists(st.sampled_from(NAMES_), min_size=n, max_size=n, unique=True))
        c["data"].append([[nm, draw(value(b)), draw(value(b) if c["style"] != "ontop" else st.one_of(real(-0.5, 0.5, 2).map(lambda t: round(t * b[2], 3)), st.none()))] for nm in names])
    c["from"] = draw(st.one_of(st.none(), value(b).filter(lambda v: v is not None and (b[0] == "lin" or v > 0))))
    c["path"] = draw(st.booleans())
    return c


def check_bar(c, ctx):
    from pyx import graph, color
    i = c["index"]
    n = "xy"[i], "xy"[1 - i]
    if c["nested"]:
        ba = graph.axis.nestedbar(defaultsubaxis=graph.axis.bar(dist=0, painter=None, linkpainter=None), painter=None)
    else:
        ba = graph.axis.bar(painter=None)
    gr = graph_(dict(c, **{n[0]: None}), **{n[0]: ba, n[0] + "2": None})
    S = graph.style
    styles = [S.barpos(fromvalue=c["from"], frompathattrs=[color.rgb.blue] if c["path"] else None)]
    B = S.changebar() if c["style"] == "changebar" else S.bar()
    styles.append(B)
    stacked = c["style"] in ("stacked", "ontop")
    if stacked:
        styles += [S.stackedbarpos("st", addontop=int(c["style"] == "ontop")), S.bar([color.rgb.green])]
    ds = []
    for k, rows in enumerate(c["data"]):
        cols = {n[0] + "name": [(r[0], k) if c["nested"] else r[0] for r in rows], n[1]: [r[1] for r in rows]}
        if stacked:
            cols["st"] = [r[2] for r in rows]
        ds.append(graph.data.values(**cols))
    gr.plot(ds, styles)
    got = [g for g in out(c, gr)]
    b = c[n[1]]
    f = 0 if c["from"] is None else min(1, max(0, conv(b, c["from"])))
    if c["from"] is not None and c["path"]:
        # bars are painted below
        base = [g for g in got if g["kind"] == "stroke" and samecolor([0, 0, 1], g["color"], c["fmt"])]
        ensure(base, "base line missing")
        sameink([(i, f, 0, 1)], axial(vpolys(c, base[:1])), "base line")
        got.remove(base[0])
    # positions on the bar axis
    order = []
    subs = {}
    for k, rows in enumerate(c["data"]):
        for r in rows:
            if r[0] not in order:
                order.append(r[0])
            if k not in subs.setdefault(r[0], []):
                subs[r[0]].append(k)
    # distances of .5 between the bars and of half of it outside, nested bars without distance
    width = {nm: 1 if not c["nested"] else len(subs[nm]) for nm in order}
    tot = 0.5 * len(order) + sum(width.values())
    pos, x = {}, 0.25
    for nm in order:
        for k in subs[nm]:
            if c["nested"]:
                a = subs[nm].index(k)
                pos[nm, k] = (x + a) / tot, (x + a + 1) / tot
            else:
                pos[nm, k] = x / tot, (x + 1) / tot
        x += width[nm] + 0.5
    # the number of elements of the bar axis
    want = []
    for k, rows in enumerate(c["data"]):
        first, second = [], []
        for r in rows:
            v = conv(b, r[1])
            if critical(v):
                raise Skip("at the boundary")
            first.append((pos[r[0], k], f, v))
            if stacked:
                top = r[2]
                if c["style"] == "ontop":
                    top = None if r[1] is None or r[2] is None else r[1] + r[2]
                w = conv(b, top)
                if critical(w):
                    raise Skip("at the boundary")
                second.append((pos[r[0], k], v, w))
        for j, l in enumerate((first, second)):
            for m, (p, v, w) in enumerate(l):
                if v is None or w is None:
                    continue
                box = cutbox((p[0], v), (p[1], w))
                if box is None:
                    continue
                if box[1][1] - box[1][0] > 1e-3:
                    want.append((box if i == 0 else box[::-1], j, k, m, len(l)))
                elif box[1][1] - box[1][0] > 1e-9:
                    raise Skip("thin")
    fills = [g for g in got if g["kind"] == "fill" and extent(vpolys(c, [g])) > 1e-3]
    strokes = [g for g in got if g["kind"] == "stroke" and extent(vpolys(c, [g])) > 1e-3]
    ensure(len(fills) == len(want) == len(strokes), "%d bars are painted and %d outlined, expected %d", len(fills), len(strokes), len(want))
    for w, g, s in zip(want, fills, strokes):
        samearea([w[0]], vpolys(c, [g]), "bar")
        samearea([w[0]], vpolys(c, [s]), "outline of a bar")
        if w[1] == 1:
            ensure(samecolor([0, 1, 0], g["color"], c["fmt"]), "colour %r of a stacked bar", g["color"])
        if w[1] == 0:
            col = color.gradient.Rainbow.select(w[3] if c["style"] == "changebar" else w[2], w[4] if c["style"] == "changebar" else len(c["data"]))
            rgb = col.rgb()
            ensure(g["color"][0] != "rgb" or samecolor([rgb.r, rgb.g, rgb.b], g["color"], "svg"), "colour %r, expected %r", g["color"], (rgb.r, rgb.g, rgb.b))
    if len(want) > 1:
        ctx.nontrivial("bars")
    ctx.label(c["style"] + (" nested" if c["nested"] else ""))


# ---- density and grid ------------------------------------------------------------------------------

@st.composite
def densities(draw):
    c = draw(graphs)
    c["x2"] = c["y2"] = None
    c["single"] = True
    c["fmt"] = "eps"
    nx, ny = draw(st.integers(2, 5)), draw(st.integers(2, 5))

    def ticks(a, n):
        lo, hi = lim(a)
        s = draw(real(-0.3, 0.5, 2))
        d = draw(real(0.1, 0.6, 2))
        return [lo * (hi / lo) ** (s + k * d) if a[0] == "log" else lo + (hi - lo) * (s + k * d) for k in range(n)]
    xs, ys = ticks(c["x"], nx), ticks(c["y"], ny)
    cells = [[x, y] for x in xs for y in ys]
    order = draw(st.permutations(list(range(len(cells)))))
    c["rows"] = [cells[k] + [draw(real(0, 4, 2))] for k in order]
    # missing cells, missing colours, and rows without position
    c["edit"] = draw(st.lists(st.tuples(st.sampled_from(["drop", "nocolor", "nopos", "nopos"]), st.integers(0, len(cells) - 1)), max_size=3))
    c["gradient"] = draw(st.sampled_from(["Grey", "RedBlack", "ReverseGrey"]))
    c["color"] = draw(st.sampled_from(["color", "z"]))
    return c


def check_density(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    rows = [list(r) for r in c["rows"]]
    ins = []
    for what, k in c["edit"]:
        if what == "nocolor":
            rows[k][2] = None
        elif what == "nopos":
            ins.append((k, [None, rows[k][1], 3.5]))
    dropped = sorted({k for what, k in c["edit"] if what == "drop"}, reverse=True)
    full = [tuple(r[:2]) for r in rows]
    keep = [r for k, r in enumerate(rows) if k not in dropped]
    xs, ys = {r[0] for r in rows}, {r[1] for r in rows}
    if {r[0] for r in keep} != xs or {r[1] for r in keep} != ys:
        raise Skip("grid incomplete")
    for k, r in sorted(ins, key=lambda t: -t[0]):
        keep.insert(min(k, len(keep)), r)
    ax = graph.axis.lin(min=0, max=4, painter=None, parter=None)
    gr.plot(data_(["x", "y", c["color"]], keep), [graph.style.density(gradient=getattr(color.gradient, c["gradient"]), coloraxis=ax, keygraph=None, colorname=c["color"])])
    f = io.BytesIO()
    gr.writeEPSfile(f)
    i = ps.interpret(f.getvalue())
    its = [x for p in i.pages for x in p] + i.out
    its = [x for x in its if x["kind"] == "image"]
    ensure(len(its) == 1, "%d images", len(its))
    from checks import c19
    im = c19.psimages(f.getvalue())[0]
    # the area shown is the graph
    cl = its[0]["clips"]
    g = [vpolys(c, [dict(subs=s[0])]) for s in cl]
    box = [-9, -9, 9, 9]
    for q in g:
        x = [p[0] for l in q for p in l]
        y = [p[1] for l in q for p in l]
        box = [max(box[0], min(x)), max(box[1], min(y)), min(box[2], max(x)), min(box[3], max(y))]
    ensure(max(abs(p - q) for p, q in zip(box, (0, 0, 1, 1))) < 1e-3, "density plot clipped at %r", box)
    o, ex, ey = im["corners"]

    def pixel(p):
        "column, row at a position"
        d = (p[0] - o[0], p[1] - o[1])
        u, v = (ex[0] - o[0], ex[1] - o[1]), (ey[0] - o[0], ey[1] - o[1])
        det = u[0] * v[1] - u[1] * v[0]
        return (d[0] * v[1] - d[1] * v[0]) / det * im["w"], (u[0] * d[1] - u[1] * d[0]) / det * im["h"]
    nc = {"L": 1, "RGB": 3, "CMYK": 4}[im["mode"]]
    have = {}
    for r in keep:
        if r[0] is not None:
            have[r[0], r[1]] = r[2]
    ensure({im["w"], im["h"]} == {len(xs), len(ys)} and im["w"] * im["h"] == len(xs) * len(ys), "image of %d x %d pixels for %d x %d values", im["w"], im["h"], len(xs), len(ys))
    seen = set()
    for (x, y) in full:
        p = place(c, conv(c["x"], x), conv(c["y"], y))
        q = pixel(p)
        ensure(all(abs(v - math.floor(v) - 0.5) < 1e-2 for v in q), "value at %r of the image is not at the center of a pixel", q)
        k = int(q[1]) * im["w"] + int(q[0])
        ensure(0 <= q[0] < im["w"] and 0 <= q[1] < im["h"] and k not in seen, "value outside of the image at %r", q)
        seen.add(k)
        z = have.get((x, y))
        if z is None:
            ensure(im["alpha"] is not None and im["alpha"][k] == 0, "missing value at %r is painted", (x, y))
        else:
            ensure(im["alpha"] is None or im["alpha"][k] == 255, "value at %r is not opaque", (x, y))
            w = gradcolor(c["gradient"], z / 4)
            s = im["data"][k * nc:k * nc + nc]
            ensure(len(w) == nc and all(abs(a * 255 - b) < 1.01 for a, b in zip(w, s)), "value %r at %r has the colour %r, expected %r", z, (x, y), list(s), [v * 255 for v in w])
    ctx.nontrivial("density")
    ctx.label("missing" if None in [have.get(t) for t in full] else "complete")


@st.composite
def grids(draw):
    c = draw(graphs)
    c["x2"] = c["y2"] = None
    c["single"] = True
    nx, ny = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    sx = value(c["x"]).filter(lambda v: v is not None)
    sy = value(c["y"]).filter(lambda v: v is not None)
    xs = draw(st.lists(sx, min_size=nx, max_size=nx, unique=True))
    ys = draw(st.lists(sy, min_size=ny, max_size=ny, unique=True))
    cells = [[x, y] for x in xs for y in ys]
    c["rows"] = [cells[k] for k in draw(st.permutations(list(range(len(cells)))))]
    c["drop"] = draw(st.lists(st.integers(0, len(cells) - 1), max_size=4))
    c["lines"] = draw(st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 1]]))
    return c


def check_grid(c, ctx):
    from pyx import graph, color
    gr = graph_(c)
    rows = [r for k, r in enumerate(c["rows"]) if k not in c["drop"]]
    if not rows:
        raise Skip("empty")
    gr.plot(data_(["x", "y"], rows), [graph.style.grid(gridlines1=c["lines"][0], gridlines2=c["lines"][1])])
    got = axial(vpolys(c, out(c, gr)))
    pts = set()
    for x, y in rows:
        v = conv(c["x"], x), conv(c["y"], y)
        if any(critical(t) for t in v):
            raise Skip("at the boundary")
        if None not in v:
            pts.add(v)
    xs, ys = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
    if min([1] + [b - a for l in (xs, ys) for a, b in zip(l, l[1:])]) < 1e-6:
        raise Skip("nearly equal values")
    want = []
    if c["lines"][0]:
        for y in ys:
            for x1, x2 in zip(xs, xs[1:]):
                if (x1, y) in pts and (x2, y) in pts and -1e-10 <= y <= 1 + 1e-10 and x2 > 0 and x1 < 1:
                    want.append((0, y, max(0, x1), min(1, x2)))
    if c["lines"][1]:
        for x in xs:
            for y1, y2 in zip(ys, ys[1:]):
                if (x, y1) in pts and (x, y2) in pts and -1e-10 <= x <= 1 + 1e-10 and y2 > 0 and y1 < 1:
                    want.append((1, x, max(0, y1), min(1, y2)))
    sameink(want, got, "grid")
    if len(want) > 2:
        ctx.nontrivial("grid")


# ---- surfaces --------------------------------------------------------------------------------------

@st.composite
def surfaces(draw):
    c = dict(geom=draw(geom), x=draw(lin), y=draw(lin), fmt="eps")
    n1, n2 = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    c["v1"] = draw(st.lists(st.integers(-2, 22), min_size=n1, max_size=n1, unique=True))
    c["v2"] = draw(st.lists(st.integers(-2, 22), min_size=n2, max_size=n2, unique=True))
    rows = [[a, b, draw(real(0, 1, 2))] for a in range(n1) for b in range(n2)]
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        rows.pop(draw(st.integers(0, len(rows) - 1)))
    c["rows"] = draw(st.permutations(rows))
    c["index"] = draw(st.booleans())
    c["grid"] = draw(st.sampled_from([None, (0.05, 0.05), (0.2, 0), (0, 0.1), (0.15, 0.25)]))
    c["back"] = draw(st.booleans())
    c["pts"] = draw(st.lists(st.tuples(real(0, 1, 3), real(0, 1, 3)), min_size=6, max_size=6))
    return c


def check_surface(c, ctx):
    from pyx import graph, color
    from checks.c22 import triangles
    from checks.c35 import bary
    gr = graph_(c)
    kw = dict(gradient=color.gradient.Gray, backcolor=color.gray(0.25) if c["back"] else None, keygraph=None, coloraxis=graph.axis.lin(min=0, max=1))
    if c["grid"]:
        kw.update(gridcolor=color.gray(0.75), gridlines1=c["grid"][0], gridlines2=c["grid"][1])
    val = lambda a, k: lim(a)[0] + k / 20 * (lim(a)[1] - lim(a)[0])
    rows = [[val(c["x"], c["v1"][a]), val(c["y"], c["v2"][b]), h] for a, b, h in c["rows"]]
    i = int(c["index"])
    gr.plot(data_(["x", "y", "color"], rows), [graph.style.gridpos(index1=i, index2=1 - i), graph.style.surface(**kw)])
    V = [[1 - k / 20 if c[n][3] else k / 20 for k in c["v" + m]] for n, m in (("x", "1"), ("y", "2"))]
    D = {(a, b): h for a, b, h in c["rows"]}
    order = [sorted({r[k] for r in c["rows"]}, key=lambda a: V[k][a]) for k in (0, 1)]
    cells = []
    for a, a2 in zip(order[0], order[0][1:]):
        for b, b2 in zip(order[1], order[1][1:]):
            ks = [(a, b), (a2, b), (a2, b2), (a, b2)]
            if all(k in D and inside((V[0][k[0]], V[1][k[1]])) for k in ks):
                cells.append([(V[0][k[0]], V[1][k[1]], D[k]) for k in ks])
    got = [g for g in out(c, gr) if g["data"]]
    if not cells:
        ensure(not got, "painted without any cell")
        return
    ensure([g["kind"] for g in got] == ["shading"], "painted: %r", [g["kind"] for g in got])
    tr = triangles(got[0]["data"], got[0]["shading"]["Decode"], 1)
    G = [tr[k:k + 3] for k in range(0, len(tr), 3)]
    corners = [place(c, x, y) for l in cells for x, y, h in l]
    close((min(x for x, y in corners), min(y for x, y in corners), max(x for x, y in corners), max(y for x, y in corners)),
          (min(t[0] for t in tr), min(t[1] for t in tr), max(t[0] for t in tr), max(t[1] for t in tr)), 5e-3, "extent of the surface")
    g1, g2 = c["grid"] or (0, 0)
    if i:
        g1, g2 = g2, g1     # stripes are along the first grid direction and shrink the second
    wx, wy = g2, g1
    for k, (s, t) in enumerate(c["pts"]):
        l = cells[k % len(cells)]
        x, y = l[0][0] + s * (l[2][0] - l[0][0]), l[0][1] + t * (l[2][1] - l[0][1])
        p = place(c, x, y)
        last = None
        for g in G:
            b = bary([q[:2] for q in g], p)
            if b is not None and min(b) >= -1e-9:
                last = sum(w * q[2][0] for w, q in zip(b, g))
        if any(abs(s - e) < 0.01 or abs(t - f) < 0.01 for e in (0, 1, wx, 1 - wx) for f in (0, 1, wy, 1 - wy)):
            continue
        stripe = not (wx <= s <= 1 - wx and wy <= t <= 1 - wy)
        ensure(last is not None, "nothing is painted at %r in a cell", (s, t))
        if stripe:
            want = 0.75
        else:
            s1, t1 = (s - wx) / (1 - 2 * wx), (t - wy) / (1 - 2 * wy)
            if abs(s1 - t1) < 0.02 or abs(s1 + t1 - 1) < 0.02:
                continue
            h = [1 - q[2] for q in l]      # the gradient is from white to black
            m = sum(h) / 4
            # nearest edge and distance from the middle
            e = max((1 - 2 * t1, 0, 1, s1), (2 * s1 - 1, 1, 2, t1), (2 * t1 - 1, 3, 2, s1), (1 - 2 * s1, 0, 3, t1))
            d, u, v, w = e
            along = ((w - 0.5) / d + 0.5)
            want = m + d * (h[u] + along * (h[v] - h[u]) - m)
        ensure(abs(last - want) <= 0.02, "colour %r at %r of a cell, expected %r", last, (s, t), want)
        ctx.label("stripe" if stripe else "inside")
        ctx.nontrivial("surface")


SUBS = [Sub("histograms", histograms(), check_histogram, quick=1500, thorough=40000),
        Sub("rects", rects(), check_rect, quick=700, thorough=20000),
        Sub("bars", bars(), check_bar, quick=800, thorough=20000),
        Sub("densities", densities(), check_density, quick=500, thorough=15000),
        Sub("grids", grids(), check_grid, quick=600, thorough=15000),
        Sub("surfaces", surfaces(), check_surface, quick=400, thorough=12000)]
