"""C23 boxes typeset by TeX: extents, attributes, painted rules, markers and engine life cycle"""
import io, json, logging, math, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real
from lib import refpath as R
from checks.c11 import eps, pdfl, svgl

PROP = "C23"
RULE = ("random TeX boxes (rules, kerns, raised and nested boxes, paragraphs, markers, colours and transformations by specials) are typeset by the TeX and LaTeX engines with random text attributes, units and transformations, "
        "in histories of texts, outputs, errors and resets, and compared with an own model of TeX's boxes: extents, painted rectangles in EPS, PDF and SVG, and markers; non-trivial: at least one painted rule or one expected error")
TEX = 72 / 72.27        # big points per TeX point


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- TeX's boxes: (width, height, depth, ink, markers); ink: (four points, colour or None) -----------
# x to the right and y upwards from the reference point, in TeX points

def move(ink, m):
    return [([(m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]) for x, y in pts], c) for pts, c in ink]


def movem(marks, m):
    return {k: (m[0] * x + m[1] * y + m[4], m[2] * x + m[3] * y + m[5]) for k, (x, y) in marks.items()}


def shift(x, y):
    return (1, 0, 0, 1, x, y)


def about(m, x, y):
    a, b, c, d = m
    return (a, b, c, d, x - a * x - b * y, y - c * x - d * y)


def rot(a):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return (c, -s, s, c)


def rectangle(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def hlist(items, x=0):
    "width, height, depth, ink and markers of the material; ink relative to its start"
    x0, h, d, ink, marks = x, 0, 0, [], {}
    for it in items:
        k = it[0]
        if k == "rule":
            w, rh, rd = it[1:]
            if w > 0 and rh + rd > 0:
                ink.append((rectangle(x, -rd, x + w, rh), None))
            x, h, d = x + w, max(h, rh), max(d, rd)
        elif k == "kern":
            x += it[1]
        elif k == "mark":
            marks[it[1]] = (x, 0)
        elif k in ("color", "rotate", "scale", "math", "group"):
            x1, h1, d1, i1, m1 = hlist(it[-1], x)
            if k == "color":
                i1 = [(p, c or it[1]) for p, c in i1]
            elif k in ("rotate", "scale"):
                m = about(rot(it[1]) if k == "rotate" else (it[1], 0, 0, it[2]), x, 0)
                i1, m1 = move(i1, m), movem(m1, m)
            ink += i1
            marks.update(m1)
            x, h, d = x1, max(h, h1), max(d, d1)
        else:
            b, up = box(it)
            ink += move(b[3], shift(x, up))
            marks.update(movem(b[4], shift(x, up)))
            x, h, d = x + b[0], max(h, b[1] + up), max(d, b[2] - up)
    return x, h, d, ink, marks


def hbox(items):
    return hlist(items)


def vlist(rows):
    "total height, depth of the last, height of the first box, width, ink and markers; ink relative to the top"
    y, d, first, w, ink, marks = 0, 0, None, 0, [], {}
    for r in rows:
        if r[0] == "vkern":
            y, d = y + d + r[1], 0
            first = 0 if first is None else first
            continue
        if r[0] == "hrule":
            b = (r[1], r[2], r[3], [(rectangle(0, -r[3], r[1], r[2]), None)] if r[1] > 0 and r[2] + r[3] > 0 else [], {})
            sx = 0
        else:
            b, sx = hbox(r[2]), r[1]
        y += d + b[1]
        d = b[2]
        ink += move(b[3], shift(sx, -y))
        marks.update(movem(b[4], shift(sx, -y)))
        w = max(w, b[0] + sx)
        first = b[1] if first is None else first
    return y, d, first or 0, w, ink, marks


def vbox(rows, top):
    y, d, first, w, ink, marks = vlist(rows)
    up, h, d = (first, first, y + d - first) if top else (y, y, d)
    return w, h, d, move(ink, shift(0, up)), movem(marks, shift(0, up))


def box(it):
    "the box and by how much it is raised"
    k = it[0]
    if k == "raise":
        return hbox(it[2]), it[1]
    if k == "to":
        w, h, d, ink, marks = hbox(it[3])
        s = it[1] * it[2] / 4
        return (w + it[1], h, d, move(ink, shift(s, 0)), movem(marks, shift(s, 0))), 0
    if k in ("vbox", "vtop"):
        return vbox(it[1], k == "vtop"), 0
    if k == "phantom":
        w, h, d = hbox(it[1])[:3]
        return (w, h, d, [], {}), 0
    if k == "rotatebox":
        w, h, d, ink, marks = hbox(it[2])
        if w < 0:
            raise Skip("negative width in a rotated box")
        m = rot(it[1])
        pts = move([(rectangle(0, -d, w, h), None)], m + (0, 0))[0][0]
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        m = m + (-min(xs), 0)
        return (max(xs) - min(xs), max(ys), -min(ys), move(ink, m), movem(marks, m)), 0
    if k == "scalebox":
        w, h, d, ink, marks = hbox(it[3])
        m = (it[1], 0, 0, it[2], 0, 0)
        return (w * it[1], h * it[2], d * it[2], move(ink, m), movem(marks, m)), 0
    raise AssertionError(k)


# ---- their source ------------------------------------------------------------------------------------

def pt(v):
    return "%.4fpt" % v


def src(items):
    return "".join(src1(it) for it in items)


def vsrc(rows):
    out = []
    for r in rows:
        if r[0] == "vkern":
            out.append(r"\kern%s" % pt(r[1]))
        elif r[0] == "hrule":
            out.append(r"\hrule width%s height%s depth%s" % tuple(pt(v) for v in r[1:]))
        else:
            out.append((r"\moveright%s" % pt(r[1]) if r[1] else "") + r"\hbox{%s}" % src(r[2]))
    return "".join(out)


def special(s):
    return r"\special{PyX:%s}" % s


def src1(it):
    k = it[0]
    if k == "rule":
        return r"\vrule width%s height%s depth%s" % tuple(pt(v) for v in it[1:])
    if k == "kern":
        return r"\kern%s" % pt(it[1])
    if k == "mark":
        return r"\PyXMarker{%s}" % it[1]
    if k == "color":
        return special("color_begin " + colourspec(it[1])) + src(it[2]) + special("color_end")
    if k == "rotate":
        return special("rotate_begin %.3f" % it[1]) + src(it[2]) + special("rotate_end")
    if k == "scale":
        return special("scale_begin %.3f %.3f" % (it[1], it[2])) + src(it[3]) + special("scale_end")
    if k == "math":
        return r"\hbox{$%s$}" % src(it[1])
    if k == "group":
        return "{%s}" % src(it[1])
    if k == "raise":
        return (r"\raise%s\hbox{%s}" % (pt(it[1]), src(it[2]))) if it[1] > 0 else (r"\lower%s\hbox{%s}" % (pt(-it[1]), src(it[2])))
    if k == "to":
        return r"\hbox to%s{\hskip0pt plus %dfil%s\hskip0pt plus %dfil}" % (pt(it[1] + hbox(it[3])[0]), it[2], src(it[3]), 4 - it[2])
    if k in ("vbox", "vtop"):
        return r"\%s{\offinterlineskip%s}" % (k, vsrc(it[1]))
    if k == "phantom":
        return r"\phantom{%s}" % src(it[1])
    if k == "rotatebox":
        return r"\rotatebox{%.3f}{%s}" % (it[1], src(it[2]))
    if k == "scalebox":
        return r"\scalebox{%.3f}[%.3f]{%s}" % (it[1], it[2], src(it[3]))
    raise AssertionError(k)


def colourspec(c):
    m, v = c[0], c[1:]
    if m == "RGB":
        return "RGB %d %d %d" % tuple(v)
    if m == "pyx":
        return "pyxcolor %s(%s)" % (v[0], ",".join("%.3f" % x for x in v[1:]))
    return m + " " + " ".join("%.3f" % x for x in v)


def colour(c):
    "as found in PostScript and PDF"
    if c is None:
        return ("gray", 0)
    if c[0] == "RGB":
        return ("rgb",) + tuple(x / 255 for x in c[1:])
    if c[0] == "pyx":
        c = c[1:]
    return tuple(c)


def torgb(c):
    if c[0] == "gray":
        return (c[1],) * 3
    if c[0] == "rgb":
        return c[1:]
    return tuple(max(0, 1 - x - c[4]) for x in c[1:4])


# ---- text attributes ---------------------------------------------------------------------------------

SIZES = {-4: 5, -3: 7, -2: 8, -1: 9, 0: 10, 1: 12, 2: 14.4, 3: 17.28, 4: 20.74, 5: 24.88}


def textattr(a):
    from pyx import text, trafo, color, unit
    k = a[0]
    if k == "boxhalign":
        return text.boxhalign(a[1])
    if k == "flushhalign":
        return text.flushhalign(a[1])
    if k == "halign":
        return text.halign(a[1], a[2])
    if k == "named":
        return {"left": text.halign.left, "center": text.halign.center, "right": text.halign.right, "raggedright": text.halign.raggedright, "boxcenter": text.halign.boxcenter,
                "flushright": text.halign.flushright, "top": text.valign.top, "middle": text.valign.middle, "bottom": text.valign.bottom}[a[1]]
    if k == "math":
        return text.mathmode
    if k == "phantom":
        return text.phantom
    if k == "parbox":
        return text.parbox(a[1] * unit.t_pt, baseline={"top": text.parbox.top, "middle": text.parbox.middle, "bottom": text.parbox.bottom}[a[2]])
    if k == "valign":
        return text.valign(a[1])
    if k == "vshift":
        return text.vshift(a[1], r"\vrule width1pt height%s depth%s" % (pt(a[2]), pt(a[3])))
    if k == "zero":
        return {"bottom": text.vshift.bottomzero, "middle": text.vshift.middlezero, "top": text.vshift.topzero}[a[1]]
    if k == "mathaxis":
        return text.vshift.mathaxis
    if k == "size":
        return text.size(a[1])
    if k == "clear":
        return {"halign": text.halign.clear, "valign": text.valign.clear, "vshift": text.vshift.clear, "math": text.clearmathmode, "phantom": text.clearphantom, "parbox": text.parbox.clear, "size": text.size.clear}[a[1]]
    if k == "trafo":
        return trafo.trafo_pt(((a[1][0], a[1][1]), (a[1][2], a[1][3])), (a[1][4], a[1][5]))
    if k == "color":
        return {"gray": color.gray, "rgb": color.rgb, "cmyk": color.cmyk}[a[1][0]](*a[1][1:])
    raise AssertionError(k)


NAMED = {"left": ("halign", 0, 0), "center": ("halign", .5, .5), "right": ("halign", 1, 1), "raggedright": ("flushhalign", 0), "boxcenter": ("boxhalign", .5), "flushright": ("flushhalign", 1),
         "top": ("valign", 0), "middle": ("valign", .5), "bottom": ("valign", 1)}


def effective(attrs):
    "the attributes after clears and exclusions"
    res = []
    for a in attrs:
        if a[0] == "named":
            a = NAMED[a[1]]
        k = a[0]
        if k == "clear":
            drop = {"vshift": ("vshift", "zero", "mathaxis"), "halign": ("halign",)}.get(a[1], (a[1],))
            res = [r for r in res if r[0] not in drop]
            continue
        if k in ("parbox", "valign", "math", "boxhalign", "flushhalign", "halign"):
            # a halign is a boxhalign and a flushhalign, too
            res = [r for r in res if r[0] != k and not (k in ("boxhalign", "flushhalign") and r[0] == "halign")]
        res.append(a)
    return res


def typeset(content, attrs, xscale):
    "the box of a text, its box alignment and its source"
    attrs = effective(attrs)
    get = lambda k: [a for a in attrs if a[0] == k]
    bh, fh = 0, None
    for a in attrs:
        if a[0] == "boxhalign":
            bh = a[1]
        elif a[0] == "flushhalign":
            fh = a[1]
        elif a[0] == "halign":
            bh, fh = a[1:]
    if content[0] == "par":
        if not get("parbox"):
            raise Skip("a paragraph needs a width")
        if get("phantom") or get("math"):
            raise Skip("not defined by TeX")
        base, skip, rows = content[1:]
        width = get("parbox")[-1][1] / TEX / xscale
        for r in rows:
            if hlist(r)[0] > width - 1:
                raise Skip("overfull lines")
        lines = []
        prev = None
        for r in rows:
            w, h, d, ink, marks = hlist(r)
            s = 0 if fh is None else fh * (width - w)
            if prev is not None:
                g = base - prev - h
                if abs(g) < 1e-3:
                    raise Skip("tie between baselineskip and lineskip")
                lines.append(["vkern", g if g >= 0 else skip])
            prev = d
            lines.append(["line", (width, h, d, move(ink, shift(s, 0)), movem(marks, shift(s, 0)))])
        b = [paragraph(lines, t) for t in (True, False)]
        mode = get("parbox")[-1][2]
        if mode == "top":
            b = b[0]
        elif mode == "bottom":
            b = b[1]
        else:
            low = (b[0][2] - b[1][2]) / 2
            b = down(b[1], low)
        tex = r"\baselineskip=%s\lineskip=%s\lineskiplimit=0pt\noindent " % (pt(base), pt(skip)) + r"\break ".join(src(r) for r in rows)
    else:
        if get("parbox"):
            raise Skip("a width needs a paragraph")
        b = hbox(content[1])
        if get("phantom"):
            b = b[:3] + ([], {})
        tex = src(content[1])
    for a in get("valign"):
        b = down(b, (1 - a[1]) * b[1] - a[1] * b[2])
    size = 10
    for a in get("size"):
        size = SIZES[a[1]]
    for a in reversed(attrs):
        if a[0] == "vshift":
            b = down(b, a[1] * a[2])
        elif a[0] == "zero":
            b = down(b, {"bottom": 0, "middle": .5, "top": 1}[a[1]] * .644444 * size)
        elif a[0] == "mathaxis":
            b = down(b, .25 * size)
    return b, bh, tex


def down(b, l):
    "in a box of its own"
    return b[0], max(0, b[1] - l), max(0, b[2] + l), move(b[3], shift(0, -l)), movem(b[4], shift(0, -l))


def paragraph(lines, top):
    y, d, first, ink, marks = 0, 0, None, [], {}
    w = 0
    for l in lines:
        if l[0] == "vkern":
            y, d = y + d + l[1], 0
        else:
            b = l[1]
            y, d = y + d + b[1], b[2]
            ink += move(b[3], shift(0, -y))
            marks.update(movem(b[4], shift(0, -y)))
            w = b[0]
            first = b[1] if first is None else first
    up, h, d = (first, first, y + d - first) if top else (y, y, d)
    return w, h, d, move(ink, shift(0, up)), movem(marks, shift(0, up))


# ---- strategies --------------------------------------------------------------------------------------

size_ = st.one_of(real(0, 30, 2), st.sampled_from([0, 1, 10, 25]))
signed = st.one_of(real(-15, 15, 2), st.sampled_from([0, 5, -5]))
unitv = real(0, 1, 2)
colours = st.one_of(st.tuples(st.just("rgb"), unitv, unitv, unitv), st.tuples(st.just("gray"), unitv), st.tuples(st.just("cmyk"), unitv, unitv, unitv, unitv))
tcolours = st.one_of(colours, st.tuples(st.just("RGB"), st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)), colours.map(lambda c: ("pyx",) + tuple(c))).map(list)
rule = st.tuples(st.just("rule"), size_, size_, st.one_of(st.just(0), size_, signed)).map(list)
kern = st.tuples(st.just("kern"), signed).map(list)
mark = st.just(["mark", ""])
turn = st.one_of(st.integers(-12, 12).map(lambda i: i * 15), real(-180, 180, 1))
factor = st.one_of(real(.3, 2, 2), st.sampled_from([-1, 1, -.5]))


@st.composite
def items_(draw, depth, latex, math=False, n=4):
    return [draw(item_(depth, latex, math)) for i in range(draw(st.integers(1 if depth else 0, n)))]


@st.composite
def row_(draw, depth, latex):
    k = draw(st.sampled_from(["box", "box", "box", "vkern", "hrule"]))
    if k == "vkern":
        return ["vkern", draw(signed)]
    if k == "hrule":
        return ["hrule"] + [draw(size_), draw(size_), draw(size_)]
    return ["row", draw(st.one_of(st.just(0), signed)), draw(items_(depth, latex, n=2))]


@st.composite
def item_(draw, depth, latex, math=False):
    ks = ["rule"] * 4 + ["kern", "mark"]
    if depth:
        ks += ["color", "rotate", "scale", "raise", "raise", "to", "vbox", "vtop", "group"] + ([] if math else ["phantom", "math"]) + (["rotatebox", "scalebox"] if latex and not math else [])
    k = draw(st.sampled_from(ks))
    sub = lambda: draw(items_(depth - 1, latex, k == "math" or math))
    if k == "rule":
        return draw(rule)
    if k == "kern":
        return draw(kern)
    if k == "mark":
        return ["mark", ""]
    if k == "color":
        return [k, draw(tcolours), sub()]
    if k in ("rotate", "rotatebox"):
        return [k, draw(turn), sub()]
    if k == "scale":
        return [k, draw(factor), draw(factor), sub()]
    if k == "scalebox":
        return [k, draw(real(.3, 2, 2)), draw(real(.3, 2, 2)), sub()]
    if k == "raise":
        return [k, draw(signed), sub()]
    if k == "to":
        return [k, draw(real(0, 80, 1)), draw(st.integers(0, 4)), sub()]
    if k in ("vbox", "vtop"):
        return [k, [draw(row_(depth - 1, latex)) for i in range(draw(st.integers(1, 4)))]]
    if k in ("phantom", "math", "group"):
        return [k, sub()]


halfs = st.one_of(st.sampled_from([0, .5, 1]), real(-.5, 1.5, 2))
trafos = st.one_of(turn.map(lambda a: list(rot(a)) + [0, 0]), st.tuples(factor, factor).map(lambda f: [f[0], 0, 0, f[1], 0, 0]), st.tuples(signed, signed).map(lambda f: [1, 0, 0, 1, f[0], f[1]]),
                   st.tuples(real(-1, 1, 2), real(-1, 1, 2), real(.5, 2, 1), real(-5, 5, 1)).map(lambda f: [f[2], f[0], f[1], 1 + f[2] * 2, f[3], 2]))
attr_ = st.one_of(
    st.tuples(st.just("boxhalign"), halfs), st.tuples(st.just("flushhalign"), halfs.filter(lambda v: 0 <= v <= 1)), st.tuples(st.just("halign"), halfs, halfs.filter(lambda v: 0 <= v <= 1)),
    st.tuples(st.just("named"), st.sampled_from(sorted(NAMED))), st.just(("math",)), st.just(("phantom",)),
    st.tuples(st.just("valign"), halfs), st.tuples(st.just("vshift"), halfs, real(0, 20, 1), real(0, 5, 1)), st.tuples(st.just("zero"), st.sampled_from(["bottom", "middle", "top"])), st.just(("mathaxis",)),
    st.tuples(st.just("size"), st.integers(-4, 5)), st.tuples(st.just("clear"), st.sampled_from(["halign", "valign", "vshift", "math", "phantom", "size"])),
    st.tuples(st.just("trafo"), trafos), st.tuples(st.just("trafo"), trafos), st.tuples(st.just("color"), colours.map(list))).map(list)


def parattr(draw):
    return ["parbox", draw(real(40, 300, 1)), draw(st.sampled_from(["top", "middle", "bottom"]))]


@st.composite
def text_(draw, latex, depth=2):
    attrs = draw(st.lists(attr_, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        attrs = [a for a in attrs if a[0] not in ("phantom", "math")]
        attrs.insert(draw(st.integers(0, len(attrs))), parattr(draw))
        if draw(st.integers(0, 5)) == 0:
            attrs.insert(0, parattr(draw))
        rows = [[["rule", draw(real(1, 20, 1)), draw(real(0, 14, 1)), draw(real(0, 8, 1))]] + draw(st.lists(st.one_of(rule, kern, mark, st.tuples(st.just("raise"), signed, st.lists(rule, max_size=2)).map(list)), max_size=2))
                for i in range(draw(st.integers(1, 4)))]
        content = ["par", draw(st.sampled_from([12, 6, 20.5])), draw(st.sampled_from([1, 0, 3.5])), rows]
    else:
        content = ["h", draw(items_(draw(st.integers(0, depth)), latex))]
    return dict(content=content, attrs=attrs, x=draw(real(-50, 50, 1)), y=draw(real(-50, 50, 1)), then=draw(st.lists(trafos, max_size=2)), after=draw(st.lists(trafos, max_size=1)),
                macro=draw(st.booleans()))


def number(case):
    "markers get names of their own"
    n = [0]

    def go(items):
        for it in items:
            if it[0] == "mark":
                n[0] += 1
                it[1] = "m%d%s" % (n[0], ["", "A", "@b"][n[0] % 3])
            elif it[0] in ("vbox", "vtop"):
                for r in it[1]:
                    if r[0] == "row":
                        go(r[2])
            elif it[0] not in ("rule", "kern"):
                go(it[-1])
    for op in case["ops"]:
        if op[0] == "text":
            c = op[1]["content"]
            for l in (c[3] if c[0] == "par" else [c[1]]):
                go(l)
    return case


@st.composite
def history(draw, latex):
    ops = []
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["text"] * 8 + ["write", "write", "error", "reset", "use"]))
        if k == "text":
            ops.append([k, draw(text_(latex))])
        elif k == "reset":
            ops.append([k, draw(st.booleans())])
        elif k == "error":
            ops.append([k, draw(st.sampled_from(["undefined", "errmessage", "message", "marker"]))])
        else:
            ops.append([k])
    if not any(o[0] == "text" for o in ops):
        ops.append(["text", draw(text_(latex))])
    return number(json.loads(json.dumps(dict(latex=latex, xscale=draw(st.sampled_from([1, 1, .7, 2.5])), ops=ops, fmt=draw(st.sampled_from(["eps", "pdf", "svg"])), ipc=draw(st.booleans()), single=draw(st.booleans())))))


# ---- checks ------------------------------------------------------------------------------------------

def rects(items):
    out = []
    for it in items:
        ensure(it["kind"] == "fill", "a %s is painted", it["kind"])
        for p in R.polys(it["subs"]):
            pts = [(float(x), float(y)) for x, y in p.pts]
            out.append((pts, tuple(it["color"])))
    return out


def samerects(want, got, svg, what):
    ensure(len(want) == len(got), "%s: %d rectangles, expected %d: %r, expected %r", what, len(got), len(want), got[:4], want[:4])
    for i, ((wp, wc, wt), (gp, gc)) in enumerate(zip(want, got)):
        big = max([1] + [abs(v) for p in wp for v in p])
        tol = wt + 1e-4 * big
        for p in wp:
            if not any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for q in gp):
                fail("%s: rectangle %d has corners %r, expected %r", what, i, gp, wp)
        for q in gp:
            if not any(abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol for p in wp):
                fail("%s: rectangle %d has corners %r, expected %r", what, i, gp, wp)
        if svg:
            ensure(max(abs(a - b) for a, b in zip(torgb(wc), gc[1:])) <= 1.01 / 255, "%s: rectangle %d has colour %r, expected %r", what, i, gc, wc)
        else:
            ensure(wc[0] == gc[0] and max(abs(a - b) for a, b in zip(wc[1:], gc[1:])) < 1e-5, "%s: rectangle %d has colour %r, expected %r", what, i, gc, wc)


def compose(ms, p):
    for m in ms:
        p = (m[0] * p[0] + m[1] * p[1] + m[4], m[2] * p[0] + m[3] * p[1] + m[5])
    return p


class Want:

    def __init__(self, t, xscale):
        b, bh, self.tex = typeset(t["content"], t["attrs"], xscale)
        s = TEX * xscale
        self.s = s
        self.ext = (bh * b[0] * s, (1 - bh) * b[0] * s, b[1] * s, b[2] * s)
        self.x, self.y = t["x"], t["y"]
        eff = effective(t["attrs"])
        # attributes act relative to the anchor, which moves with them
        x, y = self.x, self.y
        self.ms = [(s, 0, 0, s, x - bh * b[0] * s, y)]
        c = (x, y)
        for a in eff:
            if a[0] == "trafo":
                m = a[1]
                m = about(m[:4], *c)[:4] + tuple(about(m[:4], *c)[4:]) + ()
                m = (m[0], m[1], m[2], m[3], m[4] + a[1][4], m[5] + a[1][5])
                self.ms.append(m)
                c = compose([m], c)
        self.ms += [tuple(m) for m in t["then"]]
        self.b = b
        col = [a[1] for a in eff if a[0] == "color"]
        self.col = tuple(col[-1]) if col else None

    def corners(self):
        b = self.b
        return [compose(self.ms, p) for p in rectangle(0, -b[2], b[0], b[1])]

    def ink(self):
        return [([compose(self.ms, p) for p in pts], colour(c) if c else colour(self.col), self.tol()) for pts, c in self.b[3] if big(pts)]

    def tol(self):
        "the dimensions are rounded by TeX and by the scaling"
        o = compose(self.ms, (0, 0))
        return 6e-3 * max([self.s] + [math.hypot(p[0] - o[0], p[1] - o[1]) for p in (compose(self.ms, (1, 0)), compose(self.ms, (0, 1)))])

    def marks(self):
        return {k: compose(self.ms, p) for k, p in self.b[4].items()}


def big(pts):
    return True


ERRORS = {"undefined": r"\thismacrodoesnotexist", "errmessage": r"\errmessage{bad}x", "message": r"\message{a message}x", "marker": r"\vrule width1pt height1pt\thismacrodoesnotexist"}


def check(case, ctx):
    from pyx import unit
    unit.set(xscale=case["xscale"])
    engine = None
    try:
        engine = run(case, ctx)
    finally:
        unit.set(xscale=1)


def run(case, ctx):
    from pyx import text, trafo, unit, canvas, config
    kw = dict(texipc=case["ipc"])
    if case["latex"]:
        engine = text.LatexEngine(**kw)
        engine.preamble(r"\usepackage{graphics}")
    else:
        engine = text.TexEngine(**kw)
    engine.preamble(r"\def\mymacro#1{#1}")
    macro = True
    boxes = []
    try:
        history_(case, ctx, engine, macro, boxes)
    finally:
        try:
            engine.instance._cleanup()
        except Exception:
            pass


def history_(case, ctx, engine, macro, boxes):
    from pyx import text, trafo, unit, canvas
    xs = case["xscale"]

    def paint(bs):
        c = canvas.canvas()
        for b, w in bs:
            c.insert(b)
        want = [i for b, w in bs for i in w.ink()]
        if not want or not any((len(set(p)) > 2) for p, c_, t_ in want):
            return
        want = [i for i in want]
        fmt = case["fmt"]
        got = {"eps": eps, "pdf": pdfl, "svg": svgl}[fmt](c)
        samerects(want, rects(got), fmt == "svg", fmt)
        ctx.nontrivial()
        ctx.label(fmt)

    for op in case["ops"]:
        ctx.label(op[0])
        if op[0] == "text":
            t = op[1]
            w = Want(t, xs)
            tex = r"\mymacro{%s}" % w.tex if t["macro"] and macro else w.tex
            b = engine.text(t["x"] * unit.t_pt, t["y"] * unit.t_pt, tex, [textattr(a) for a in t["attrs"]], singlecharmode=case["single"])
            for n, name in enumerate(("left", "right", "height", "depth")):
                close(unit.topt(getattr(b, name)), w.ext[n], 4e-3 * w.s + 5e-5 * max(w.ext), "%s of the box", name)
            close(unit.topt(b.width), w.ext[0] + w.ext[1], 4e-3 * w.s + 5e-5 * max(w.ext), "width of the box")
            for m in t["then"]:
                b.transform(trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (m[4], m[5])))
            cs = w.corners()
            mag = max([1] + [abs(v) for p in cs for v in p])
            for p, q in zip(b.corners, cs):
                close(p, q, w.tol() + 1e-4 * mag, "corner of the box")
            bb = b.bbox()
            close((bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt), (min(p[0] for p in cs), min(p[1] for p in cs), max(p[0] for p in cs), max(p[1] for p in cs)), w.tol() + 1e-4 * mag, "bounding box")
            boxes.append((b, w, t))
        elif op[0] in ("write", "use"):
            if op[0] == "use" and boxes:
                # the contents of a single text
                b, w, t = boxes[-1]
                marks(b, w)
                paint([(b, w)])
                want = w.ink()
                if want:
                    c = canvas.canvas()
                    c.fill(b.textpath())
                    got = eps(c)
                    ensure(len(got) == 1, "the text path is painted by %d operations", len(got))
                    # (polygons of the subpaths are of the order of the rectangles)
                    samerects([(p, ("gray", 0), t_) for p, c_, t_ in want], rects(got), False, "text path")
                    ctx.label("textpath")
                continue
            paint([(b, w) for b, w, t in boxes])
        elif op[0] == "reset":
            engine.reset(reinit=op[1])
            macro = macro and op[1]
            if case["latex"] and not op[1]:
                engine.preamble(r"\usepackage{graphics}")
        elif op[0] == "error":
            try:
                engine.text(0, 0, ERRORS[op[1]])
            except text.TexResultError:
                ctx.nontrivial()
            else:
                fail("no error for %s", ERRORS[op[1]])
    for b, w, t in boxes:
        for m in t["after"]:
            b.dvicanvas         # has been read
            b.transform(trafo.trafo_pt(((m[0], m[1]), (m[2], m[3])), (m[4], m[5])))
            w.ms.append(tuple(m))
        marks(b, w)
    paint([(b, w) for b, w, t in boxes])


def marks(b, w):
    from pyx import unit
    for k, p in w.marks().items():
        q = [unit.topt(v) for v in b.marker(k)]
        close(q, p, w.tol() + 1e-4 * max(abs(v) for v in p), "marker %s", k)


SUBS = [
    Sub("tex", lambda: history(False), check, quick=1200, thorough=20000, cpu=120),
    Sub("latex", lambda: history(True), check, quick=300, thorough=3000, cpu=120),
]
