"""C27 text of the UnicodeEngine"""
import io
import logging
import os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import t1, glyphs
from lib.gen import real
from lib.gfx import mul
from checks import c25, c24

PROP = "C27"
RULE = ("generated Type 1 fonts with AFM or PFM metrics found through a stand-in file locator; strings, scaled and shifted pieces, stacked texts with and without a fraction "
        "bar, in text and math mode, with horizontal alignment, math axis shift, transformations, colors and a changed unit for the text size, drawn to EPS, PDF and SVG, as text, as "
        "path and by the text path; outlines, anchor and boxes are compared to an own layout by the widths of the font; non-trivial: at least three glyphs or lines "
        "and a minus, a scaled piece, a stack or an attribute")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


NAMES = ["A", "B", "h", "e", "o", "zero", "one", "period", "comma", "space", "percent", "endash", "fi", "quoteright", "parenleft", "backslash"]
UNI = dict(c25.UNI, x="x", equal="=", periodcentered="\u00b7")


@st.composite
def fnt_(draw, i):
    f = dict(i=i, seac={}, big=0, enc=None, lenIV=draw(st.sampled_from([None, 4, 0])), tok=["RD", "ND", "NP"], nl="\n", uid=None, known=False, comment=False, matrix=None,
             box=draw(st.sampled_from(["pfb", "pfa"])), nosubrs=False, metric=draw(st.sampled_from(["afm", "afm", "pfm"])), kern=[], lig=[], afm=draw(st.integers(0, 63)))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=5, unique=True)) + ["x", "hyphen"] + draw(st.sampled_from([[], ["periodcentered"]]))
    f["glyphs"] = [draw(c25.glyph_(n)) for n in names]
    # the equals sign: two bars
    I = lambda a, b: draw(st.integers(a, b))
    bars = []
    l = I(-50, 150)
    w = I(50, 800)
    for y in (I(-100, 150), I(200, 500)):
        t = I(10, 45)
        a = l + draw(st.sampled_from([0, 0, 20]))
        c = [[a, y], ["L", a + w, y], ["L", a + w, y + t], ["L", a, y + t]]
        if draw(st.booleans()):
            c = [[a + w, y], ["L", a, y], ["L", a, y + t], ["L", a + w, y + t]]
        bars.append(dict(p=c, subr=I(0, 3)))
    f["glyphs"].insert(I(0, len(names)), dict(n="equal", w=I(100, 1000), wd=1, sb=0, frac=1, h=0, c=bars))
    return f


@st.composite
def string_(draw, names, minus=True, lo=0):
    pool = [UNI[n] for n in names if n != "hyphen" or minus] + (["-", "-", "-"] if minus else [])
    pool += ["\u00b7"] if minus else []
    return "".join(draw(st.lists(st.sampled_from(pool), min_size=lo, max_size=5)))


@st.composite
def text_(draw, fonts):
    fi = draw(st.integers(0, len(fonts) - 1))
    names = [g["n"] for g in fonts[fi]["glyphs"]]
    items = []
    scale = st.sampled_from([1, 0.8, 0.8, 2])
    shift = st.sampled_from([0, 0.5, -0.9, 0.3])
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))):
        k = draw(st.sampled_from(["s", "s", "t", "t", "k"]))
        if k == "s":
            items.append(["s", draw(string_(names))])
        elif k == "t":
            items.append(["t", draw(string_(names)), draw(scale), draw(shift)])
        else:
            frac = draw(st.booleans())
            n = 2 if frac else draw(st.integers(1, 3))
            items.append(["k", [[draw(string_(names, False, 1)), draw(scale), draw(shift)] for _ in range(n)], frac, draw(st.sampled_from([0, 0, 0.5, 1]))])
    t = dict(f=fi, x=draw(real(-100, 100, 2)), y=draw(real(-100, 100, 2)), items=items, bare=draw(st.booleans()), multi=draw(st.integers(0, 3)) == 0,
             halign=draw(st.sampled_from([None, None, "left", "center", "right", 0.3])), math=draw(st.booleans()), axis=draw(st.integers(0, 2)) == 0,
             trafos=draw(st.lists(st.sampled_from([[0, -1, 1, 0, 0, 0], [2, 0, 0, 0.5, 0, 0], [0.8, -0.6, 0.6, 0.8, 5, 7], [1, 0, 0, -1, 0, 0]]), max_size=draw(st.sampled_from([0, 1, 2])))),
             col=draw(st.sampled_from([None, None, [1, 0, 0], [0, 0.5, 0.25]])), order=draw(st.integers(0, 5)), later=draw(st.sampled_from([None, None, [3, -4], [-20, 11]])))
    return t


@st.composite
def doc_(draw):
    fonts = [draw(fnt_(i)) for i in range(draw(st.sampled_from([1, 1, 2])))]
    return dict(fonts=fonts, sizes=[draw(st.sampled_from([10, 7.5, 24])) for _ in fonts], texts=[draw(text_(fonts)) for _ in range(draw(st.integers(1, 3)))],
                xscale=draw(st.sampled_from([1, 1, 1.5, 0.5])), fmt=draw(st.sampled_from(["svg", "pdf", "eps"])), how=draw(st.sampled_from(["font", "font", "path", "textpath"])))


class Layout:
    "outlines of a text at the origin and its box"

    def __init__(self, m, size, t):
        self.m, self.size, self.out = m, size, []
        self.boxes = [(0, 0, 0, 0)]
        self.n = self.minus = 0
        e = [k for k in m.out["equal"]]
        pts = [p for k in e for p in k]
        x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
        y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
        self.thick = max(max(p[1] for p in k) - min(p[1] for p in k) for k in e) * size / 1000
        self.length, self.advance, self.axis = (x1 - x0) * size / 1000, (x0 + x1) * size / 1000, (y0 + y1) / 2 * size / 1000
        x = 0.0
        for it in t["items"]:
            if it[0] == "s":
                x = self.piece(x, it[1], 1, 0, t["math"])
            elif it[0] == "t":
                x = self.piece(x, it[1], it[2], it[3], t["math"])
            else:
                base = self.axis if it[2] else 0
                w = [self.width(s, sc) for s, sc, sh in it[1]]
                if it[2]:
                    self.rect(x, self.axis - self.thick / 2, max(w), self.thick)
                for (s, sc, sh), wi in zip(it[1], w):
                    self.string(x + it[3] * (max(w) - wi), base + sh * size, s, sc)
                x += max(w)
        self.boxes.append((x, 0, x, 0))
        self.box = (min(b[0] for b in self.boxes), min(b[1] for b in self.boxes), max(b[2] for b in self.boxes), max(b[3] for b in self.boxes))

    def names(self, s):
        inv = {v: k for k, v in UNI.items()}
        g = [inv[c] for c in s]
        if any(n not in self.m.out for n in g):
            g = ["x" if n == "periodcentered" else n for n in g]
        return g

    def width(self, s, sc):
        return sum(self.m.width[n] for n in self.names(s)) * self.size * sc / 1000

    def string(self, x, y, s, sc):
        sz = self.size * sc
        g = self.names(s)
        # a pfm file knows the extents of the font only
        ext = [(0, -210, 0, 750)] if self.m.f["metric"] == "pfm" else [self.m.extent(n) for n in g]
        self.boxes.append((x, y + min(e[1] for e in ext) * sz / 1000, x + self.width(s, sc), y + max(e[3] for e in ext) * sz / 1000))
        for n in g:
            self.out += t1.transform(self.m.out[n], mul(self.m.matrix, (sz, 0, 0, sz, x, y)))
            x += self.m.width[n] * sz / 1000
            self.n += 1

    def rect(self, x, y, w, h):
        self.out.append([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
        self.boxes.append((min(x, x + w), y, max(x, x + w), y + h))
        self.n += 1

    def piece(self, x, s, sc, sh, math):
        for i, part in enumerate(s.split("-") if math else [s]):
            if i:
                self.rect(x + (self.advance - self.length) / 2 * sc, sh * self.size + (self.axis - self.thick / 2) * sc, self.length * sc, self.thick * sc)
                x += self.advance * sc
                self.minus += 1
            if part:
                self.string(x, sh * self.size, part, sc)
                x += self.width(part, sc)
        return x


def content(t):
    from pyx import text
    out = []
    for it in t["items"]:
        if it[0] == "s":
            out.append(it[1])
        elif it[0] == "t":
            out.append(text.Text(it[1], scale=it[2], shift=it[3]))
        else:
            out.append(text.StackedText([text.Text(s, scale=a, shift=b) for s, a, b in it[1]], frac=it[2], align=it[3]))
    if len(out) == 1 and t["bare"]:
        out = out[0]
    return text.MultiEngineText(r"\TeX", out) if t["multi"] else out


def attributes(t):
    from pyx import text, trafo, color
    a = []
    if t["halign"] is not None:
        a.append(getattr(text.halign, t["halign"]) if isinstance(t["halign"], str) else text.halign(t["halign"], 0))
    if t["math"]:
        a.append(text.mathmode)
    if t["axis"]:
        a.append(text.vshift.mathaxis)
    if t["col"]:
        a.append(color.rgb(*t["col"]))
    k = t["order"] % (len(a) or 1)
    a = a[k:] + a[:k]
    for m in t["trafos"]:
        a.insert(t["order"] if t["order"] < 3 and len(t["trafos"]) == 1 else len(a), trafo.trafo_pt(matrix=((m[0], m[1]), (m[2], m[3])), vector=(m[4], m[5])))
    return a


FRACTION = dict(left=0, center=0.5, right=1)


def around(b, M):
    return [(M[0] * x + M[2] * y + M[4], M[1] * x + M[3] * y + M[5]) for x, y in ((b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3]))]


def dense(ks, eps=1e-4):
    out = []
    for k, col in ks:
        r = [k[0]]
        for s in k[1:]:
            q = r[-1][-2:]
            if max(abs(v - q[i % 2]) for i, v in enumerate(s)) > eps:
                r.append(s)
        if len(glyphs.norm(r, eps)) > 1:
            out.append((r, col))
    return out


def check_text(c, ctx):
    from pyx import unit
    unit.set(xscale=c["xscale"])
    try:
        run(c, ctx)
    finally:
        unit.set(xscale=1)


def run(c, ctx):
    from pyx import text, canvas
    models = [c25.Model(f) for f in c["fonts"]]
    files = {}
    for f, m in zip(c["fonts"], models):
        files[m.name + (".pfb" if f["box"] == "pfb" else ".pfa")] = m.data
        if f["metric"] == "afm":
            files[m.name + ".afm"] = m.afm().encode()
        else:
            files[m.name + ".pfm"] = m.pfm()
    with c24.Locate(files):
        T = text.FontMetricType
        engines = [text.UnicodeEngine(m.name, size, getattr(T, f["metric"])) for m, f, size in zip(models, c["fonts"], c["sizes"])]
    cc, want, drawn, total, nmin = canvas.canvas(), [], canvas.canvas(), 0, 0
    pageboxes = []
    S = c["xscale"]
    tol = 2e-3
    for t in c["texts"]:
        lay = Layout(models[t["f"]], c["sizes"][t["f"]], t)
        item = engines[t["f"]].text_pt(t["x"], t["y"], content(t), attributes(t))
        b = lay.box
        M = (S, 0, 0, S, t["x"] - (FRACTION.get(t["halign"], t["halign"]) or 0) * (b[2] - b[0]) * S, t["y"] - (lay.axis * S if t["axis"] else 0))
        anchor = (t["x"], t["y"])
        for m in t["trafos"]:
            A = (m[0], m[2], m[1], m[3], m[4], m[5])
            M = mul(mul(mul(M, (1, 0, 0, 1, -anchor[0], -anchor[1])), A), (1, 0, 0, 1) + anchor)
            anchor = (anchor[0] + A[4], anchor[1] + A[5])
        if t["later"]:
            # moved afterwards
            from pyx import trafo
            item.transform(trafo.translate_pt(*t["later"]))
            M = mul(M, (1, 0, 0, 1) + tuple(t["later"]))
            anchor = (anchor[0] + t["later"][0], anchor[1] + t["later"][1])
        e = 1e-3 * S * (1 + c["sizes"][t["f"]] / 10)
        ensure(abs(item.center[0] - anchor[0]) < e and abs(item.center[1] - anchor[1]) < e, "anchor of a text at %r, expected %r", item.center, anchor)
        corners = around(b, M)
        got = sorted((round(x, 6), round(y, 6)) for x, y in item.corners)
        for x, y in corners:
            ensure(min(abs(x - p[0]) + abs(y - p[1]) for p in got) < 4 * e, "corner of the box at %r, but %r", (x, y), got)
        box = (min(p[0] for p in corners), min(p[1] for p in corners), max(p[0] for p in corners), max(p[1] for p in corners))
        g = item.bbox()
        g = (g.llx_pt, g.lly_pt, g.urx_pt, g.ury_pt)
        ensure(max(abs(p - q) for p, q in zip(box, g)) < 4 * e, "bounding box is %r, by the metric %r", g, box)
        pageboxes.append(box)
        cc.insert(item)
        col = tuple(t["col"] or (0, 0, 0))
        shown = t1.transform(lay.out, M)
        if c["how"] == "textpath":
            p = item.textpath()
            if lay.out:
                drawn.fill(p)
            col = (0, 0, 0)
        want += [(k, col) for k in shown]
        total += lay.n
        nmin += lay.minus
        tol = max(tol, 2e-3 * (1 + max(map(abs, M[:4])) * c["sizes"][t["f"]] / 10))
        ctx.label("minus", lay.minus > 0)
        ctx.label("minus scaled", t["math"] and any(i[0] == "t" and "-" in i[1] and i[2] != 1 for i in t["items"]))
        ctx.label("stack", any(i[0] == "k" for i in t["items"]))
        ctx.label("fraction", any(i[0] == "k" and i[2] for i in t["items"]))
        ctx.label("empty", lay.n == 0)
        ctx.label("halign", t["halign"] not in (None, "left"))
        ctx.label("axis", t["axis"])
        ctx.label("trafo", len(t["trafos"]) > 0)
    b = cc.bbox()
    u = (min(p[0] for p in pageboxes), min(p[1] for p in pageboxes), max(p[2] for p in pageboxes), max(p[3] for p in pageboxes))
    ensure(max(abs(p - q) for p, q in zip(u, (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt))) < 4 * tol, "bounding box of the canvas is %r, of its texts %r", b, u)
    if not want:
        raise Skip
    src = drawn if c["how"] == "textpath" else cc
    f = io.BytesIO()
    try:
        if c["fmt"] == "eps":
            src.writeEPSfile(f, write_textaspath=c["how"] == "path")
            got = glyphs.epsglyphs(f.getvalue())
        elif c["fmt"] == "pdf":
            src.writePDFfile(f, write_textaspath=c["how"] == "path")
            got = glyphs.pdfglyphs(f.getvalue())
        else:
            src.writeSVGfile(f, write_textaspath=c["how"] == "path")
            got = glyphs.svgglyphs(f.getvalue())
    except (glyphs.Error, t1.Error) as e:
        fail("%s: %s", c["fmt"], e)
    if c["how"] == "textpath":
        # a transformed path does not contain segments without extent
        want, got = dense(want), dense(got)
    glyphs.same(want, got, tol + 2e-5 * total, "%s (%s)" % (c["fmt"], c["how"]), fail)
    ctx.label(c["fmt"] + "-" + c["how"])
    ctx.nontrivial(total >= 3 and (nmin > 0 or any(t["trafos"] or t["halign"] or t["axis"] or any(i[0] != "s" for i in t["items"]) for t in c["texts"])))


SUBS.append(Sub("text", doc_(), check_text, quick=2400, thorough=20000, shards=8))
