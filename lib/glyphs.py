"""The outlines a document paints: fills and glyphs of embedded Type 1 fonts as one list of (contour, color) in page points,
for EPS, PDF and SVG output. Contours as in lib.t1."""
import io
import re
from . import ps, pdf, svg, t1
from . import refpath as R
from .gfx import mul, app, Error


def contours(subs):
    out = []
    for s in subs:
        k = [tuple(s.first)]
        for g in s.segs:
            if isinstance(g, R.Line):
                k.append(tuple(g.q))
            elif isinstance(g, R.Cubic):
                k.append(tuple(g.p[1]) + tuple(g.p[2]) + tuple(g.p[3]))
            else:
                raise Error("segment %r in a fill" % (g,))
        if len(k) > 1:
            out.append(k)
    return out


def norm(k, eps=1e-6):
    "without the line back to the first point"
    k = list(k)
    while len(k) > 1 and len(k[-1]) == 2 and max(abs(a - b) for a, b in zip(k[-1], k[0])) < eps:
        k.pop()
    return k


def rgb(c):
    if c is None:
        return None
    if c[0] in ("gray", "g"):
        return (c[1],) * 3
    if c[0] == "cmyk":
        return tuple(1 - min(1, v + c[4]) for v in c[1:4])
    if c[0] == "rgb":
        return tuple(c[1:4])
    raise Error("color %r" % (c,))


def epsglyphs(data):
    i = ps.new(data)
    i.glyphs = True
    i.run()
    out = []
    for x in [x for p in i.pages for x in p] + i.out:
        if x["kind"] == "fill":
            out += [(k, rgb(x["color"])) for k in contours(x["subs"])]
        elif x["kind"] == "glyph":
            out += [(k, rgb(x["color"])) for k in x["contours"]]
        elif x["kind"] != "text":
            raise Error("unexpected %s" % x["kind"])
    return out


class PDFFonts:
    def __init__(self, doc):
        self.doc, self.fonts = doc, {}

    def get(self, font):
        k = id(font)
        if k not in self.fonts:
            d = self.doc
            if font.get("Type") != "Font" or font.get("Subtype") != "Type1":
                raise Error("font dictionary %r" % font)
            fd = d.get(font.get("FontDescriptor"))
            if fd is None:
                raise Error("font %s without descriptor" % font.get("BaseFont"))
            for e, n in (("Ascent", float), ("Descent", float), ("CapHeight", float), ("StemV", float), ("ItalicAngle", float), ("Flags", int)):
                n(d.get(fd[e]))
            box = d.get(fd["FontBBox"])
            if len(box) != 4:
                raise Error("FontBBox %r" % (box,))
            ff = d.get(fd["FontFile"]) if "FontFile" in fd else None
            f = None
            if ff is not None:
                data = ff.data()
                n = [d.get(ff.dic["Length%d" % i]) for i in (1, 2, 3)]
                if sum(n) != len(data):
                    raise Error("Length1+Length2+Length3 is %d, the font file has %d bytes" % (sum(n), len(data)))
                clear = data[:n[0]]
                if not clear.rstrip(b" \t\r\n").endswith(b"eexec"):
                    raise Error("Length1 does not cover the clear text part")
                if n[2] and b"cleartomark" not in data[n[0] + n[1]:]:
                    raise Error("Length3 does not cover the trailer")
                try:
                    f = t1.Font(data[:n[0] + n[1]])
                except t1.Error as e:
                    raise Error("font file of %s: %s" % (font.get("BaseFont"), e))
                if not (f.name == str(font.get("BaseFont")) == str(fd.get("FontName"))):
                    raise Error("font names %s, %s and %s" % (f.name, font.get("BaseFont"), fd.get("FontName")))
            enc = dict(f.encoding) if f is not None else dict(t1.STANDARD)
            e = d.get(font.get("Encoding"))
            if e is not None:
                if not isinstance(e, dict):
                    raise Error("Encoding %r" % (e,))
                c = 0
                for v in d.get(e["Differences"]):
                    if isinstance(v, int):
                        c = v
                    else:
                        enc[c] = str(v)
                        c += 1
                if c > 256:
                    raise Error("encoding with %d entries" % c)
            self.fonts[k] = (font, f, enc, fd)
        return self.fonts[k][1:]


def pdfglyphs(data, widthtol=0.51):
    d = pdf.PDF(data)
    fonts = PDFFonts(d)
    out = []
    for x in d.interpret(d.pages[0]).out:
        if x["kind"] == "fill":
            out += [(k, rgb(x["color"])) for k in contours(x["subs"])]
        elif x["kind"] == "glyph":
            f, enc, fd = fonts.get(x["font"])
            if f is None:
                raise Error("font is not embedded")
            n = enc.get(x["code"], ".notdef")
            try:
                cs, w = f.glyph(n)
            except t1.Error as e:
                raise Error("font %s: %s" % (f.name, e))
            W = d.get(x["font"]["Widths"])[x["code"] - x["font"]["FirstChar"]]
            if abs(W - w[0] * f.matrix[0] * 1000) > widthtol:
                raise Error("width %r of %s in the PDF, %r in the font program" % (W, n, w[0] * f.matrix[0] * 1000))
            # in PDF, glyph space is that of the FontMatrix
            out += [(k, rgb(x["color"])) for k in t1.transform(cs, mul(f.matrix, x["matrix"]))]
        else:
            raise Error("unexpected %s" % x["kind"])
    return out


def svgglyphs(data):
    d = svg.Doc(data)
    N = svg.SVGNS
    fonts = {}
    for e in d.root.iter(N + "font"):
        fam = e.find(N + "font-face").get("font-family")
        if fam in fonts:
            raise Error("font %s defined twice" % fam)
        upm = float(e.find(N + "font-face").get("units-per-em", 1000))
        g = {}
        for c in e.iter(N + "glyph"):
            u = c.get("unicode")
            if u in g:
                raise Error("two glyphs for %r" % u)
            g[u] = (contours(svg.pathdata(c.get("d"), (1, 0, 0, 1, 0, 0))) if c.get("d") else [], float(c.get("horiz-adv-x")))
        fonts[fam] = (g, upm)
    out = []
    for x in d.out:
        if x["kind"] == "fill":
            out += [(k, rgb(x["color"])) for k in contours(x["subs"])]
        elif x["kind"] == "text":
            e = x["element"]
            col = rgb(svg.color(x["style"]["fill"], d))
            size = float(e.get("font-size"))
            fam = e.get("font-family")
            if fam not in fonts:
                raise Error("font %s is not defined" % fam)
            g, upm = fonts[fam]
            cx, cy = float(e.get("x")), float(e.get("y"))
            items = []

            def walk(el):
                if el.text:
                    items.extend(el.text)
                for ch in el:
                    if ch.tag != N + "tspan":
                        raise Error("element %s in a text" % ch.tag)
                    if "dx" in ch.attrib:
                        items.append(float(ch.get("dx")))
                    walk(ch)
                    if ch.tail:
                        items.extend(ch.tail)
            walk(e)
            if e.get("{http://www.w3.org/XML/1998/namespace}space") != "preserve":
                # white space handling of SVG: newlines removed, tabs to spaces, runs collapsed, leading and trailing removed
                items = [" " if c == "\t" else c for c in items if c != "\n"]
                keep, prev = [], " "
                for c in items:
                    if isinstance(c, str):
                        if c == " " and prev == " ":
                            continue
                        prev = c
                    keep.append(c)
                last = [i for i, c in enumerate(keep) if isinstance(c, str)]
                if last and keep[last[-1]] == " ":
                    del keep[last[-1]]
                items = keep
            for c in items:
                if isinstance(c, float):
                    cx += c
                    continue
                if c not in g:
                    raise Error("no glyph for %r in font %s" % (c, fam))
                cs, adv = g[c]
                k = size / upm
                out += [(k_, col) for k_ in t1.transform(cs, mul((k, 0, 0, -k, cx, cy), x["ctm"]))]
                cx += adv * k
        else:
            raise Error("unexpected %s" % x["kind"])
    return out


def same(want, got, tol, what, fail, coltol=0.005):
    "compare two lists of (contour, color); tol in points"
    want = [(norm(k, 1e-7), c) for k, c in want]
    got = [(norm(k, 2 * tol), c) for k, c in got]
    want = [(norm(k, 2 * tol), c) for k, c in want]
    for i, ((a, ca), (b, cb)) in enumerate(zip(want, got)):
        if len(a) != len(b) or any(len(s) != len(t) for s, t in zip(a, b)):
            fail("%s: contour %d is %r, expected %r", what, i, b[:6], a[:6])
        d = max(abs(x - y) for s, t in zip(a, b) for x, y in zip(s, t))
        if not d <= tol:
            fail("%s: contour %d is off by %g: %r, expected %r", what, i, d, b[:4], a[:4])
        if max(abs(x - y) for x, y in zip(ca, cb)) > coltol:
            fail("%s: contour %d is painted in %r, expected %r", what, i, cb, ca)
    if len(want) != len(got):
        fail("%s: %d contours, expected %d", what, len(got), len(want))
