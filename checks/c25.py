"""C25 text set in Type 1 fonts shows the outlines of the font program"""
import glob
import io
import logging
import math
import os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import t1, glyphs
from lib.gen import real
from lib.gfx import mul

PROP = "C25"
RULE = ("random Type 1 font programs (lines, curves, flex, hint replacement, subroutines, fractions by div, accented characters by seac, any lenIV, token names and "
        "container format) and installed fonts, with and without generated AFM/PFM metrics; texts with decoding, kerning, ligatures, spacing and slant mixed with fills; "
        "EPS, PDF and SVG as fonts (stripped or complete) and as paths are read back by an own interpreter of the format and of Type 1 charstrings and compared to the "
        "generated outlines; non-trivial: at least two visible glyphs, one of them using a curve, subroutine, fraction or seac, or two texts")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ------------------------------------------------------------------ generated fonts

LETTERS = ["A", "B", "W", "H", "f", "i", "l", "y", "h", "e", "o", "space", "period", "colon", "comma", "zero", "one", "hyphen", "parenleft", "parenright",
           "backslash", "quoteright", "bracketleft", "percent", "less", "dotlessi", "acute", "dieresis", "cedilla", "ring", "fi", "fl", "ae", "endash"]
OTHER = ["Eacute", "odieresis", "ccedilla", "Aring", "uni0041.alt", "f_f", "glyph200", "Alpha", "ff", "ffi", "Euro"]
UNI = {"A": "A", "B": "B", "W": "W", "H": "H", "f": "f", "i": "i", "l": "l", "y": "y", "h": "h", "e": "e", "o": "o", "space": " ", "period": ".", "colon": ":", "comma": ",",
       "zero": "0", "one": "1", "hyphen": "-", "parenleft": "(", "parenright": ")", "backslash": "\\", "bracketleft": "[", "percent": "%", "less": "<",
       "quoteright": "\u2019", "dotlessi": "\u0131", "acute": "\u00b4", "dieresis": "\u00a8", "cedilla": "\u00b8", "ring": "\u02da", "fi": "\ufb01", "fl": "\ufb02", "ae": "\u00e6",
       "endash": "\u2013", "Eacute": "\u00c9", "odieresis": "\u00f6", "ccedilla": "\u00e7", "Aring": "\u00c5", "Alpha": "\u0391", "Euro": "\u20ac"}
SEAC = {"Eacute": ("H", "acute"), "odieresis": ("o", "dieresis"), "ccedilla": ("e", "cedilla"), "Aring": ("A", "ring")}


@st.composite
def glyph_(draw, name):
    I = lambda a, b: draw(st.integers(a, b))
    big = draw(st.sampled_from([0, 0, 0, 1]))
    g = dict(n=name, w=I(0, 1200), wd=draw(st.sampled_from([1, 1, 1, 2, 3])), sb=I(-120, 150), frac=draw(st.sampled_from([1, 1, 1, 1, 2, 3, 10])), h=I(0, 15), c=[])
    if draw(st.integers(0, 9)) == 0:
        g["sby"] = I(-50, 50)
    if name == "space":
        return g
    k = 1200 if big else 600
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        c = [[I(-k, k), I(-k, k)]]
        for _ in range(I(2, 4)):
            kind = draw(st.sampled_from("LLLHVCCCXYF"))
            x, y = c[-1][-2:] if c[-1][0] != "F" else c[-1][-2:]
            if kind == "L":
                c.append(["L", I(-k, k), I(-k, k)])
            elif kind == "H":
                c.append(["L", I(-k, k), y])
            elif kind == "V":
                c.append(["L", x, I(-k, k)])
            elif kind == "C":
                c.append(["C"] + [I(-k, k) for _ in range(6)])
            elif kind == "X":          # hvcurveto
                a, b, y2, y3 = I(-k, k), I(-k, k), I(-k, k), I(-k, k)
                c.append(["C", a, y, b, y2, b, y3])
            elif kind == "Y":          # vhcurveto
                a, b, y2, x3 = I(-k, k), I(-k, k), I(-k, k), I(-k, k)
                c.append(["C", x, a, b, y2, x3, y2])
            else:
                c.append(["F"] + [I(-k, k) for _ in range(12)])
        g["c"].append(dict(p=c, subr=I(0, 5)))
    return g


@st.composite
def font_(draw, i=0, textual=False):
    names = draw(st.lists(st.sampled_from(LETTERS), min_size=2, max_size=7, unique=True))
    for n in draw(st.lists(st.sampled_from(OTHER), max_size=4, unique=True)):
        names.append(n)
        if n in SEAC:
            names += [x for x in SEAC[n] if x not in names]
    names = list(dict.fromkeys(names))
    names = draw(st.permutations(names))
    f = dict(i=i, seac={}, glyphs=[])
    for n in names:
        if n in SEAC and draw(st.integers(0, 3)):
            f["seac"][n] = dict(w=draw(st.integers(0, 900)), sb=draw(st.integers(-100, 100)), dx=draw(st.integers(-300, 300)), dy=draw(st.integers(-100, 300)))
        else:
            f["glyphs"].append(draw(glyph_(n)))
    f["big"] = draw(st.sampled_from([0, 0, 0, 0, 0, 300])) if textual else 0
    # code assignments of the built-in encoding
    if draw(st.booleans()):
        f["enc"] = None
    else:
        codes = draw(st.lists(st.integers(0, 255), min_size=len(names), max_size=len(names), unique=True))
        f["enc"] = {str(c): n for c, n in zip(codes, names)}
        for n in names[:draw(st.integers(0, 2))]:
            f["enc"][str(draw(st.integers(0, 255)))] = n
    f["lenIV"] = draw(st.sampled_from([None, None, 4, 0, 1, 2]))
    f["tok"] = draw(st.sampled_from([["RD", "ND", "NP"], ["RD", "ND", "NP"], ["-|", "|-", "|"], ["RD", "noaccess def", "noaccess put"]]))
    f["nl"] = draw(st.sampled_from(["\n", "\n", "\r", "\r\n"]))
    f["uid"] = draw(st.sampled_from([None, 5000123]))
    f["known"] = draw(st.booleans()) and f["uid"] is not None
    f["comment"] = draw(st.booleans())
    mat = [None, None, None, [0.001, 0, 0.0002, 0.001, 0, 0], [0.0005, 0, 0, 0.0005, 0, 0]]
    f["matrix"] = draw(st.sampled_from(mat if textual else mat + [[0.001, 0, 0, 0.001, 0.01, -0.02]]))
    f["box"] = draw(st.sampled_from(["pfb", "pfb", "pfbs", "pfa", "pfaU", "pfa80"]))
    f["nosubrs"] = draw(st.integers(0, 9)) == 0
    f["metric"] = draw(st.sampled_from([None, "afm", "afm", "afm", "pfm"])) if textual and not f["matrix"] else None
    if f["metric"]:
        pair = st.tuples(st.sampled_from(names), st.sampled_from(names), st.integers(-200, 200)).map(list)
        f["kern"] = draw(st.lists(pair, max_size=6))
        f["lig"] = draw(st.lists(st.tuples(st.sampled_from(names), st.sampled_from(names), st.sampled_from(names)).map(list), max_size=3)) if draw(st.booleans()) else []
        f["afm"] = draw(st.integers(0, 63))
    return f


def bigname(k):
    return "big%03d" % k


class Model:
    "the outlines of a generated font and its program"

    def __init__(self, f):
        self.f = f
        self.name = "VerifFont%s" % "ABCDEFG"[f["i"]]
        self.matrix = tuple(f["matrix"] or (0.001, 0, 0, 0.001, 0, 0))
        self.out, self.width = {".notdef": []}, {".notdef": 250}
        self.subrs = [] if f["nosubrs"] else [list(s) for s in t1.FLEXSUBRS]
        self.prog = [(".notdef", [0, 250, "hsbw", "endchar"])]
        self.fancy = set()
        for g in f["glyphs"]:
            self.glyph(g)
        for n, s in f["seac"].items():
            b, a = SEAC[n]
            asb = self.sb[a]
            toks = [s["sb"], s["w"], "hsbw", asb, s["dx"], s["dy"], t1.STDCODE[b], t1.STDCODE[a], "seac"]
            self.prog.append((n, toks))
            self.out[n] = self.out[b] + t1.transform(self.out[a], (1, 0, 0, 1, s["sb"] + s["dx"] - asb, s["dy"]))
            self.width[n] = s["w"]
            self.fancy.add(n)
        for k in range(f["big"]):
            n = bigname(k)
            self.out[n] = [[(0, 0), (100 + k, 0), (100 + k, 700 - k), (0, 700 - k)]]
            self.width[n] = 200 + k
            self.prog.append((n, [0, 200 + k, "hsbw", 0, "hmoveto", 100 + k, "hlineto", 700 - k, "vlineto", -100 - k, "hlineto", "closepath", "endchar"]))
        self.encoding = dict(t1.STANDARD) if f["enc"] is None else {int(c): n for c, n in f["enc"].items()}
        nd = f["tok"]
        self.parts = t1.program(self.name, self.prog, None if f["nosubrs"] else self.subrs, self.matrix, None if f["enc"] is None else self.encoding, f["lenIV"],
                                nd[0], nd[1], nd[2], f["nl"], f["uid"], True, comment=f["comment"], known=f["known"])
        self.data = self.container(f["box"])

    sb = None

    def container(self, box):
        if box == "pfb":
            return t1.pfb(*self.parts)
        if box == "pfbs":
            return t1.pfb(*self.parts, chunk=97)
        return t1.pfa(*self.parts, width=80 if box == "pfa80" else 64, upper=box == "pfaU", nl=self.f["nl"])

    def glyph(self, g):
        if self.sb is None:
            self.sb = {}
        fr = g["frac"]
        plain = self.f["nosubrs"]

        def N(v):
            "tokens of v/frac"
            if v % fr == 0:
                return [v // fr]
            self.fancy.add(g["n"])
            return [v, fr, "div"]
        wd = g["wd"] if self.f["metric"] != "pfm" else 1
        W = [g["w"]] if wd == 1 else [g["w"], wd, "div"]
        if g.get("sby") is not None:
            toks = [g["sb"], g["sby"]] + W + [0, "sbw"]
            pos = [g["sb"] * fr, g["sby"] * fr]
        else:
            toks = [g["sb"]] + W + ["hsbw"]
            pos = [g["sb"] * fr, 0]
        if g["h"] & 1:
            toks += [0, 30, "hstem"]
        if g["h"] & 2:
            toks += [10, 50, "vstem"]
        if g["h"] & 4:
            toks += [0, 30, 200, 30, 400, 30, "vstem3" if g["h"] & 1 else "hstem3"]
        if g["h"] & 8:
            toks += ["dotsection"]
        out = []
        for ci, c in enumerate(g["c"]):
            p = c["p"]
            body = []
            x, y = p[0]
            dx, dy = x - pos[0], y - pos[1]
            if dy == 0 and c["subr"] & 1:
                body += N(dx) + ["hmoveto"]
            elif dx == 0 and c["subr"] & 1:
                body += N(dy) + ["vmoveto"]
            else:
                body += N(dx) + N(dy) + ["rmoveto"]
            pos = [x, y]
            k = [(x / fr, y / fr)]
            for s in p[1:]:
                a = s[1:]
                if s[0] == "L":
                    dx, dy = a[0] - pos[0], a[1] - pos[1]
                    body += N(dx) + ["hlineto"] if dy == 0 else N(dy) + ["vlineto"] if dx == 0 else N(dx) + N(dy) + ["rlineto"]
                    k.append((a[0] / fr, a[1] / fr))
                elif s[0] == "C" or plain:
                    for a in ([a] if s[0] == "C" else [a[:6], a[6:]]):
                        d = [a[0] - pos[0], a[1] - pos[1], a[2] - a[0], a[3] - a[1], a[4] - a[2], a[5] - a[3]]
                        if d[1] == 0 and d[4] == 0:
                            body += N(d[0]) + N(d[2]) + N(d[3]) + N(d[5]) + ["hvcurveto"]
                        elif d[0] == 0 and d[5] == 0:
                            body += N(d[1]) + N(d[2]) + N(d[3]) + N(d[4]) + ["vhcurveto"]
                        else:
                            body += sum((N(v) for v in d), []) + ["rrcurveto"]
                        k.append(tuple(v / fr for v in a))
                        pos = list(a[4:])
                        self.fancy.add(g["n"])
                else:
                    # flex: the reference point, then the six points relative to each other
                    ref = [a[4], pos[1]]
                    pts = [ref] + [a[i:i + 2] for i in range(0, 12, 2)]
                    body += [1, "callsubr"]
                    q = pos
                    for t in pts:
                        dx, dy = t[0] - q[0], t[1] - q[1]
                        body += N(dx) + N(dy) + ["rmoveto", 2, "callsubr"]
                        q = t
                    # the end point is given as absolute coordinates
                    body += [50] + N(a[10]) + N(a[11]) + [0, "callsubr"]
                    k.append(tuple(v / fr for v in a[:6]))
                    k.append(tuple(v / fr for v in a[6:]))
                    self.fancy.add(g["n"])
                pos = list(a[-2:])
            body.append("closepath")
            # pos stays at the end of the contour: closepath does not change the current point of a charstring
            if c["subr"] in (2, 3) and not plain:
                self.fancy.add(g["n"])
                if c["subr"] == 3:
                    # split after a segment, nested subroutines
                    ends = [i for i, t in enumerate(body) if t in ("rlineto", "hlineto", "vlineto", "rrcurveto", "hvcurveto", "vhcurveto")]
                    j = ends[0] + 1 if ends else 0
                    if j and 1 not in [b for b in body[:j] if b == "x"]:
                        self.subrs.append(body[j:] + ["return"])
                        body = body[:j] + [len(self.subrs) - 1, "callsubr"]
                self.subrs.append(body + ["return"])
                toks += [len(self.subrs) - 1, "callsubr"]
            elif c["subr"] == 4 and not plain:
                # hint replacement in front of the contour
                self.subrs.append([5, 20, "hstem", 7, 20, "vstem", "return"])
                toks += [len(self.subrs) - 1, 4, "callsubr"] if g["w"] % 2 else [len(self.subrs) - 1, 1, 3, "callothersubr", "pop", "callsubr"]
                toks += body
                self.fancy.add(g["n"])
            else:
                toks += body
            out.append(k)
        toks.append("endchar")
        if len(toks) > 6000:
            raise Skip
        self.prog.append((g["n"], toks))
        self.out[g["n"]] = out
        self.width[g["n"]] = g["w"] / wd
        self.sb[g["n"]] = g["sb"]

    # metrics

    def extent(self, n):
        pts = []
        for k in self.out[n]:
            prev = k[0]
            pts.append(prev)
            for s in k[1:]:
                if len(s) == 2:
                    pts.append(s)
                else:
                    for j in range(1, 41):
                        t = j / 40
                        u = 1 - t
                        pts.append(tuple(u ** 3 * prev[i] + 3 * u * u * t * s[i] + 3 * u * t * t * s[2 + i] + t ** 3 * s[4 + i] for i in (0, 1)))
                prev = s[-2:]
        if not pts:
            return (0, 0, 0, 0)
        return (math.floor(min(p[0] for p in pts)), math.floor(min(p[1] for p in pts)), math.ceil(max(p[0] for p in pts)), math.ceil(max(p[1] for p in pts)))

    def afm(self):
        f, o = self.f, self.f["afm"]
        code = {}
        for c, n in sorted(self.encoding.items(), reverse=True):
            code[n] = c
        L = ["StartFontMetrics 4.1", "Comment generated"]
        if o & 1:
            L.append("MetricsSets 0")
        L += ["FontName %s" % self.name, "FullName Verif Font", "Weight %s" % ("Bold" if o & 2 else "Medium"), "FontBBox -100 -300 1100 900", "Version 1.0", "Notice (c) nobody"]
        L.append("EncodingScheme %s" % ("AdobeStandardEncoding" if f["enc"] is None else "FontSpecific"))
        if o & 4:
            L += ["CapHeight 700", "XHeight 450", "Ascender 710", "Descender -210"]
        direction = ["UnderlinePosition -100", "UnderlineThickness 50", "ItalicAngle %s" % ("-12.5" if o & 8 else "0"), "IsFixedPitch false"]
        L += (["StartDirection 0"] + direction + ["EndDirection"]) if o & 16 else direction
        L += ["", "StartCharMetrics %d" % len(self.out)]
        lig = {}
        for a, b, r in f["lig"]:
            lig.setdefault(a, {}).setdefault(b, r)
        self.lig = lig
        for n in self.out:
            b = self.extent(n)
            c = code.get(n, -1)
            w = "%d" % self.width[n] if self.width[n] == int(self.width[n]) else "%.3f" % self.width[n]
            head = "CH <%X>" % c if o & 32 and c >= 0 else "C %d" % c
            L.append("%s ; %s ; N %s ; B %d %d %d %d ;%s" % ((head, "W %s 0" % w if o & 32 else "WX " + w, n) + b + ("".join(" L %s %s ;" % (x, r) for x, r in lig.get(n, {}).items()),)))
        L.append("EndCharMetrics")
        self.kern = {}
        if f["kern"]:
            L += ["StartKernData", "StartKernPairs %d" % len(f["kern"])]
            for a, b, v in f["kern"]:
                if (a, b) in self.kern:
                    continue
                self.kern[a, b] = v
                L.append("KP %s %s %d 0" % (a, b, v) if o & 32 else "KPX %s %s %d" % (a, b, v))
            L[[i for i, l in enumerate(L) if l.startswith("StartKernPairs")][0]] = "StartKernPairs %d" % len(self.kern)
            L += ["EndKernPairs", "EndKernData"]
        if f["seac"] and o & 16:
            L.append("StartComposites %d" % len(f["seac"]))
            for n, s in f["seac"].items():
                L.append("CC %s 2 ; PCC %s 0 0 ; PCC %s %d %d ;" % (n, SEAC[n][0], SEAC[n][1], s["sb"] + s["dx"] - self.sb[SEAC[n][1]], s["dy"]))
            L.append("EndComposites")
        L.append("EndFontMetrics")
        nl = f["nl"] if f["nl"] != "\r" else "\n"
        return nl.join(L) + nl

    def pfm(self):
        import struct
        f = self.f
        self.lig = {}
        code = {}
        for c, n in sorted(self.encoding.items(), reverse=True):
            if n in self.out:
                code[n] = c
        self.pcode = code
        all_ = [c for c, n in self.encoding.items() if n in self.out]
        first, last = min(all_), max(all_)
        widths = [0] * (last - first + 1)
        for c, n in self.encoding.items():
            if n in self.out and first <= c <= last:
                widths[c - first] = int(self.width[n])
        self.kern = {}
        pairs = []
        for a, b, v in f["kern"]:
            if a in code and b in code and (a, b) not in self.kern and v:
                self.kern[a, b] = v
                pairs += [(p, q, v) for p in all_ for q in all_ if self.encoding[p] == a and self.encoding[q] == b]
        pairs.sort()
        base = 147
        dev = b"PostScript\0"
        face = b"Verif Font\0"
        drv = self.name.encode() + b"\0"
        ext = base
        odev = ext + 52
        oface = odev + len(dev)
        odrv = oface + len(face)
        owid = odrv + len(drv)
        okern = owid + 2 * len(widths)
        kern = struct.pack("<H", len(pairs)) + b"".join(struct.pack("<BBh", *p) for p in pairs) if pairs else b""
        size = okern + len(kern)
        h = struct.pack("<HL60s7H3BHB2HB2H4BH4L", 0x100, size, b"(c) nobody", 0x81, 10, 300, 300, 750, 100, 50, 1 if f["afm"] & 8 else 0, 0, 0, 700 if f["afm"] & 2 else 400,
                        255, 0, 900, 0x10, 500, 1200, first, last, 0, 32 - first if first <= 32 else 0, 0, odev, oface, 0, 0)
        h += struct.pack("<H7L", 30, ext, owid, 0, okern if pairs else 0, 0, odrv, 0)
        h += struct.pack("<24h2H", 52, 240, 0, 1000, 3, 1000, 1000, 700, 450, 710, 210, 0, -500, 250, 500, 500, 100, 50, 50, 100, 50, 50, 300, 50, len(pairs), 0)
        return h + dev + face + drv + struct.pack("<%dH" % len(widths), *widths) + kern


def mkfont(m):
    "PyX font with the metric"
    from pyx import font
    from pyx.font import t1file, afmfile, pfmfile
    t = t1file.T1File.from_PF_bytes(m.data)
    k = m.f["metric"]
    m.kern, m.lig = {}, {}
    metric = None
    if k == "afm":
        metric = afmfile.AFMfile(io.StringIO(m.afm(), newline=None))
    elif k == "pfm":
        metric = pfmfile.PFMfile(io.BytesIO(m.pfm()), t)
    return font.T1font(t, metric), t


# ------------------------------------------------------------------ texts

@st.composite
def text_(draw, fonts):
    fi = draw(st.integers(0, len(fonts) - 1))
    f = fonts[fi]
    names = [g["n"] for g in f["glyphs"]] + list(f["seac"])
    modes = ["vector"] + (["codes"] if not f["metric"] else [])
    if any(n in UNI for n in names):
        modes += ["unicode", "unicode"]
    mode = draw(st.sampled_from(modes))
    if mode == "unicode":
        pool = [n for n in names if n in UNI]
    elif mode == "codes":
        enc = t1.STANDARD if f["enc"] is None else {int(c): n for c, n in f["enc"].items()}
        pool = sorted(c for c, n in enc.items() if n in names)
        if not pool:
            mode = "vector"
    if mode == "vector":
        pool = names
    t = dict(k="text", f=fi, mode=mode, x=draw(real(-100, 100, 2)), y=draw(real(-100, 100, 2)), size=draw(st.sampled_from([10, 10, 7.5, 24, 100])))
    if f["big"] and mode == "vector" and draw(st.booleans()):
        a = draw(st.integers(0, f["big"] - 1))
        t["s"] = [bigname((a + 7 * k) % f["big"]) for k in range(draw(st.sampled_from([3, 40, 43])))]
    else:
        t["s"] = draw(st.lists(st.sampled_from(pool), min_size=draw(st.sampled_from([1] * 9 + [0])), max_size=6))
    if draw(st.booleans()):
        t["spaced"] = draw(st.sampled_from([0, 0.5, -1, 3]))
    if draw(st.integers(0, 2)) == 0:
        t["slant"] = draw(st.sampled_from([0.167, -0.2, 1]))
    if mode != "codes" and f["metric"]:
        t["kerning"] = draw(st.booleans())
        t["ligatures"] = f["metric"] == "afm" and draw(st.booleans())
    return t


@st.composite
def items_(draw, fonts, depth=1):
    out = []
    for _ in range(draw(st.integers(1, 4 if depth else 2))):
        k = draw(st.sampled_from(["text", "text", "text", "text", "rect", "sub"] if depth else ["text", "text", "rect"]))
        if k == "text":
            out.append(draw(text_(fonts)))
        elif k == "rect":
            out.append(dict(k="rect", r=[draw(st.integers(-50, 50)) for _ in range(2)] + [draw(st.integers(1, 50)) for _ in range(2)], col=draw(st.sampled_from([None, [1, 0, 0], [0, 0, 1]]))))
        else:
            out.append(dict(k="sub", t=draw(st.sampled_from([None, [2, 0, 0, 2, 0, 0], [0.8, -0.6, 0.6, 0.8, 5, 7], [1, 0.5, 0, -1, 0, 3]])), col=draw(st.sampled_from([None, [1, 0, 0], [0, 0.5, 1]])),
                            items=draw(items_(fonts, depth - 1))))
    return out


@st.composite
def doc_(draw):
    fonts = [draw(font_(i, True)) for i in range(draw(st.sampled_from([1, 1, 2])))]
    return dict(fonts=fonts, items=draw(items_(fonts)), fmt=draw(st.sampled_from(["svg", "pdf", "eps"])), path=draw(st.sampled_from([False, False, False, True])),
                strip=draw(st.booleans()), compress=draw(st.booleans()))


def resolve(m, t):
    "glyph names shown by a text item"
    if t["mode"] == "codes":
        return [m.encoding[c] for c in t["s"]]
    g = list(t["s"])
    if t.get("ligatures"):
        i = 0
        while i + 1 < len(g):
            r = m.lig.get(g[i], {}).get(g[i + 1])
            if r is None:
                i += 1
            else:
                g[i:i + 2] = [r]
    return g


def layout(m, t):
    "[(glyph name, x offset in points)], total advance"
    g = resolve(m, t)
    x, out = 0.0, []
    for i, n in enumerate(g):
        if i:
            x += t.get("spaced", 0)
            if t.get("kerning"):
                x += m.kern.get((g[i - 1], n), 0) * t["size"] / 1000
        out.append((n, x))
        x += m.width[n] * m.matrix[0] * t["size"]
    return out, x


def expected(items, models, M, col, out):
    for t in items:
        if t["k"] == "rect":
            x, y, w, h = t["r"]
            c = t["col"] or col
            out.append((t1.transform([[(x, y), (x + w, y), (x + w, y + h), (x, y + h)]], M)[0], tuple(c)))
        elif t["k"] == "sub":
            m = t["t"]
            # pyx matrix ((a, b), (c, d)) vector (e, f)
            expected(t["items"], models, mul((m[0], m[2], m[1], m[3], m[4], m[5]), M) if m else M, t["col"] or col, out)
        else:
            m = models[t["f"]]
            for n, x in layout(m, t)[0]:
                fm = mul(m.matrix, (t["size"], 0, t.get("slant", 0) * t["size"], t["size"], t["x"] + x, t["y"]))
                for k in t1.transform(m.out[n], mul(fm, M)):
                    out.append((k, tuple(col)))
    return out


VECTOR = {}


def draw_(items, fonts, models, c, ctx):
    from pyx import path, color, trafo, canvas
    for t in items:
        if t["k"] == "rect":
            c.fill(path.rect_pt(*t["r"]), [color.rgb(*t["col"])] if t["col"] else [])
        elif t["k"] == "sub":
            a = []
            if t["t"]:
                m = t["t"]
                a.append(trafo.trafo_pt(matrix=((m[0], m[1]), (m[2], m[3])), vector=(m[4], m[5])))
            if t["col"]:
                a.append(color.rgb(*t["col"]))
            s = canvas.canvas(a)
            draw_(t["items"], fonts, models, s, ctx)
            c.insert(s)
        else:
            m, f = models[t["f"]], fonts[t["f"]]
            kw = {k: t[k] for k in ("spaced", "slant", "kerning", "ligatures") if k in t}
            if "spaced" in kw:
                kw["spaced_pt"] = kw.pop("spaced")
            if t["mode"] == "unicode":
                s = "".join(UNI[n] for n in t["s"])
            elif t["mode"] == "codes":
                s, kw["decoding"] = t["s"], None
            else:
                # an encoding vector, as read from an encoding file
                names = list(dict.fromkeys(t["s"]))
                vec = [".notdef"] * 256
                for i, n in enumerate(names):
                    vec[(17 * i + 40) % 256] = n
                s, kw["decoding"] = [(17 * names.index(n) + 40) % 256 for n in t["s"]], vec
            item = f.text_pt(t["x"], t["y"], s, t["size"], **kw)
            checkbox(m, t, item, ctx)
            c.insert(item)


def checkbox(m, t, item, ctx):
    if m.f["metric"] != "afm" or t["mode"] == "codes":
        return
    g, w = layout(m, t)
    if not g:
        return
    ext = [m.extent(n) for n, x in g]
    want = (t["x"], t["y"] + min(e[1] for e in ext) * t["size"] / 1000, t["x"] + w, t["y"] + max(e[3] for e in ext) * t["size"] / 1000)
    b = item.bbox()
    if w < 0:
        return
    got = b.lrtuple_pt() if hasattr(b, "lrtuple_pt") else (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
    ensure(max(abs(p - q) for p, q in zip(want, got)) < 1e-6 + 1e-6 * t["size"] * len(g), "bounding box of a text is %r, by the metric %r", got, want)
    ctx.label("box")


def flat(items):
    for t in items:
        if t["k"] == "sub":
            yield from flat(t["items"])
        else:
            yield t


def check_text(c, ctx):
    from pyx import canvas
    models = [Model(f) for f in c["fonts"]]
    for f, m in zip(c["fonts"], models):
        if f["metric"] == "pfm" and f["enc"] is None and not any(n in m.out for n in m.encoding.values()):
            raise Skip
    fonts = [mkfont(m)[0] for m in models]
    texts = [t for t in flat(c["items"]) if t["k"] == "text"]
    for t in texts:
        m = models[t["f"]]
        if c["fonts"][t["f"]]["metric"] == "pfm" and t["mode"] != "codes" and any(n not in m.pcode for n in t["s"]):
            raise Skip            # not covered by the metric
    if c["fmt"] == "svg" and any(t.get("slant") for t in texts) and False:
        raise Skip
    cc = canvas.canvas()
    draw_(c["items"], fonts, models, cc, ctx)
    want = expected(c["items"], models, (1, 0, 0, 1, 0, 0), (0, 0, 0), [])
    if not want:
        raise Skip
    b = io.BytesIO()
    try:
        if c["fmt"] == "eps":
            cc.writeEPSfile(b, write_textaspath=c["path"], write_stripfonts=c["strip"])
            got = glyphs.epsglyphs(b.getvalue())
        elif c["fmt"] == "pdf":
            cc.writePDFfile(b, write_textaspath=c["path"], write_stripfonts=c["strip"], write_compress=c["compress"])
            got = glyphs.pdfglyphs(b.getvalue())
        else:
            cc.writeSVGfile(b, write_textaspath=c["path"])
            got = glyphs.svgglyphs(b.getvalue())
    except (glyphs.Error, t1.Error) as e:
        fail("%s%s: %s", c["fmt"], " as path" if c["path"] else "", e)
    n = sum(len(t["s"]) for t in texts)
    glyphs.same(want, got, 2e-3 + 2e-5 * n, c["fmt"] + (" as path" if c["path"] else ""), fail)
    for k in ("slant", "kerning", "ligatures", "spaced"):
        ctx.label(k, any(t.get(k) for t in texts))
    ctx.label(c["fmt"] + ("-path" if c["path"] else "-font"))
    ctx.label("seac", any(n in c["fonts"][t["f"]]["seac"] for t in texts for n in resolve(models[t["f"]], t)))
    shown = [n for t in texts for n in resolve(models[t["f"]], t) if models[t["f"]].out[n]]
    ctx.nontrivial(len(shown) >= 2 and (len(texts) >= 2 or any(n in models[t["f"]].fancy for t in texts for n in resolve(models[t["f"]], t))))


SUBS.append(Sub("text", doc_(), check_text, quick=2400, thorough=20000, shards=8))


# ------------------------------------------------------------------ the font file itself

def wr(fn, *a, **kw):
    from pyx import writer
    b = io.BytesIO()
    fn(writer.writer(b), *a, **kw)
    return b.getvalue()


def samefont(F, m, names, what):
    for n in names:
        try:
            cs, w = F.glyph(n)
        except t1.Error as e:
            fail("%s: %s", what, e)
        ensure(abs(w[0] - m.width[n]) < 1e-9 and w[1] == 0, "%s: width of %s is %r, expected %r", what, n, w, m.width[n])
        black = lambda k: [(x, (0, 0, 0)) for x in k]
        glyphs.same(black(m.out[n]), black(cs), 1e-6, "%s: glyph %s" % (what, n), fail)


@st.composite
def file_(draw):
    f = draw(font_())
    names = [g["n"] for g in f["glyphs"]] + list(f["seac"])
    return dict(f=f, sel=draw(st.lists(st.sampled_from(names), min_size=0, max_size=4, unique=True)), codes=draw(st.booleans()),
                out=draw(st.sampled_from(["pfa", "pfb", "ps", "pdf"])), strip=draw(st.booleans()), swap=draw(st.sampled_from([None, None, None] + names)),
                again=draw(st.booleans()))


class W:
    compress = False
    compresslevel = 6
    stripfonts = True


def pdfstream(data):
    import re
    h, b = data.split(b"stream\n", 1)
    n = [int(re.search(rb"/Length%s (\d+)" % (s), h).group(1)) for s in (b"", b"1", b"2", b"3")]
    body = b[:n[0]]
    ensure(b[n[0]:].startswith(b"\nendstream"), "stream length %d is wrong", n[0])
    ensure(sum(n[1:]) == n[0], "Length1 to Length3 are %r, Length is %d", n[1:], n[0])
    ensure(body[:n[1]].rstrip(b" \t\r\n").endswith(b"eexec"), "Length1 does not end the clear text part")
    return body[:n[1] + n[2]]


def check_file(c, ctx):
    from pyx.font import t1file
    m = Model(c["f"])
    names = [n for n, _ in m.prog]
    try:
        mine = t1.Font(m.data)
    except t1.Error as e:
        raise AssertionError("generator: %s" % e)
    samefont(mine, m, names, "generated font")
    t = t1file.T1File.from_PF_bytes(m.data)
    ensure(t.name == m.name, "font name %r", t.name)
    # paths
    black = lambda k: [(x, (0, 0, 0)) for x in k]
    for n in names:
        p = t.getglyphpath_pt(3, 4, n, 10)
        got = pathcontours(p.path)
        glyphs.same(black(t1.transform(m.out[n], mul(m.matrix, (10, 0, 0, 10, 3, 4)))), black(got), 1e-6, "path of glyph %s" % n, fail)
        w = (m.width[n] * m.matrix[0] * 10 + m.matrix[4] * 0, m.width[n] * m.matrix[1] * 10)
        if m.matrix[4] == 0:
            ensure(abs(p.wx_pt - w[0]) < 1e-9 and abs(p.wy_pt - w[1]) < 1e-9, "advance of %s is %r, expected %r", n, (p.wx_pt, p.wy_pt), w)
    for code, n in m.encoding.items():
        if n in m.out:
            got = pathcontours(t.getglyphpath_pt(0, 0, code, 10, convertcharcode=True).path)
            glyphs.same(black(t1.transform(m.out[n], mul(m.matrix, (10, 0, 0, 10, 0, 0)))), black(got), 1e-6, "path of character %d" % code, fail)
    # commands read from and written to the font
    if c["swap"]:
        n = c["swap"]
        t.setglyphcmds(n, t.getglyphcmds(n))
        for i in range(0, len(m.subrs) if not c["f"]["nosubrs"] else 0):
            t.setsubrcmds(i, t.getsubrcmds(i))
        ctx.label("rewritten")
    sel = set(c["sel"])
    if c["strip"]:
        codes = [k for k, n in m.encoding.items() if n in sel] if c["codes"] else []
        keep = set(sel) if not c["codes"] else {n for n in sel if n not in m.encoding.values()}
        t = t.getstrippedfont(keep, codes)
        need = sorted(sel | {".notdef"})
        if c["again"]:
            t = t.getstrippedfont(set(sel), [])
    else:
        need = names
    if c["out"] == "pfa":
        data = wr(t.outputPFA)
    elif c["out"] == "pfb":
        data = wr(t.outputPFB)
    elif c["out"] == "ps":
        data = wr(t.outputPS, W)
    else:
        data = pdfstream(wr(t.outputPDF, W))
    try:
        F = t1.Font(data)
    except t1.Error as e:
        fail("%s output: %s", c["out"], e)
    ensure(F.name == m.name, "name %s", F.name)
    ensure(max(abs(a - b) for a, b in zip(F.matrix, m.matrix)) < 1e-12, "FontMatrix %r", F.matrix)
    samefont(F, m, need, "%s%s output" % ("stripped " if c["strip"] else "", c["out"]))
    for code, n in m.encoding.items():
        if n in need:
            ensure(F.encoding.get(code) == n, "code %d is %r in the output, expected %r", code, F.encoding.get(code), n)
    if c["strip"]:
        extra = set(F.chars) - sel - {".notdef"}
        parts = set()
        for n in sel:
            if n in c["f"]["seac"]:
                parts |= set(SEAC[n])
        ensure(extra <= parts, "the stripped font contains %r", sorted(extra - parts))
        ensure(c["f"]["uid"] is None or b"/UniqueID" not in F.clear + F.private or c["f"]["known"], "a stripped font keeps its UniqueID")
        ctx.label("stripped")
    if c["out"] in ("pfa", "pfb"):
        u = t1file.T1File.from_PF_bytes(data)
        for n in need[:3]:
            got = pathcontours(u.getglyphpath_pt(0, 0, n, 1000).path)
            glyphs.same(black(t1.transform(m.out[n], mul(m.matrix, (1000, 0, 0, 1000, 0, 0)))), black(got), 1e-6, "glyph %s written and read" % n, fail)
    ctx.label(c["out"])
    ctx.nontrivial(len([n for n in need if m.out[n]]) >= 2 and bool(m.fancy & set(need)))


def pathcontours(p):
    out = []
    for s in p.normpath(epsilon=None).normsubpaths if False else [p]:
        for i in p.pathitems:
            n = type(i).__name__
            if n == "moveto_pt":
                out.append([(i.x_pt, i.y_pt)])
            elif n == "lineto_pt":
                out[-1].append((i.x_pt, i.y_pt))
            elif n == "curveto_pt":
                out[-1].append((i.x1_pt, i.y1_pt, i.x2_pt, i.y2_pt, i.x3_pt, i.y3_pt))
            elif n != "closepath":
                fail("path item %s in a glyph", n)
    return [k for k in out if len(k) > 1]


SUBS.append(Sub("file", file_(), check_file, quick=3000, thorough=20000, shards=8))


# ------------------------------------------------------------------ installed fonts

FONTS = sorted(glob.glob("/usr/share/texlive/texmf-dist/fonts/type1/**/*.pfb", recursive=True) + glob.glob("/usr/share/texmf/fonts/type1/**/*.pfb", recursive=True))


@st.composite
def real_(draw):
    return dict(font=draw(st.integers(0, 100000)), g=draw(st.lists(st.integers(0, 100000), min_size=1, max_size=6)), size=draw(st.sampled_from([1000, 1000, 10])),
                strip=draw(st.booleans()), out=draw(st.sampled_from(["pfa", "pfb", "ps", "pdf"])), flex=draw(st.booleans()))


def check_real(c, ctx):
    "glyphs of an installed font: PyX against the own interpreter, also for the (stripped) output"
    from pyx.font import t1file
    if not FONTS:
        raise Skip
    name = FONTS[c["font"] % len(FONTS)]
    with open(name, "rb") as f:
        data = f.read()
    try:
        F = t1.Font(data)
        names = [F.order[i % len(F.order)] for i in c["g"]]
        # accented characters are rare, so look for some
        sel = [n for n in F.order if seacparts(F, n)]
        if sel and c["flex"]:
            names.append(sel[c["g"][0] % len(sel)])
        want = {n: F.glyph(n) for n in names}
    except (t1.Error, RecursionError):
        raise Skip                # not a font the reader of the harness can read
    what = os.path.basename(name)
    t = t1file.T1File.from_PF_filename(name)
    black = lambda k: [(x, (0, 0, 0)) for x in k]
    for n in names:
        cs, w = want[n]
        p = t.getglyphpath_pt(0, 0, n, c["size"])
        M = mul(F.matrix, (c["size"], 0, 0, c["size"], 0, 0))
        glyphs.same(black(t1.transform(cs, M)), black(pathcontours(p.path)), 1e-9 * c["size"] + 1e-6, "%s: path of glyph %s" % (what, n), fail)
        ensure(abs(p.wx_pt - w[0] * F.matrix[0] * c["size"]) < 1e-9 * c["size"], "%s: advance of %s is %r", what, n, p.wx_pt)
        ctx.label("seac", bool(seacparts(F, n)))
    need = set(names)
    if c["strip"]:
        t = t.getstrippedfont(set(names), [])
    data = wr(t.outputPFA) if c["out"] == "pfa" else wr(t.outputPFB) if c["out"] == "pfb" else wr(t.outputPS, W) if c["out"] == "ps" else pdfstream(wr(t.outputPDF, W))
    try:
        G = t1.Font(data)
        for n in need:
            cs, w = G.glyph(n)
            ensure(w == want[n][1], "%s: width of %s is %r in the output, expected %r", what, n, w, want[n][1])
            glyphs.same(black(want[n][0]), black(cs), 1e-6, "%s: %s%s output: glyph %s" % (what, "stripped " if c["strip"] else "", c["out"], n), fail)
    except t1.Error as e:
        fail("%s: %s output: %s", what, c["out"], e)
    ensure(G.matrix == F.matrix and G.name == F.name, "%s: name or matrix in the output", what)
    ctx.label(c["out"])
    ctx.label("stripped", c["strip"])
    ctx.nontrivial(sum(bool(want[n][0]) for n in names) >= 2)


def seacparts(F, n):
    return F.code(F.chars[n])[-3:-1] == b"\x0c\x06" or F.code(F.chars[n])[-2:] == b"\x0c\x06"


SUBS.append(Sub("real", real_(), check_real, quick=160, thorough=3000, shards=8))
