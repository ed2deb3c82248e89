"""C24 pages of a DVI file show what the DVI standard says, with fonts, virtual fonts and metrics"""
import contextlib
import io
import logging
import os
import shutil
import subprocess
import tempfile
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import dvipsnames, t1, glyphs, dvi
from lib.gen import real
from lib.gfx import mul
from checks import c25

PROP = "C24"
RULE = ("random DVI files (all commands and their operand sizes, units and magnification, font numbers, several pages) over random TFM metrics, Type 1 fonts with map and "
        "encoding files, nested virtual fonts and PyX specials, and files written by tex with installed fonts; each page in EPS, PDF or SVG against an own DVI/VF/TFM interpreter; "
        "non-trivial: at least three visible items and a stack, register, virtual font or special in use")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ------------------------------------------------------------------ commands

COLS = ["rgb 1 0 0", "rgb 0.25 0.5 0.75", "gray 0.5", "RGB 255 0 51", "hsb 0.5 1 1", "cmyk 1 0 0 0", "cmyk 0.2 0.3 0.4 0.5", "texnamed Red", "texnamed Cyan", "pyxcolor pyx.color.rgb.red",
        "pyxcolor rgb(0, 0.5,1)", "pyxcolor color.cmyk.Cyan", "pyxcolor gray(.5)", "pyxcolor pyx.color.rgb(1.0,0,5e-1)"]


def num01(draw):
    return "%g" % draw(st.one_of(st.sampled_from([0, 1]), st.integers(0, 1000).map(lambda x: x / 1000)))


@st.composite
def color_(draw, tex=False):
    "the arguments of a color special"
    k = draw(st.sampled_from(["list", "rgb", "RGB", "gray", "hsb", "cmyk", "texnamed"] + ([] if tex else ["pyxcolor", "pyxname"])))
    if k == "list":
        return draw(st.sampled_from(COLS[:8] if tex else COLS))
    n = {"rgb": 3, "RGB": 3, "gray": 1, "hsb": 3, "cmyk": 4}
    if k == "RGB":
        return " ".join([k] + [str(draw(st.one_of(st.sampled_from([0, 255]), st.integers(0, 255)))) for _ in range(3)])
    if k in n:
        return " ".join([k] + [num01(draw) for _ in range(n[k])])
    if k == "pyxcolor":
        m = draw(st.sampled_from(["rgb", "gray", "hsb", "cmyk"]))
        return "pyxcolor " + draw(st.sampled_from(["", "color.", "pyx.color."])) + m + "(" + draw(st.sampled_from([",", ", "])).join(num01(draw) for _ in range(n[m])) + ")"
    name = draw(st.sampled_from(sorted(dvipsnames.NAMES)))
    return ("pyxcolor " + draw(st.sampled_from(["", "color.", "pyx.color."])) + "cmyk." if k == "pyxname" else "texnamed ") + name


@st.composite
def ops_(draw, nf, depth, inner, n=8, eps=0):
    "nf: font names usable; inner: in a packet of a virtual font"
    out = []
    kinds = ["c"] * 6 + ["f"] * 2 + ["r"] * 2 + ["m"] * 4 + ["m0"] * 2 + ["n"] + (["[", "["] + ["{"] if depth else [])
    if not inner:
        kinds += ["s"] + ["e"] * eps
    for _ in range(draw(st.integers(1, n))):
        k = draw(st.sampled_from(kinds))
        if k == "c":
            out.append(["c", draw(st.integers(0, 999)), draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4])), draw(st.integers(0, 3)) > 0])
            if draw(st.booleans()):
                out.append(["c", draw(st.integers(0, 999)), 0, True])
        elif k == "f":
            out.append(["f", draw(st.integers(0, nf - 1)) if nf else 0, draw(st.integers(0, 4))])
        elif k == "r":
            out.append(["r", draw(real(-2, 12, 2)), draw(real(-2, 12, 2)), draw(st.booleans())])
        elif k == "m":
            out.append(["m", draw(st.sampled_from("rwxdyz")), draw(st.integers(1, 4)), draw(real(-15, 15, 3))])
        elif k == "m0":
            out.append(["m0", draw(st.sampled_from("wxyz"))])
        elif k == "n":
            out.append(["n"])
        elif k == "[":
            out.append(["[", draw(ops_(nf, depth - 1, inner, 5, eps))])
        elif k == "{":
            what = draw(st.sampled_from(["color", "rotate", "scale"]))
            arg = {"color": color_(), "rotate": st.sampled_from(["90", "30", "-45.5"]), "scale": st.sampled_from(["2 1", "0.5 0.5", "-1 1", "1.5 -2"])}[what]
            out.append(["{", what, draw(arg), draw(ops_(nf, depth - 1, inner, 5, eps))])
        elif k == "e":
            out.append(["e", draw(st.sampled_from([None, 20, 7.5])), draw(st.sampled_from([None, 15])), draw(st.sampled_from([None, 0, 1]))])
        else:
            out.append(["s", draw(st.sampled_from(["marker", "marker", "other", "long"])), draw(st.integers(1, 4))])
    return out


@st.composite
def base_(draw, i):
    f = draw(c25.font_(i))
    f["matrix"] = None
    f["metric"] = None
    names = [g["n"] for g in f["glyphs"]] + list(f["seac"])
    b = dict(t1=f, names=names, d=draw(st.sampled_from([10, 5, 12])), lh=draw(st.sampled_from([2, 2, 12, 17, 18, 20])), extra=draw(st.sampled_from([[0, 0, 0], [3, 2, 7], [0, 0, 22]])),
             cs=draw(st.sampled_from([0, 12345, -12345, 2 ** 31 - 1])),
             hd=draw(st.lists(st.integers(0, 900), min_size=4, max_size=4)))
    # codes: the built-in encoding or an encoding file
    if draw(st.booleans()):
        b["enc"] = {str(c): n for c, n in zip(draw(st.lists(st.integers(0, 255), min_size=len(names), max_size=len(names), unique=True)), names)}
    else:
        b["enc"] = None
    b["slant"] = draw(st.sampled_from([None, None, None, 0.167]))
    b["map"] = draw(st.integers(0, 11))
    return b


@st.composite
def virt_(draw, i, targets):
    fonts = []
    for num in draw(st.lists(st.sampled_from([0, 0, 1, 5, 63, 64, 255, 256, 70000, -3]), min_size=1, max_size=3, unique=True)):
        form = min(x for x in (1, 2, 3, 4) if (num < 0) <= (x == 4) and (num < 0 or num < 256 ** x))
        fonts.append([num, draw(st.sampled_from([form, 4] if num < 0 else list(range(form, 5)))), draw(st.sampled_from([1, 1, 0.5, 1.2])), draw(st.sampled_from(targets))])
    chars = []
    for code in draw(st.lists(st.integers(0, 255), min_size=1, max_size=4, unique=True)):
        chars.append([code, draw(st.integers(0, 1500)), draw(ops_(len(fonts), 1, True, 6)) if draw(st.integers(0, 9)) else [], draw(st.booleans())])
    return dict(fonts=fonts, chars=chars, d=draw(st.sampled_from([10, 8])), cs=draw(st.sampled_from([0, 77])), comment=draw(st.sampled_from(["", "a comment"])))


@st.composite
def dvi_(draw):
    nb = draw(st.sampled_from([1, 1, 2]))
    c = dict(base=[draw(base_(i)) for i in range(nb)], virt=[])
    names = ["vt%d" % i for i in range(nb)]
    for i in range(draw(st.sampled_from([0, 1, 1, 2]))):
        c["virt"].append(draw(virt_(i, list(names))))
        names.append("vv%d" % i)
    c["names"] = names
    use = []
    for num in draw(st.lists(st.sampled_from([0, 1, 2, 63, 64, 200, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24, -1]), min_size=1, max_size=4, unique=True)):
        form = 4 if num < 0 or num >= 2 ** 24 else next(x for x in (1, 2, 3) if num < 256 ** x)
        use.append([num, draw(st.integers(form, 4)), draw(st.sampled_from(names)), draw(st.sampled_from([10, 10, 5, 12, 17.28, 40, 130]))])
    c["use"] = use
    c["unit"] = draw(st.sampled_from([[25400000, 473628672], [25400000, 473628672], [25400000, 473628672], [25400000, 947257344], [1625600000, 29601792], [7225425, 404189184]]))
    c["mag"] = draw(st.sampled_from([1000, 1000, 1000, 2000, 500, 1440]))
    c["comment"] = draw(st.sampled_from(["", "x", " TeX output 2020.01.01:0000"]))
    c["fmt"] = draw(st.sampled_from(["eps", "pdf", "svg"]))
    c["pages"] = [draw(ops_(len(use), 2, False, 12, int(c["fmt"] == "eps"))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    c["where"] = draw(st.sampled_from(["first", "use", "post"]))
    c["counts"] = draw(st.lists(st.integers(0, 2 ** 31), min_size=10, max_size=10))
    c["single"] = draw(st.integers(0, 2)) == 0
    c["widths"] = draw(st.booleans()) if c["single"] else False
    c["path"] = draw(st.integers(0, 3)) == 0
    c["debug"] = draw(st.integers(0, 3)) == 0
    c["attrs"] = draw(st.sampled_from([None, None, "color", "trafo"]))
    return c


class World:
    "the files of a case"

    def __init__(self, c, pic):
        self.c, self.pic = c, pic
        num, den = c["unit"]
        self.unit = num / den * 72.27 / 254000      # TeX points per DVI unit
        self.tfms, self.vfs, self.files, self.model, self.enc = {}, {}, {}, {}, {}
        maps = ["% a comment", "", "* other comment"]
        for i, b in enumerate(c["base"]):
            name = "vt%d" % i
            m = c25.Model(b["t1"])
            self.model[name] = m
            if b["enc"] is not None:
                enc = {int(k): n for k, n in b["enc"].items()}
            else:
                enc = {k: n for k, n in m.encoding.items() if n in m.out}
            if not enc:
                raise Skip
            self.enc[name] = enc
            codes = sorted(enc)
            hd = b["hd"]
            chars = {}
            for k in codes:
                n = enc[k]
                w = m.width[n]
                if c["widths"]:
                    w = (37 * k + hd[0]) % 1100
                chars[k] = (int(round(w / 1000 * 2 ** 20)), int(hd[k % 4] / 1000 * 2 ** 20), int(hd[(k // 4) % 4] / 3000 * 2 ** 20), int(hd[k % 3] / 5000 * 2 ** 20))
            self.tfms[name] = dvi.tfm(chars, b["d"] << 20, b["cs"], b["lh"], extra=b["extra"])
            self.files[name, "pfb"] = m.data
            o = b["map"]
            head = name + " " + m.name
            ps = []
            if b["slant"] is not None:
                ps.append("%g SlantFont" % b["slant"])
            tail = []
            if b["enc"] is not None:
                ps.append("Enc%d ReEncodeFont" % i)
                tail.append(["<", "< ", "<["][o % 3] + "ve%d.enc" % i)
                vec = ["/" + enc.get(k, ".notdef") for k in range(256)]
                e = "%% an encoding\n/Enc%d [ %% with comments /no\n" % i
                e += (" " if o & 1 else "\n").join(vec) + ("" if o & 2 else " ") + "] def\n"
                self.files["ve%d.enc" % i, ""] = e.encode()
            tail.append(["<", "<<", "<", "<"][o % 4] + ("vp%d.pfb" if o < 8 or o % 4 == 1 else "vp%d") % i)
            ps = ['"%s"' % " ".join(ps)] if ps else []
            if o & 4:
                tail.reverse()
            line = " ".join([head] + (ps + tail if o & 1 else tail + ps))
            maps.append(line if o & 2 else line.replace(" ", "\t" if '"' not in line and "< " not in line else " "))
            self.files["vp%d.pfb" % i, ""] = m.data
        # virtual fonts
        tf = {n: dvi.TFM(d) for n, d in self.tfms.items()}
        self.codes = {n: sorted(t.chars) for n, t in tf.items()}
        self.size = {"vt%d" % i: b["d"] for i, b in enumerate(c["base"])}
        for i, v in enumerate(c["virt"]):
            name = "vv%d" % i
            fonts = [(num, form, int(round(s * 2 ** 20)), self.size[t] << 20, t) for num, form, s, t in v["fonts"]]
            use = [(num, t, s) for num, form, s, t in v["fonts"]]
            chars, pk = {}, []
            for code, w, ops, lng in v["chars"]:
                fw = int(w / 1000 * 2 ** 20)
                chars[code] = (fw, int(w / 2000 * 2 ** 20) if w % 3 else 2 ** 19, 2 ** 17, 0)
                pk.append((code, fw, self.encode(ops, use, lambda pt: int(round(pt / v["d"] * 2 ** 20)), 0)))
            self.tfms[name] = dvi.tfm(chars, v["d"] << 20, v["cs"])
            self.vfs[name] = dvi.vf(fonts, pk, v["d"] << 20, v["cs"], v["comment"].encode(), [x[0] for x in v["chars"] if x[3]])
            self.codes[name] = sorted(chars)
            self.size[name] = v["d"]
        self.maps = "\n".join(maps) + "\n"
        self.dvi = self.write()

    def encode(self, ops, use, conv, font):
        "bytes of the commands; font: index of the current font"
        self.cur = font
        out = b""
        for op in ops:
            k = op[0]
            if k == "f":
                num = use[op[1]][0]
                self.cur = op[1]
                form = op[2]
                lo = 4 if num < 0 or num >= 2 ** 24 else next(x for x in (1, 2, 3) if num < 256 ** x)
                if form == 0 and 0 <= num < 64:
                    out += bytes([171 + num])
                else:
                    form = max(form, lo)
                    out += bytes([234 + form]) + num.to_bytes(form, "big", signed=form == 4)
            elif k == "c":
                codes = self.codes[use[self.cur][1]]
                ch = codes[op[1] % len(codes)]
                form = op[2]
                if form == 0 and ch < 128 and op[3]:
                    out += bytes([ch])
                else:
                    form = max(form, 1)
                    out += bytes([(127 if op[3] else 132) + form]) + ch.to_bytes(form, "big")
            elif k == "r":
                out += bytes([132 if op[3] else 137]) + dvi.sint(conv(op[1]), 4) + dvi.sint(conv(op[2]), 4)
            elif k == "m":
                v = conv(op[3])
                n = op[2]
                lim = 1 << (8 * n - 1)
                v = max(-lim, min(lim - 1, v))
                out += bytes([{"r": 142, "w": 147, "x": 152, "d": 156, "y": 161, "z": 166}[op[1]] + n]) + dvi.sint(v, n)
            elif k == "m0":
                out += bytes([{"w": 147, "x": 152, "y": 161, "z": 166}[op[1]]])
            elif k == "n":
                out += bytes([138])
            elif k == "[":
                out += bytes([141]) + self.encode(op[1], use, conv, self.cur) + bytes([142])
            elif k == "{":
                out += self.spec("PyX:%s_begin %s" % (op[1], op[2]), 1) + self.encode(op[3], use, conv, self.cur) + self.spec("PyX:%s_end" % op[1], 2)
            elif k == "e":
                out += self.spec("PyX:epsinclude file=%s llx=10 lly=20 urx=110 ury=70" % self.pic + "".join(" %s=%g" % (n, v) for n, v in zip(("width", "height", "clip"), op[1:]) if v is not None), 2)
            elif k == "s":
                if op[1] == "marker":
                    self.nm += 1
                    out += self.spec("PyX:marker m%d@X" % self.nm, op[2])
                else:
                    out += self.spec("other special" * (40 if op[1] == "long" else 1), max(op[2], 2))
        return out
    nm = 0

    def spec(self, s, form):
        return bytes([238 + form]) + len(s).to_bytes(form, "big") + s.encode()

    def write(self):
        c = self.c
        num, den = c["unit"]
        conv = lambda pt: int(round(pt / self.unit))
        o = bytes([247, 2]) + dvi.uint(num, 4) + dvi.uint(den, 4) + dvi.uint(c["mag"], 4) + bytes([len(c["comment"])]) + c["comment"].encode()
        use = [(n, t, s) for n, form, t, s in c["use"]]
        defs = [dvi.fntdef(n, form, 0, conv(s), conv(self.size[t]), t) for n, form, t, s in c["use"]]
        last = -1
        first = True
        for ops in c["pages"]:
            at = len(o)
            o += bytes([139]) + b"".join(dvi.uint(x, 4) for x in c["counts"]) + dvi.sint(last, 4)
            last = at
            if first or c["where"] == "use":
                o += b"".join(defs)
                first = False
            n = use[0][0]
            o += self.encode([["f", 0, 0]] + ops, use, conv, 0) + bytes([140])
            if c["where"] == "post":
                o += bytes([138, 138])
        o += bytes([248]) + dvi.sint(last, 4) + dvi.uint(num, 4) + dvi.uint(den, 4) + dvi.uint(c["mag"], 4) + bytes(12) + b"".join(defs)
        return o + bytes([249]) + dvi.sint(0, 4) + bytes([2, 223, 223, 223, 223])


EPS = b"%!PS-Adobe-3.0 EPSF-3.0\n%%BoundingBox: 0 0 200 200\n%%EndComments\nnewpath 20 30 moveto 100 30 lineto 60 65 lineto closepath 1 0 1 setrgbcolor fill\nshowpage\n%%EOF\n"
PIC = [([(20, 30), (100, 30), (60, 65)], (1, 0, 1))]


def special(m, s):
    if s.startswith("PyX:epsinclude"):
        a = dict(t.split("=") for t in s.split()[1:])
        w, h = (float(a[k]) if k in a else None for k in ("width", "height"))
        sx = w / 100 if w else None
        sy = h / 50 if h else sx or 1
        sx = sx or sy
        M, col = m.gs[-1]
        x, y = m.h * m.unit, -m.v * m.unit
        m.items.append(dict(k="eps", box=(x, y, x + 100 * sx, y + 50 * sy), M=M, col=col, scale=(sx, sy)))
    else:
        dvi.pyxspecial(m, s)


def boxof(items):
    xs, ys = [], []
    for it in items:
        b, M = it["box"], it["M"]
        for x in (b[0], b[2]):
            for y in (b[1], b[3]):
                xs.append(M[0] * x + M[2] * y + M[4])
                ys.append(M[1] * x + M[3] * y + M[5])
    return (min(xs), min(ys), max(xs), max(ys)) if xs else None


def paint(items, outline, M0, col0):
    "contours; outline(name, code) -> (contours in glyph space, font matrix with slant)"
    out = []
    for it in items:
        col = it["col"] or col0
        M = mul(it["M"], M0)
        if it["k"] == "eps":
            x, y = it["box"][:2]
            sx, sy = it["scale"]
            for k, kc in PIC:
                out += [(q, kc) for q in t1.transform([k], mul((sx, 0, 0, sy, x - 10 * sx, y - 20 * sy), M))]
        elif it["k"] == "rule":
            x, y, X, Y = it["box"]
            out += [(k, col) for k in t1.transform([[(x, y), (X, y), (X, Y), (x, Y)]], M)]
        else:
            ks, fm = outline(it["name"], it["ch"])
            s = it["size"]
            out += [(k, col) for k in t1.transform(ks, mul(mul(fm, (s, 0, 0, s, it["x"], it["y"])), M))]
    return out


class Files:
    "stands in for the file locators"

    def __init__(self, files):
        self.files, self.asked = files, []

    def openers(self, filename, formats):
        from pyx import config
        for n in config.full_filenames(filename, formats):
            if n in self.files:
                return [lambda: io.BytesIO(self.files[n])]
        return []


class Locate:
    def __init__(self, files):
        self.files = files

    def __enter__(self):
        from pyx import config
        self.keep = config.methods, config.opener_cache
        config.methods, config.opener_cache = [Files(self.files)] + config.methods[:0], {}

    def __exit__(self, *a):
        from pyx import config
        config.methods, config.opener_cache = self.keep


ATTR = {None: ((1, 0, 0, 1, 0, 0), (0, 0, 0)), "color": ((1, 0, 0, 1, 0, 0), (0.0, 0.5, 0.25)), "trafo": ((0, 2, -2, 0, 5, 7), (0, 0, 0))}


def attrs_(k):
    from pyx import color, trafo
    if k == "color":
        return [color.rgb(0, 0.5, 0.25)]
    if k == "trafo":
        return [trafo.trafo_pt(matrix=((0, -2), (2, 0)), vector=(5, 7))]
    return []


def output(page, fmt, path):
    from pyx import canvas
    cc = canvas.canvas()
    cc.insert(page)
    b = io.BytesIO()
    try:
        if fmt == "eps":
            cc.writeEPSfile(b, write_textaspath=path)
            return glyphs.epsglyphs(b.getvalue())
        if fmt == "pdf":
            cc.writePDFfile(b, write_textaspath=path)
            return glyphs.pdfglyphs(b.getvalue())
        cc.writeSVGfile(b, write_textaspath=path)
        return glyphs.svgglyphs(b.getvalue())
    except (glyphs.Error, t1.Error) as e:
        fail("%s%s: %s", fmt, " as path" if path else "", e)


def compare(page, items, m, c, outline, tol, ctx):
    M0, col0 = ATTR[c["attrs"]]
    from pyx import unit
    # markers
    ensure(set(page.markers) == set(m.markers), "markers %r, expected %r", sorted(page.markers), sorted(m.markers))
    for n, (x, y) in page.markers.items():
        ensure(abs(unit.topt(x) - m.markers[n][0]) < tol and abs(unit.topt(y) - m.markers[n][1]) < tol, "marker %s at %r, expected %r", n, (unit.topt(x), unit.topt(y)), m.markers[n])
    ctx.label("marker", len(m.markers) > 0)
    want = paint(items, outline, M0, col0)
    if not want:
        return False
    if items and c["attrs"] is None and all(it["M"][1] == 0 for it in items):
        b = page.bbox()
        w = boxof(items)
        got = (b.llx_pt, b.lly_pt, b.urx_pt, b.ury_pt)
        ensure(max(abs(p - q) for p, q in zip(w, got)) < tol, "bounding box of the page is %r, by the metrics %r", got, w)
        ctx.label("box")
    ctx.label("eps included", any(it["k"] == "eps" for it in items))
    tol *= max(sum(map(abs, mul(it["M"], M0)[:4])) for it in items) + 1e-9
    glyphs.same(want, output(page, c["fmt"], c["path"]), tol, c["fmt"] + (" as path" if c["path"] else ""), fail, 0.005 if c["fmt"] == "svg" else 1e-4)
    return True


def big(items):
    return any(max(map(abs, it["box"])) > 14000 for it in items)


def check_dvi(c, ctx):
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        with open(os.path.join(d, "pic.eps"), "wb") as f:
            f.write(EPS)
        w = World(c, os.path.join(d, "pic.eps"))
        with open(os.path.join(d, "t.dvi"), "wb") as f:
            f.write(w.dvi)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            run_dvi(c, ctx, w, os.path.join(d, "t.dvi"))
        ensure(not out.getvalue(), "printed %r", out.getvalue()[:100])
    finally:
        shutil.rmtree(d)


def run_dvi(c, ctx, w, name):
    m = dvi.Machine(w.dvi, w.tfms.__getitem__, w.vfs.get, special)
    files = {k + ".tfm": d for k, d in w.tfms.items()}
    files.update({k + ".vf": d for k, d in w.vfs.items()})
    files.update({k[0]: d for k, d in w.files.items() if not k[1]})
    files["own.map"] = w.maps.encode()
    with Locate(files):
        from pyx.dvi import dvifile, mapfile
        fm = mapfile.readfontmap(["own.map"])
        ensure(sorted(fm) == sorted(w.model), "font map has %r", sorted(fm))
        d = dvifile.DVIfile(name, debug=1, debugfile=io.StringIO()) if c["debug"] else dvifile.DVIfile(name)

        def outline(n, ch):
            mod = w.model[n]
            sl = c["base"][int(n[2:])]["slant"] or 0
            return mod.out[w.enc[n][ch]], mul(mod.matrix, (1, 0, sl, 1, 0, 0))
        seen = 0
        for i in range(len(c["pages"])):
            items = m.page()
            if big(items):
                raise Skip
            page = d.readpage(c["counts"] if i % 2 else None, fontmap=fm, singlecharmode=c["single"], attrs=attrs_(c["attrs"]))
            ensure(page is not None, "page %d is missing", i + 1)
            n = len(items)
            s = max([it["size"] for it in items if it["k"] == "glyph"] + [10])
            if compare(page, items, m, c, outline, 2e-3 + 2e-5 * n + 1e-5 * s * n + m.unit * n, ctx):
                seen += len(items)
                ctx.label("virtual", any(it.get("depth") for it in items))
                ctx.label("nested virtual", any(it.get("depth", 0) > 1 for it in items))
        ensure(m.page() is None and d.readpage(None) is None, "no further page expected")
    flat = str(c["pages"])
    ctx.label(c["fmt"] + ("-path" if c["path"] else ""))
    ctx.label("mag", c["mag"] != 1000)
    ctx.nontrivial(seen >= 3 and ("'['" in flat or "'m0'" in flat or "'{'" in flat or len(c["virt"]) > 0))


SUBS.append(Sub("dvi", dvi_(), check_dvi, quick=2000, thorough=20000, shards=8))


# ------------------------------------------------------------------ files written by TeX

REAL = ["cmr10", "cmmi10", "cmbx12", "cmti10", "cmtt10", "cmcsc10", "ptmr8t", "ptmri8t", "ptmro8t", "phvr8t", "pcrr8t", "pplr7t", "ptmrc8t", "pbkd8t", "t1xr", "txr", "ec-lmr10", "rm-lmr10", "ptmr8r",
        "phvro8r", "aer10", "putr8t", "pncri8t", "zptmcm7t", "ptmr7t"]
KP, MAP, T1S, ENCS = {}, {}, {}, {}


def kpse(name):
    if name not in KP:
        r = subprocess.run(["kpsewhich", name], stdout=subprocess.PIPE).stdout.decode().strip()
        KP[name] = open(r, "rb").read() if r else None
    return KP[name]


def mapline(name):
    "(font program, encoding vector or None, slant) by the map file of the TeX installation"
    import re
    if not MAP:
        for l in kpse("psfonts.map").decode("latin-1").splitlines():
            if l and l[0] not in " %*;#":
                MAP[l.split()[0]] = l
    if name not in T1S:
        l = MAP.get(name)
        res = None
        if l:
            q = " ".join(re.findall(r'"([^"]*)"', l))
            slant = re.search(r"(\S+)\s+SlantFont", q)
            f = re.findall(r"<<?(\S+\.pf[ab])", l)
            e = re.findall(r"<\[?\s*(\S+\.enc)", l)
            if f and "ExtendFont" not in q and kpse(f[0]):
                font = t1.Font(kpse(f[0]))
                vec = None
                if e:
                    d = re.sub(rb"%[^\n]*", b"", kpse(e[0])).decode("latin-1")
                    vec = re.findall(r"/(\S+?)(?=[\s/\]])", d[d.index("["):])
                res = (font, vec, float(slant.group(1)) if slant else 0)
        T1S[name] = res
    return T1S[name]


def usable(name):
    "codes of the characters which can be shown"
    k = "codes:" + name
    if k not in KP:
        KP[k] = []
        if kpse(name + ".tfm"):
            f = dvi.TFM(kpse(name + ".tfm"))
            v = kpse(name + ".vf")
            m = dvi.Machine.__new__(dvi.Machine)
            m._t, m._v, m._tc, m._vc, m.fonts, m.unit = lambda n: kpse(n + ".tfm"), lambda n: kpse(n + ".vf"), {}, {}, {}, 1
            m.special = dvi.pyxspecial
            try:
                fo = dvi.Font(m, name, 655360.0)
            except TypeError:
                return []
            for c in f.chars:
                m.items, m.h, m.v, m.gs, m.markers = [], 0.0, 0.0, [((1, 0, 0, 1, 0, 0), None)], {}
                try:
                    m.char(fo, c, 0)
                    for it in m.items:
                        if it["k"] == "glyph":
                            outline_real(it["name"], it["ch"])
                            if it["name"] not in W:
                                W[it["name"]] = dvi.TFM(kpse(it["name"] + ".tfm")).chars
                            w = W[it["name"]][it["ch"]]
                            # some clones of fonts differ from their metrics
                            if abs(GLW[it["name"], it["ch"]] - (w[0] if isinstance(w, (tuple, list)) else w) / 2.0 ** 20) > 2e-3:
                                raise KeyError
                    KP[k].append(c)
                except (KeyError, TypeError, t1.Error, AttributeError, dvi.Error):
                    pass
    return KP[k]


GL, GLW, W = {}, {}, {}


def outline_real(n, ch):
    if (n, ch) not in GL:
        font, vec, slant = mapline(n)
        g = vec[ch] if vec else font.encoding[ch]
        cs, w = font.glyph(g)
        GLW[n, ch] = (w[0] if isinstance(w, (tuple, list)) else w) * font.matrix[0]
        GL[n, ch] = (cs, mul(font.matrix, (1, 0, slant, 1, 0, 0)))
    return GL[n, ch]


@st.composite
def hlist_(draw, nf, depth):
    out = []
    for _ in range(draw(st.integers(1, 8 if depth == 2 else 4))):
        k = draw(st.sampled_from(["word", "word", "char", "char", "font", "kern", "rule", "space"] + (["box", "box", "special", "vbox"] if depth else [])))
        if k == "word":
            out.append(["word", draw(st.sampled_from(["AVAToffice", "difficult", "fly", "Word.", "``quoted''", "WA-VE--x---", "if", "To"]))])
        elif k == "char":
            out.append(["char", draw(st.lists(st.integers(0, 999), min_size=1, max_size=5))])
        elif k == "font":
            out.append(["font", draw(st.integers(0, nf - 1))])
        elif k in ("kern", "space"):
            out.append([k, draw(real(-20, 20, 3))])
        elif k == "rule":
            out.append(["rule", draw(real(-1, 9, 2)), draw(real(-1, 9, 2)), draw(real(0, 9, 2))])
        elif k in ("box", "vbox"):
            out.append([k, draw(st.sampled_from(["", "raise%gpt", "lower%gpt", "moveleft%gpt"][:3 if k == "box" else 1])), draw(real(-9, 9, 2)), draw(hlist_(nf, depth - 1))])
        else:
            out.append(["special", draw(st.sampled_from(["color", "rotate", "scale", "marker"])), draw(color_(tex=True)), draw(hlist_(nf, depth - 1))])
    return out


@st.composite
def tex_(draw):
    fonts = [[draw(st.sampled_from(REAL)), draw(st.sampled_from(["", " at 12pt", " at 7.35pt", " scaled 1440", " at 100pt"]))] for _ in range(draw(st.integers(1, 4)))]
    return dict(fonts=fonts, pages=[draw(hlist_(len(fonts), 2)) for _ in range(8)], mag=draw(st.sampled_from([1000, 1000, 1200, 2000])), single=draw(st.booleans()),
                fmt=[draw(st.sampled_from(["eps", "pdf", "svg", "eps-path"])) for _ in range(8)])


def tex_source(l, codes, n, st_):
    o = ""
    for op in l:
        k = op[0]
        if k == "word":
            o += "".join(x for x in op[1] if ord(x) in codes[st_[0]]) + " "
        elif k == "char":
            c = codes[st_[0]]
            if c:
                o += "".join("\\char%d " % c[i % len(c)] for i in op[1])
        elif k == "font":
            st_[0] = op[1]
            o += "\\f%s " % "abcd"[op[1]]
        elif k == "kern":
            o += "\\kern%gpt" % op[1] + "\\relax "
        elif k == "space":
            o += "\\hskip%gpt plus1fil\\relax " % op[1]
        elif k == "rule":
            o += "\\vrule width%gpt height%gpt depth%gpt\\relax " % tuple(op[1:])
        elif k == "box":
            o += ("\\" + op[1] % op[2] if op[1] else "") + "\\hbox{" + tex_source(op[3], codes, n, [st_[0]]) + "}"
        elif k == "vbox":
            o += "\\vbox{\\hbox{" + tex_source(op[3], codes, n, [st_[0]]) + "}\\kern%gpt\\hrule width 7pt\\hbox{x}}" % abs(op[2])
        elif k == "special":
            if op[1] == "marker":
                n[0] += 1
                o += "\\special{PyX:marker M%d}" % n[0] + tex_source(op[3], codes, n, st_)
            else:
                arg = {"color": op[2], "rotate": "30", "scale": "1.5 -1"}[op[1]]
                o += "\\special{PyX:%s_begin %s}\\hbox{%s}\\special{PyX:%s_end}" % (op[1], arg, tex_source(op[3], codes, n, [st_[0]]), op[1])
    return o


def check_tex(c, ctx):
    codes = []
    for f, at in c["fonts"]:
        u = usable(f)
        if not u:
            ctx.label("missing " + f)
            raise Skip
        codes.append(u)
    src = "\\mag=%d\n\\nonstopmode\n" % c["mag"] + "".join("\\font\\f%s=%s%s\n" % ("abcd"[i], f, at) for i, (f, at) in enumerate(c["fonts"]))
    n = [0]
    for p in c["pages"]:
        src += "\\shipout\\hbox{\\fa %s}\n" % tex_source(p, codes, n, [0])
    src += "\\end\n"
    d = tempfile.mkdtemp(prefix="c24-")
    try:
        with open(os.path.join(d, "t.tex"), "w") as f:
            f.write(src)
        subprocess.run(["tex", "t.tex"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        name = os.path.join(d, "t.dvi")
        data = open(name, "rb").read()
        m = dvi.Machine(data, lambda n: kpse(n + ".tfm"), lambda n: kpse(n + ".vf"), dvi.pyxspecial)
        from pyx.dvi import dvifile, mapfile
        if "fm" not in KP:
            KP["fm"] = mapfile.readfontmap(["psfonts.map"])
        f = dvifile.DVIfile(name)
        seen = 0
        for i, fmt in enumerate(c["fmt"]):
            items = m.page()
            page = f.readpage(None, fontmap=KP["fm"], singlecharmode=c["single"])
            ensure(page is not None, "page %d is missing", i + 1)
            if big(items):
                continue
            k = len(items)
            s = max([it["size"] for it in items if it["k"] == "glyph"] + [10])
            cc = dict(attrs=None, fmt=fmt[:3], path=fmt.endswith("path"))
            # without singlecharmode, the widths within a chunk are the ones of the font program
            if compare(page, items, m, cc, outline_real, 5e-3 + (1e-5 if c["single"] else 1e-3) * s * k, ctx):
                seen += k
        ensure(m.page() is None and f.readpage(None) is None, "no further page expected")
    finally:
        shutil.rmtree(d)
    for f, at in c["fonts"]:
        ctx.label("virtual" if kpse(f + ".vf") else "Type 1")
    ctx.nontrivial(seen >= 10)


SUBS.append(Sub("tex", tex_(), check_tex, quick=64, thorough=1000, shards=8))
