"""C19 bitmaps keep every sample and are placed as requested in all output formats"""
import base64, io, logging, os, re, struct, zlib
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import ps, pdf, svg
from lib.gfx import mul, app, inv

PROP = "C19"
RULE = ("random images (all modes with and without alpha and palettes, several images with related data, compressed data, jpeg files, objects with the interface of PIL) "
        "with random placement and output options are written as EPS, PDF and SVG, and the samples and corners are read back by independent decoders; "
        "non-trivial: at least 4 pixels")
SUBS = []
N = {"L": 1, "P": 1, "RGB": 3, "CMYK": 4}
SPACE = {"L": "DeviceGray", "RGB": "DeviceRGB", "CMYK": "DeviceCMYK"}


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- decoders: (width, height, mode, samples, alpha samples, palette (mode, bytes)) -----------------

def png(data):
    ensure(data[:8] == b"\x89PNG\r\n\x1a\n", "PNG signature %r", data[:8])
    p, idat, pal, head, names = 8, b"", None, None, []
    while p < len(data):
        n, k = struct.unpack(">I4s", data[p:p + 8])
        body = data[p + 8:p + 8 + n]
        ensure(len(body) == n and struct.unpack(">I", data[p + 8 + n:p + 12 + n])[0] == zlib.crc32(k + body), "PNG chunk %r: length or checksum", k)
        names.append(k)
        if k == b"IHDR": head = struct.unpack(">IIBBBBB", body)
        elif k == b"PLTE": pal = body
        elif k == b"IDAT": idat += body
        p += 12 + n
    ensure(names[0] == b"IHDR" and names[-1] == b"IEND" and p == len(data), "PNG chunks %r", names)
    w, h, depth, ct, a, b, c = head
    ensure(depth == 8 and (a, b, c) == (0, 0, 0), "PNG header %r", head)
    mode, bpp = {0: ("L", 1), 2: ("RGB", 3), 3: ("P", 1), 4: ("LA", 2), 6: ("RGBA", 4)}[ct]
    raw = zlib.decompress(idat)
    ensure(len(raw) == h * (1 + w * bpp), "PNG data length")
    rows, prev = [], bytearray(w * bpp)
    for y in range(h):
        f = raw[y * (w * bpp + 1)]
        row = bytearray(raw[y * (w * bpp + 1) + 1:(y + 1) * (w * bpp + 1)])
        for i in range(len(row)):
            l = row[i - bpp] if i >= bpp else 0
            u, ul = prev[i], prev[i - bpp] if i >= bpp else 0
            if f == 1: row[i] = (row[i] + l) & 255
            elif f == 2: row[i] = (row[i] + u) & 255
            elif f == 3: row[i] = (row[i] + (l + u) // 2) & 255
            elif f == 4:
                q = l + u - ul
                row[i] = (row[i] + min(((abs(q - v), k, v) for k, v in enumerate((l, u, ul))))[2]) & 255
        rows.append(bytes(row))
        prev = row
    raw = b"".join(rows)
    alpha = None
    if mode.endswith("A"):
        alpha = raw[bpp - 1::bpp]
        raw = b"".join(raw[i:i + bpp - 1] for i in range(0, len(raw), bpp))
        mode = mode[:-1]
    return w, h, mode, raw, alpha, ("RGB", pal) if mode == "P" else None


def space(cs, pdfdoc=None):
    "mode, palette"
    if isinstance(cs, (list, tuple)) and len(cs) == 1:
        cs = cs[0]
    if isinstance(cs, (list, tuple)):
        ensure(str(cs[0]) == "Indexed" and len(cs) == 4, "colour space %r", cs)
        base, hi, tab = str(cs[1]), cs[2], cs[3]
        if pdfdoc is not None:
            tab = pdfdoc.get(tab)
            if isinstance(tab, pdf.Stream):
                tab = tab.data()
        m = {v: k for k, v in SPACE.items()}[base]
        tab = bytes(tab)
        ensure((hi + 1) * N[m] == len(tab), "indexed colour space with highest index %r and a table of %d bytes for %s", hi, len(tab), base)
        return "P", (m, tab)
    return {v: k for k, v in SPACE.items()}[str(cs)], None


def psimages(data):
    it = ps.interpret(data)
    out = []
    for x in [x for p in it.pages for x in p] + it.out:
        ensure(x["kind"] == "image", "%s was drawn", x["kind"])
        d, dat = x["image"], x["data"]
        ensure(x["color"][0] == "space", "no colour space")
        mode, pal = space(x["color"][1])
        alpha = False
        if d["ImageType"] == 3:
            k = d["MaskDict"]
            d = d["DataDict"]
            ensure(x["image"]["InterleaveType"] == 1 and k["Width"] == d["Width"] and k["Height"] == d["Height"] and k["BitsPerComponent"] == 8 and
                   list(k["ImageMatrix"]) == list(d["ImageMatrix"]) and list(k["Decode"]) == [1, 0], "mask dictionary %r", k)
            alpha = True
        w, h = d["Width"], d["Height"]
        ensure(d["ImageType"] == 1 and d["BitsPerComponent"] == 8, "image dictionary")
        ensure([float(v) for v in d["Decode"]] == ([0, 255] if mode == "P" else [0, 1] * N[mode]), "Decode %r for %s", list(d["Decode"]), mode)
        m = mul(inv(tuple(float(v) for v in d["ImageMatrix"])), x["ctm"])
        a = None
        if isinstance(dat, bytes) and alpha:
            n = N[mode] + 1
            a = dat[::n]
            dat = b"".join(dat[i + 1:i + n] for i in range(0, len(dat), n))
        out.append(dict(w=w, h=h, mode=mode, data=dat, alpha=a, pal=pal, corners=[app(m, p) for p in ((0, 0), (w, 0), (0, h))]))
    # the number of lines of data sections is as announced
    lines = data.split(b"\n")
    for i, l in enumerate(lines):
        g = re.match(rb"%%BeginData: (\d+) ASCII Lines$", l)
        if l.startswith(b"%%BeginData"):
            ensure(g, "%r", l)
            j = lines.index(b"%%EndData", i)
            ensure(int(g.group(1)) == j - i - 1, "%d lines of data were announced, there are %d", int(g.group(1)), j - i - 1)
    return out


def pdfimages(data):
    p = pdf.PDF(data)
    ensure(len(p.pages) == 1, "pages")
    out = []
    for x in p.interpret(p.pages[0]).out:
        ensure(x["kind"] == "image", "%s was drawn", x["kind"])
        s = x["image"]
        d = {k: p.get(v) for k, v in s.dic.items()}
        mode, pal = space(d["ColorSpace"], p)
        ensure(d["BitsPerComponent"] == 8 and "Decode" not in d, "image dictionary %r", d)
        a = None
        if d.get("SMask") is not None:
            ms = d["SMask"]
            md = {k: p.get(v) for k, v in ms.dic.items()}
            ensure((md["Width"], md["Height"], str(md["ColorSpace"]), md["BitsPerComponent"]) == (d["Width"], d["Height"], "DeviceGray", 8), "soft mask %r of %r", md, d)
            a = ms.data()
        out.append(dict(w=d["Width"], h=d["Height"], mode=mode, data=s.data(), alpha=a, pal=pal, corners=[app(x["ctm"], q) for q in ((0, 1), (1, 1), (0, 0))]))
    return out


def svgimages(data):
    out = []
    for x in svg.Doc(data).out:
        ensure(x["kind"] == "image", "%s was drawn", x["kind"])
        a = x["attrs"]
        ensure(a.get("preserveAspectRatio") == "none", "preserveAspectRatio %r", a.get("preserveAspectRatio"))
        X, Y, W, H = [float(a[k]) for k in ("x", "y", "width", "height")]
        m = x["ctm"]
        kind, b64 = re.fullmatch(r"data:image/(\w+);base64,(.*)", a[svg.XLINK + "href"]).groups()
        dat = base64.b64decode(b64, validate=True)
        c = [app(m, p) for p in ((X, Y), (X + W, Y), (X, Y + H))]
        if kind == "jpeg":
            out.append(dict(data=("DCTDecode", dat), corners=c))
        else:
            w, h, mode, dat, al, pal = png(dat)
            out.append(dict(w=w, h=h, mode=mode, data=dat, alpha=al, pal=pal, corners=c))
    return out


# ---- cases -------------------------------------------------------------------------------------------

def bands(im):
    m = im["mode"]
    if m.startswith("A"): return m[1:], 0
    if m.endswith("A"): return m[:-1], N[m[:-1]]
    return m, None


def expected(im):
    base, ai = bands(im)
    data = bytes(im["data"])
    a = None
    if ai is not None:
        n = N[base] + 1
        a = data[ai::n]
        data = b"".join(data[i:i + n][:ai] + data[i:i + n][ai + 1:] for i in range(0, len(data), n))
    return dict(w=im["w"], h=im["h"], mode=base, data=data, alpha=a, pal=(im["pal"][0], bytes(im["pal"][1])) if im["pal"] else None)


class Pil:
    "an image object with the interface used from the Python Imaging Library"
    def __init__(self, im):
        self.im = im
        self.size = im["w"], im["h"]
        self.mode = im["mode"]
        self.palette = None
        if im["pal"]:
            self.palette = self
        self.info = {"dpi": im["dpi"]} if im.get("dpi") else {}

    def getdata(self):
        return self.im["pal"][0], bytes(self.im["pal"][1])

    def tobytes(self, *args):
        return bytes(self.im["data"])

    def split(self):
        n = len(self.mode)
        return [Pil(dict(self.im, mode="L", pal=None, data=list(self.im["data"][i::n]))) for i in range(n)]

    def convert(self, mode):
        return Pil(dict(self.im, mode=mode, pal=None, data=conv(self.im, mode)))

    def save(self, file, format=None, **attrs):
        from pyx import bitmap
        im = self.im
        bitmap.image(im["w"], im["h"], im["mode"], bytes(im["data"]), palette=bitmap.palette(im["pal"][0], bytes(im["pal"][1])) if im["pal"] else None).save(file, format)


def conv(im, mode):
    n = im["w"] * im["h"] * N[mode]
    return [(7 * i + len(im["data"])) % 256 for i in range(n)]


def make(im):
    from pyx import bitmap
    if im["how"] == "pil":
        return Pil(im)
    data, comp = bytes(im["data"]), None
    if im["how"] == "flate":
        data, comp = zlib.compress(data), "Flate"
    return bitmap.image(im["w"], im["h"], im["mode"], data, compressed=comp, palette=bitmap.palette(im["pal"][0], bytes(im["pal"][1])) if im["pal"] else None)


def place(b, im):
    "the corners top left, top right, bottom left in pt and the bitmap"
    from pyx import bitmap, trafo, unit
    p = b["place"]
    kw = dict(b["opts"])
    if im["how"] == "flate":
        kw["compressmode"] = None
    i = make(im)
    if p[0] == "trafo":
        a, bb, c, d, e, f = p[1:]
        t = (a, c, bb, d, e, f)
        return t, bitmap.bitmap_trafo(trafo.trafo_pt(((a, bb), (c, d)), (e, f)), i, **kw)
    x, y, w, h, r = p[1:]
    if w is None and h is None:
        W, H = 72 * im["w"] / im["dpi"][0], 72 * im["h"] / im["dpi"][1]
    elif w is None:
        W, H = h * (im["w"] / im["h"] if r is None else r), h
    elif h is None:
        W, H = w, w * im["h"] / im["w"] if r is None else w / r
    else:
        W, H = w, h
    if p[0] == "pt":
        o = bitmap.bitmap_pt(x, y, i, width_pt=w, height_pt=h, ratio=r, **kw)
    else:
        u = unit.t_pt
        o = bitmap.bitmap(x * u, y * u, i, width=w if w is None else w * u, height=h if h is None else h * u, ratio=r, **kw)
    return (W, 0, 0, H, x, y), o


def compare(want, got, what, svgout=False):
    ensure(len(want) == len(got), "%s: %d images, expected %d", what, len(got), len(want))
    for i, (w, g) in enumerate(zip(want, got)):
        t = "%s: image %d" % (what, i)
        for p, q in zip(w["corners"], g["corners"]):
            ensure(abs(p[0] - q[0]) + abs(p[1] - q[1]) < 1e-4 * (1 + abs(p[0]) + abs(p[1]) + w["size"]), "%s: corner at %r, expected %r", t, q, p)
        e = w["im"]
        if isinstance(g["data"], tuple):
            ensure(isinstance(e["data"], tuple) and g["data"][1] == e["data"][1], "%s: compressed data changed", t)
            if svgout:
                continue
        elif svgout and e["mode"] == "P":
            pal = e["pal"][1] if e["pal"][0] == "RGB" else b"".join(bytes([x] * 3) for x in e["pal"][1])
            e = dict(e, pal=("RGB", pal))
        for k in ("w", "h", "mode", "pal", "alpha"):
            ensure(g[k] == e[k], "%s: %s is %r, expected %r", t, {"pal": "palette", "alpha": "alpha channel"}.get(k, k), g[k], e[k])
        if not isinstance(g["data"], tuple):
            ensure(g["data"] == e["data"], "%s: samples %r, expected %r", t, g["data"][:40], e["data"][:40])


def outputs(c, want, svgok, only=None):
    f = io.BytesIO()
    c.writeEPSfile(f)
    compare(want, psimages(f.getvalue()), "EPS")
    f = io.BytesIO()
    c.writePDFfile(f)
    compare(want, pdfimages(f.getvalue()), "PDF")
    f = io.BytesIO()
    if svgok:
        c.writeSVGfile(f)
        compare(want, svgimages(f.getvalue()), "SVG", True)
    else:
        try:
            c.writeSVGfile(f)
        except (ValueError, RuntimeError):
            pass
        else:
            fail("SVG was written with an image which cannot be stored")


def check(case, ctx):
    from pyx import canvas, trafo
    c = canvas.canvas()
    ct = case["canvas"]
    inner = c.insert(canvas.canvas([trafo.scale(ct[0], ct[1]).rotated(ct[2]).translated_pt(ct[3], ct[4])])) if ct else c
    cm = (1, 0, 0, 1, 0, 0)
    if ct:
        import math
        s, k = math.sin(math.radians(ct[2])), math.cos(math.radians(ct[2]))
        cm = mul(mul((ct[0], 0, 0, ct[1], 0, 0), (k, s, -s, k, 0, 0)), (1, 0, 0, 1, ct[3], ct[4]))
    want, svgok = [], True
    for b in case["bitmaps"]:
        im = case["images"][b["image"] % len(case["images"])]
        m, o = place(b, im)
        inner.insert(o)
        m0 = m
        pts = [app(m0, p) for p in ((0, 0), (1, 0), (0, 1), (1, 1))]
        bb = o.bbox()
        for got, exp in zip((bb.llx_pt, bb.lly_pt, bb.urx_pt, bb.ury_pt), (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))):
            ensure(abs(got - exp) < 1e-6 * (1 + abs(exp)), "bounding box: %r, expected %r", got, exp)
        m = mul(m, cm)
        e = im
        if im["how"] == "pil" and im["mode"] in ("1", "YCbCr", "HSV"):
            mode = "L" if im["mode"] == "1" else "RGB"
            e = dict(im, mode=mode, pal=None, data=conv(im, mode))
            svgok = False
        e = expected(e)
        if im["how"] == "flate" or b["opts"].get("compressmode", "Flate") != "Flate" or im["mode"].startswith("A") or "CMYK" in im["mode"] or (im["pal"] and im["pal"][0] == "CMYK"):
            svgok = False
        want.append(dict(im=e, corners=[app(m, p) for p in ((0, 1), (1, 1), (0, 0))], size=sum(abs(v) for v in m[:4])))
    ctx.nontrivial(any(i["w"] * i["h"] > 3 for i in case["images"]))
    ctx.label("several bitmaps", len(want) > 1)
    ctx.label("svg", svgok)
    outputs(c, want, svgok)


@st.composite
def images(draw):
    how = draw(st.sampled_from(["image", "image", "image", "pil", "flate"]))
    modes = ["L", "RGB", "CMYK", "P", "P"]
    if how != "flate":
        modes += ["LA", "RGBA", "CMYKA"]
    if how == "image":
        modes += ["AL", "ARGB", "ACMYK"]
    if how == "pil":
        modes += ["1", "YCbCr", "HSV"]
    m = draw(st.sampled_from(modes))
    w, h = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    big = draw(st.integers(0, 5)) == 5
    if big:
        w *= draw(st.integers(1, 12))
    n = {"1": 1, "YCbCr": 3, "HSV": 3}.get(m) or sum(N[k] for k in [m.replace("A", "")]) + ("A" in m)
    pal = None
    top = 255
    if m == "P":
        pm = draw(st.sampled_from(["RGB", "RGB", "L", "CMYK"]))
        k = draw(st.integers(1, 6))
        pal = [pm, draw(st.lists(st.integers(0, 255), min_size=k * N[pm], max_size=k * N[pm]))]
        top = k - 1
    s = st.one_of(st.integers(0, top), st.sampled_from([0, top, top // 2]))
    if big or draw(st.integers(0, 3)) == 3:
        unit = draw(st.lists(s, min_size=1, max_size=4))
        data = (unit * (w * h * n))[:w * h * n]
    else:
        data = draw(st.lists(s, min_size=w * h * n, max_size=w * h * n))
    dpi = draw(st.sampled_from([[72, 72], [100, 300]])) if how == "pil" else None
    return dict(how=how, mode=m, w=w, h=h, data=data, pal=pal, dpi=dpi)


@st.composite
def related(draw):
    "images which share their data but nothing else"
    a = draw(images())
    out = [a]
    for i in range(draw(st.integers(0, 2))):
        b = dict(a)
        k = draw(st.sampled_from(["swap", "palette", "mode", "alpha", "other"]))
        if k == "swap":
            b["w"], b["h"] = a["h"], a["w"]
        elif k == "palette" and a["pal"]:
            b["pal"] = [a["pal"][0], [255 - v for v in a["pal"][1]]]
        elif k == "mode" and a["mode"] == "L":
            b["mode"], b["pal"] = "P", ["RGB", [v * 85 % 256 for v in range(768)]]
        elif k == "mode" and a["mode"] == "RGB" and a["w"] % 4 == 0:
            b["mode"], b["w"] = "CMYK", a["w"] * 3 // 4
        elif k == "alpha" and a["mode"] in ("LA", "RGBA", "CMYKA"):
            n = N[a["mode"][:-1]] + 1
            b["data"] = [255 - v if j % n == n - 1 else v for j, v in enumerate(a["data"])]
        else:
            b = draw(images())
        out.append(b)
    return out


coord = st.integers(-100, 200)
size = st.integers(1, 200)


@st.composite
def bitmaps(draw, n, dpi):
    i = draw(st.integers(0, n - 1))
    ks = ["w", "h", "wh", "wr", "hr", "trafo"] + (["dpi"] if dpi[i] else [])
    k = draw(st.sampled_from(ks))
    if k == "trafo":
        p = ["trafo", draw(st.sampled_from([10, 25.5, -7])), draw(st.sampled_from([0, 3, -8])), draw(st.sampled_from([0, 5, -4])), draw(st.sampled_from([12, 40, -20])), draw(coord), draw(coord)]
    else:
        r = draw(st.sampled_from([.5, 1, 3])) if "r" in k else None
        p = [draw(st.sampled_from(["pt", "unit"])), draw(coord), draw(coord), draw(size) if k[0] == "w" else None, draw(size) if "h" in k else None, r]
    o = {}
    for name, s in (("PSstoreimage", st.sampled_from([0, 1, 1])), ("PSmaxstrlen", st.sampled_from([4093, 4, 10, 40])), ("PSbinexpand", st.sampled_from([1, 2])),
                    ("compressmode", st.sampled_from(["Flate", None])), ("flatecompresslevel", st.integers(0, 9))):
        if draw(st.integers(0, 2)) == 2:
            o[name] = draw(s)
    return dict(image=i, place=p, opts=o)


@st.composite
def cases(draw):
    ims = draw(related())
    return dict(images=ims, bitmaps=draw(st.lists(bitmaps(len(ims), [i["dpi"] for i in ims]), min_size=1, max_size=4)),
                canvas=draw(st.one_of(st.none(), st.tuples(st.sampled_from([1, 2, .5]), st.sampled_from([1, -1, .5]), st.sampled_from([0, 30, 90]), coord, coord).map(list))))


# ---- jpeg files ----------------------------------------------------------------------------------------

def jpegfile(j):
    "a structurally valid JPEG file with arbitrary contents of its scan"
    out = b"\xff\xd8"

    def seg(marker, body):
        return b"\xff" + bytes([marker]) + struct.pack(">H", len(body) + 2) + body
    if j["dpi"]:
        out += seg(0xe0, b"JFIF\0" + struct.pack(">BBBHHBB", 1, 2, *j["dpi"], 0, 0))
    for m, body in j["extra"]:
        out += seg(m, bytes(body))
    out += seg(0xdb, b"\0" + bytes(64))
    out += seg(0xc2 if j["progressive"] else 0xc0, struct.pack(">BHHB", 8, j["h"], j["w"], j["n"]) + b"".join(bytes([i + 1, 0x11, 0]) for i in range(j["n"])))
    for s in j["scans"]:
        out += seg(0xda, bytes([j["n"]]) + b"".join(bytes([i + 1, 0]) for i in range(j["n"])) + b"\0\x3f\0")
        out += bytes(s).replace(b"\xff", b"\xff\0")
    out += b"\xff\xd9"
    return out


def jpeg(case, ctx):
    from pyx import canvas, bitmap, unit
    j = case["jpeg"]
    data = jpegfile(j)
    tail = bytes(case["tail"])
    import tempfile
    if case["byname"]:
        with tempfile.TemporaryDirectory() as d:
            n = os.path.join(d, "i.jpg")
            with open(n, "wb") as f:
                f.write(data + tail)
            im = bitmap.jpegimage(n)
    else:
        im = bitmap.jpegimage(io.BytesIO(data + tail))
    ensure(im.size == (j["w"], j["h"]), "size %r, expected %r", im.size, (j["w"], j["h"]))
    mode = {1: "L", 3: "RGB", 4: "CMYK"}[j["n"]]
    c = canvas.canvas()
    kw = dict(compressmode=None, **case["opts"])
    if j["dpi"] and j["dpi"][0] in (1, 2):
        f = 1 if j["dpi"][0] == 1 else 2.54
        W, H = 72 * j["w"] / j["dpi"][1] / f, 72 * j["h"] / j["dpi"][2] / f
        b = bitmap.bitmap_pt(3, 4, im, **kw)
        ctx.label("size from dpi")
    else:
        W, H = 50, 20
        b = bitmap.bitmap_pt(3, 4, im, width_pt=W, height_pt=H, **kw)
    ctx.nontrivial(True)
    c.insert(b)
    m = (W, 0, 0, H, 3, 4)
    outputs(c, [dict(im=dict(w=j["w"], h=j["h"], mode=mode, data=("dct", data), alpha=None, pal=None), corners=[app(m, p) for p in ((0, 1), (1, 1), (0, 0))], size=W + H)], True)


byte = st.one_of(st.integers(0, 255), st.sampled_from([0xff, 0xd9, 0xd8, 0xc0, 0]))
extra = st.tuples(st.sampled_from([0xe1, 0xe2, 0xed, 0xfe, 0xee]), st.lists(byte, max_size=20)).map(list)
jpegs = st.fixed_dictionaries(dict(
    jpeg=st.fixed_dictionaries(dict(w=st.integers(1, 2000), h=st.integers(1, 2000), n=st.sampled_from([1, 3, 3, 4]), progressive=st.booleans(),
                                    dpi=st.one_of(st.none(), st.tuples(st.integers(0, 2), st.integers(20, 600), st.integers(20, 600)).map(list)),
                                    extra=st.lists(extra, max_size=2), scans=st.lists(st.lists(byte, max_size=150), min_size=1, max_size=2))),
    tail=st.sampled_from([[], [0, 0], [10]]), byname=st.booleans(),
    opts=st.one_of(st.just({}), st.just({"PSstoreimage": 1}), st.just({"PSstoreimage": 1, "PSmaxstrlen": 50}), st.just({"PSbinexpand": 2}))))

SUBS += [Sub("image", cases(), check, quick=1200, thorough=40000), Sub("jpeg", jpegs, jpeg, quick=300, thorough=8000)]
