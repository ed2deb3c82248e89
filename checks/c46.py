"""C46 rasters: Ghostscript's pixels of EPS and PDF output, by writeGSfile and pipeGS, are those of the painted scene"""
import importlib, math, os, re, struct, subprocess, tempfile, zlib
import numpy as np
from hypothesis import strategies as st
from lib import prog, refpath as R, gfx
from lib.core import Ctx, Sub, Skip, ensure, fail
from lib.gen import real

PROP = "C46"
RULE = ("random scenes (nested canvases, layers, transformations, clippings, fills, strokes, colours, transparency) are rastered by writeGSfile or pipeGS from EPS or PDF; pixels which are not "
        "at an edge are compared with the colours which a painter model gives to their centres; non-trivial if at least 20 pixels of at least two colours were compared")


# ---- reading rasters ----------------------------------------------------------------------------------------------------

def png(data):
    ensure(data[:8] == b"\x89PNG\r\n\x1a\n", "not a PNG file: %r", data[:200])
    pos, idat, plte, trns = 8, b"", None, None
    while pos < len(data):
        n, typ = struct.unpack(">I4s", data[pos:pos + 8])
        d = data[pos + 8:pos + 8 + n]
        ensure(len(d) == n and struct.unpack(">I", data[pos + 8 + n:pos + 12 + n])[0] == zlib.crc32(typ + d), "damaged PNG file")
        pos += 12 + n
        if typ == b"IHDR": w, h, depth, ct, _, _, inter = struct.unpack(">IIBBBBB", d)
        elif typ == b"IDAT": idat += d
        elif typ == b"IEND": break
    ensure(pos == len(data), "%d bytes after the PNG file: %r", len(data) - pos, data[pos:pos + 200])
    ensure(depth == 8 and inter == 0 and ct in (0, 2, 6), "unexpected kind of PNG file")
    n = {0: 1, 2: 3, 6: 4}[ct]
    raw = np.frombuffer(zlib.decompress(idat), np.uint8).reshape(h, 1 + w * n).astype(int)
    out = np.zeros((h, w * n), int)
    for y in range(h):
        f, r = raw[y, 0], raw[y, 1:].copy()
        up = out[y - 1] if y else np.zeros(w * n, int)
        if f == 2: r = (r + up) % 256
        elif f:
            for i in range(w * n):
                a = r[i - n] if i >= n else 0
                c = up[i - n] if i >= n else 0
                if f == 1: v = a
                elif f == 3: v = (a + up[i]) // 2
                else:
                    p = a + up[i] - c
                    v = min((abs(p - a), 0, a), (abs(p - up[i]), 1, up[i]), (abs(p - c), 2, c))[2]
                r[i] = (r[i] + v) % 256
        out[y] = r
    return out.reshape(h, w, n)


def pnm(data):
    f, pos = [], 0
    while len(f) < (3 if data[:2] in (b"P1", b"P4") else 4):
        while data[pos:pos + 1].isspace(): pos += 1
        if data[pos:pos + 1] == b"#":
            pos = data.index(b"\n", pos)
            continue
        e = pos
        while not data[e:e + 1].isspace(): e += 1
        f.append(data[pos:e])
        pos = e
    ensure(f[0] in (b"P5", b"P6"), "not a raw raster: %r", data[:200])
    w, h, n = int(f[1]), int(f[2]), 3 if f[0] == b"P6" else 1
    ensure(len(data) - pos - 1 == w * h * n, "a raster of %d x %d x %d values has %d bytes", w, h, n, len(data) - pos - 1)
    return np.frombuffer(data[pos + 1:], np.uint8).reshape(h, w, n).astype(int)


# ---- the painter's model ------------------------------------------------------------------------------------------------

def polydist(pts, polys, closed):
    "distance of points to polylines"
    d = np.full(len(pts), np.inf)
    for p in polys:
        q = p.pts
        if closed and len(q): q = np.concatenate([q, q[:1]])
        a, v = q[:-1], np.diff(q, axis=0)
        l = (v * v).sum(1)
        a, v, l = a[l > 0], v[l > 0], l[l > 0]
        if not len(l):
            d = np.minimum(d, np.hypot(*(pts - q[0]).T))
            continue
        w = pts[:, None] - a[None]
        s = np.clip((w * v).sum(2) / l, 0, 1)
        d = np.minimum(d, np.hypot(*np.moveaxis(w - s[..., None] * v, 2, 0)).min(1))
    return d


def filled(subs, eo, pts, margin):
    "+1 inside, -1 outside, 0 close to the outline"
    P = R.polys(subs)
    n = prog.winding([p.pts for p in P], pts)
    r = np.where(n % 2 == 1 if eo else n != 0, 1, -1)
    return np.where(polydist(pts, P, True) < margin, 0, r)


def stroked(it, pts, margin):
    m = it["ctm"]
    s = np.linalg.svd(np.array([[m[0], m[1]], [m[2], m[3]]]), compute_uv=False)
    if s[1] < 0.05 or s[0] / s[1] > 20:
        raise Skip("flat pen")
    inv = gfx.inv(m)
    q = np.array([gfx.app(inv, p) for p in pts])
    g = margin / s[1]
    P = R.polys(gfx.tsubs(it["subs"], inv))
    res = np.full(len(pts), -1)
    h = it["lw"] / 2
    # miter joins and square caps reach further
    reach = h * max(it["miter"] if it["join"] == 0 else 1, 1.5)
    for p in P:
        a, v = p.pts[:-1], np.diff(p.pts, axis=0)
        l = np.hypot(*v.T)
        cum = p.cum[:-1][l > 0]
        a, v, l = a[l > 0], v[l > 0], l[l > 0]
        if not len(l):
            d = np.hypot(*(q - p.pts[0]).T)
            res = np.where((d < reach + g) & (res < 0), 0, res)
            continue
        w = q[:, None] - a[None]
        t = (w * v).sum(2) / l ** 2
        d = np.hypot(*np.moveaxis(w - np.clip(t, 0, 1)[..., None] * v, 2, 0))
        res = np.where((d.min(1) < reach + g) & (res < 0), 0, res)
        if it["dash"][0]:
            continue
        along = cum + t * l
        ok = (t >= 0) & (t <= 1) & (d < h - g) & (p.closed | (along > g) & (along < p.len - g))
        res = np.where(ok.any(1), 1, res)
    return res


def colours(items, pts, margin, transparency):
    "the colour of each of the points, nan where unsure"
    col = np.ones((len(pts), 3))
    sure = np.ones(len(pts), bool)
    opq = np.zeros(len(pts))           # coverage
    for i, it in enumerate(items):
        c = np.array(prog.rgb(it["color"]), float)
        a = it["alpha"] if transparency else 1.0
        cov = filled(it["subs"], it["evenodd"], pts, margin) if it["kind"] == "fill" else stroked(it, pts, margin)
        pair = False
        other = items[i - 1] if it["kind"] == "stroke" and i else items[i + 1] if it["kind"] == "fill" and i + 1 < len(items) else None
        if transparency and other and other["kind"] != it["kind"] and min(other["alpha"], a) < 1:
            # painted by one operator: the one might knock out the other, and Ghostscript fails if both are invisible
            pair = True
            cov = np.where(cov == 1, 0, cov)
        for subs, eo in it["clips"]:
            k = filled(subs, eo, pts, margin)
            cov = np.where((k == -1) | (cov == -1), -1, np.where((k == 0) | (cov == 0), 0, 1))
        if a == 1:
            col[cov == 1], opq[cov == 1], sure[cov == 1] = c, 1, True
        else:
            col[cov == 1] = a * c + (1 - a) * col[cov == 1]
            opq[cov == 1] = a + (1 - a) * opq[cov == 1]
        if a > 0 or pair:
            sure[cov == 0] = False
    return col, opq, sure


def uncmyk(x):
    "colour management makes the values of cmyk unforeseeable"
    if isinstance(x, list):
        return ["rgb"] + x[1:4] if x and x[0] == "cmyk" else [uncmyk(v) for v in x]
    if isinstance(x, dict):
        return {k: uncmyk(v) for k, v in x.items()}
    return x


DEV = {"png16m": png, "pngalpha": png, "ppmraw": pnm, "pnggray": png, "pgmraw": pnm, None: png}


def check(case, ctx):
    from pyx import unit
    node = uncmyk(case["node"])
    want = prog.model(node)
    want = [w for w in want if w["kind"] in ("fill", "stroke")]
    if not want:
        raise Skip("nothing painted")
    for w in want:
        prog.usable(w)
    c = prog.build(node)
    if not c.bbox():
        raise Skip("empty page")
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "page." + case["input"])
        if case["input"] == "eps":
            c.writeEPSfile(src)
            head = next((l for l in open(src, "rb").read().split(b"\n") if l.startswith(b"%%HiResBoundingBox:")), None)
            if head is None:
                raise Skip("empty page")
            box = [float(v) for v in head.split(b":")[1].split()]
        else:
            c.writePDFfile(src, write_compress=False)
            head = next((l for l in open(src, "rb").read().split(b"\n") if l.startswith(b"/MediaBox")), None)
            if head is None:
                raise Skip("empty page")
            box = [float(v) for v in head.split(b"[")[1].split(b"]")[0].split()]
        if max(box[2] - box[0], box[3] - box[1]) > 700 or min(box[2] - box[0], box[3] - box[1]) < 4:
            raise Skip("size of the page")
        # an interpreter has nothing to complain about
        r = subprocess.run(["gs", "-dSAFER", "-dBATCH", "-dNOPAUSE", "-dQUIET", "-dEPSCrop", "-sDEVICE=nullpage", src], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        msg = b"\n".join(l for l in r.stdout.split(b"\n") if l.strip())
        ensure(r.returncode == 0 and not msg, "Ghostscript says %r about the %s", msg[:500], case["input"])
        # the raster
        dev = case["device"]
        kw = dict(input=case["input"])
        if case["res"] is not None: kw["resolution"] = case["res"]
        if case["alpha"] != "default": kw["textalphabits"] = kw["graphicsalphabits"] = case["alpha"]
        if case["pipe"]:
            f = c.pipeGS(dev or "png16m", **kw)
            ensure(f.tell() == 0, "the stream returned by pipeGS is not at its begin")
            data = f.read()
        else:
            name = os.path.join(d, "out" + (".png" if dev is None else ".raster"))
            c.writeGSfile(name, **(kw if dev is None else dict(kw, device=dev)))
            data = open(name, "rb").read()
            ensure(sorted(os.listdir(d)) == sorted([os.path.basename(src), os.path.basename(name)]), "files are left behind: %r", os.listdir(d))
    img = DEV[dev](data)
    H, W, n = img.shape
    res = 100 if case["res"] is None else case["res"]
    for got, a in ((W, box[2] - box[0]), (H, box[3] - box[1])):
        ensure(abs(got - a * res / 72) <= 1.01, "the raster of a page of %r points is %d pixels long at %d dpi", a, got, res)
    px = 72 / res
    rng = np.random.RandomState(case["pick"])
    cells = np.stack([rng.randint(0, W, 500), rng.randint(0, H, 500)], axis=1)
    pts = np.stack([box[0] + (cells[:, 0] + 0.5) * px, box[1] + (H - cells[:, 1] - 0.5) * px], axis=1)
    col, opq, sure = colours(want, pts, 1.6 * px, case["input"] == "pdf")
    got = img[cells[:, 1], cells[:, 0]] / 255.0
    if n == 4:
        alpha = got[:, 3]
        e = np.where(sure, abs(alpha - opq), 0)
        k = int(e.argmax())
        ensure(e[k] <= 0.03, "pixel %r at %r has the opacity %r instead of %r", cells[k].tolist(), pts[k].tolist(), alpha[k], opq[k])
        got = got[:, :3] * alpha[:, None] + 1 - alpha[:, None]
    if n == 1:
        # luminance, linear or not: black and white only
        sure &= (col.min(1) == col.max(1)) & (np.isin(col[:, 0], (0, 1)))
        got = got[:, [0, 0, 0]]
    e = np.where(sure[:, None], abs(got - col), 0).max(1)
    k = int(e.argmax())
    ensure(e[k] <= 0.03, "pixel %r at %r of the %s is %r instead of %r", cells[k].tolist(), pts[k].round(3).tolist(), case["input"], got[k].round(4).tolist(), col[k].round(4).tolist())
    if sure.sum() >= 20 and len(np.unique(col[sure].round(3), axis=0)) > 1:
        ctx.nontrivial()
    ctx.label(case["input"])
    ctx.label("device %s" % dev)


# ---- everything else: the same page from EPS and PDF --------------------------------------------------------------------

BORROW = {"c13": ("document", "page"), "c17": ("arrow", "exclude", "hatch", "show", "brace", "text", "curvedtext"), "c18": ("gradient", "drawn", "along"), "c19": ("image",),
          "c22": ("pattern", "hatch", "mesh"), "c23": ("tex",), "c25": ("text", "file"), "c27": ("text",), "c33": ("lines", "symbols", "errorbars", "impulses", "arrows", "texts"),
          "c34": ("histograms", "rects", "bars", "densities", "grids", "surfaces"), "c35": ("lines", "surfaces", "bars"), "c36": ("smoothed", "cycloid"), "c42": ("paths", "graphs"),
          "c43": ("keys", "bars", "keygraphs"), "c44": ("fields",)}
MODS = {k: importlib.import_module("checks." + k) for k in BORROW}


class Captured(BaseException):
    pass


def prepare():
    for m in MODS.values():
        if hasattr(m, "prepare"):
            m.prepare()


def capture(mod, sub, case, tmp):
    """the first document which the check writes"""
    from pyx import pswriter, pdfwriter, svgwriter
    places = [(pswriter, "EPSwriter"), (pswriter, "PSwriter"), (pdfwriter, "PDFwriter"), (svgwriter, "SVGwriter")]
    orig = [getattr(m, n) for m, n in places]
    got = []

    def grab(document, *args, **kwargs):
        got.append(document)
        raise Captured()
    ctx = Ctx()
    ctx.tmp = tmp
    try:
        for m, n in places: setattr(m, n, grab)
        next(s for s in MODS[mod].SUBS if s.name == sub).check(case, ctx)
    except Captured:
        return got[0]
    except Exception:
        raise Skip("not written")
    finally:
        for (m, n), o in zip(places, orig): setattr(m, n, o)
    raise Skip("not written")


def gs(src, *args):
    r = subprocess.run(["gs", "-dSAFER", "-dBATCH", "-dNOPAUSE", "-dQUIET", *args, src], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    msg = b"\n".join(l for l in r.stdout.split(b"\n") if l.strip())
    ensure(r.returncode == 0 and not msg, "Ghostscript says %r about the %s", msg[:500], src[-3:])


def blocks(img, k):
    h, w = (img.shape[0] // k) * k, (img.shape[1] // k) * k
    return img[:h, :w].reshape(h // k, k, w // k, k, 3).mean((1, 3)) / 255


def checkboth(case, ctx):
    mod, sub, inner = case["mod"], case["sub"], case["case"]
    with tempfile.TemporaryDirectory() as d:
        doc = capture(mod, sub, inner, ctx.tmp)
        ctx.label(mod + " " + sub)
        imgs, boxes = {}, {}
        for fmt in ("pdf", "eps"):
            src = os.path.join(d, "page." + fmt)
            if fmt == "eps":
                if len(doc.pages) != 1 or mod == "c44":
                    break
                doc.writeEPSfile(src)
            else:
                try:
                    doc.writePDFfile(src)
                except ValueError as e:
                    if "empty bbox" in str(e):
                        raise Skip("empty page")
                    raise
            out = os.path.join(d, fmt + ".ppm")
            if fmt == "pdf":
                head = re.search(rb"/MediaBox \[(.*?)\]", open(src, "rb").read())
                box = [float(v) for v in head.group(1).split()]
                if min(box[2] - box[0], box[3] - box[1]) < 1 or max(box[2] - box[0], box[3] - box[1]) > 3500:
                    raise Skip("size of the page")
            gs(src, "-dEPSCrop", "-dTextAlphaBits=4", "-dGraphicsAlphaBits=4", "-r72", "-sDEVICE=ppmraw", "-sOutputFile=" + out.replace(".ppm", "%d.ppm"))
            imgs[fmt] = pnm(open(out.replace(".ppm", "1.ppm"), "rb").read())
        # neither transparency nor form fields in PostScript
        raw = open(os.path.join(d, "page.pdf"), "rb").read()
        differ = [k for k in (b"/ca ", b"/CA ", b"/SMask", b"/AcroForm", b"/Rotate") if k in raw]
        if len(imgs) == 2 and not differ and not doc.pages[0].paperformat:
            a, b = imgs["eps"], imgs["pdf"]
            ensure(abs(a.shape[0] - b.shape[0]) <= 1 and abs(a.shape[1] - b.shape[1]) <= 1, "the raster of the EPS is %r, of the PDF %r", a.shape, b.shape)
            h, w = min(a.shape[0], b.shape[0]), min(a.shape[1], b.shape[1])
            # the lower left corners coincide
            a, b = a[a.shape[0] - h:, :w], b[b.shape[0] - h:, :w]
            a, b = blocks(a, 4), blocks(b, 4)
            if a.size:
                e = abs(a - b).max(2)
                k = np.unravel_index(e.argmax(), e.shape)
                ensure(e[k] <= 0.3, "EPS and PDF of the same page differ at %r of %r pixels: %r and %r", [4 * int(k[1]), 4 * int(k[0])], [w, h], a[k].round(3).tolist(), b[k].round(3).tolist())
                ctx.label("compared")
        ctx.nontrivial(any((i != i[0, 0]).any() for i in imgs.values()))


def both():
    l = []
    for m, names in BORROW.items():
        for n in names:
            x = next(s for s in MODS[m].SUBS if s.name == n).strategy
            l.append((x() if callable(x) else x).map(lambda c, m=m, n=n: dict(mod=m, sub=n, case=c)))
    return st.one_of(*l)


scene = st.fixed_dictionaries(dict(node=prog.nodes(), input=st.sampled_from(["eps", "pdf"]), pipe=st.booleans(), device=st.sampled_from([None, "png16m", "pngalpha", "ppmraw", "pnggray", "pgmraw"]),
                                   res=st.sampled_from([None, 72, 50, 144]), alpha=st.sampled_from(["default", "default", None, 1, 2]), pick=st.integers(0, 999)))

# ---- names of files and devices -----------------------------------------------------------------------------------------

MAGIC = {"png": b"\x89PNG\r\n\x1a\n", "jpg": b"\xff\xd8\xff", "ppm": b"P6", "tif": b"II*\0"}
KIND = {"png16m": "png", "pnggray": "png", "pngalpha": "png", "pngmono": "png", "jpeg": "jpg", "jpeggray": "jpg", "ppmraw": "ppm", "tiff24nc": "tif"}


def checknames(case, ctx):
    import sys
    from pyx import canvas, path
    c = canvas.canvas()
    c.fill(path.rect_pt(0, 0, *case["size"]))
    dev, suffix = case["device"], case["suffix"]
    if suffix is None and dev is None:
        raise Skip("device needed")
    kw = {} if dev is None else dict(device=dev)
    if case["input"]: kw["input"] = case["input"]
    here, argv0 = os.getcwd(), sys.argv[0]
    with tempfile.TemporaryDirectory() as d, tempfile.TemporaryDirectory() as t:
        olddir = tempfile.tempdir
        try:
            tempfile.tempdir = t
            os.chdir(d)
            script = os.path.join(d, case["script"])
            sys.argv[0] = script
            name = None if suffix is None else case["name"] + suffix
            kind = KIND[dev] if dev else {".png": "png", ".jpg": "jpg"}.get(suffix)
            if case["input"] not in (None, "eps", "pdf") or suffix is None and not case["script"].endswith(".py") or name is not None and kind is None:
                try:
                    c.writeGSfile(name, **kw)
                except RuntimeError:
                    ctx.label("refused")
                    ensure(not os.listdir(d), "files are left behind: %r", os.listdir(d))
                    return
                fail("no error for %r", case)
            c.writeGSfile(name, **kw)
            files = os.listdir(d)
            ensure(len(files) == 1, "the files %r have been written", files)
            if name is None:
                ensure(files[0].startswith(case["script"][:-2]), "the file %r is not named after the script %r", files[0], case["script"])
                if kind in ("png", "jpg"):
                    ensure(files[0] == case["script"][:-2] + kind, "the file %r is not named after the script %r", files[0], case["script"])
            else:
                ensure(files[0] == name, "the file %r is named %r", name, files[0])
            data = open(files[0], "rb").read()
            ensure(data.startswith(MAGIC[kind]), "a %s file starts with %r", kind, data[:16])
            ctx.nontrivial()
            ctx.label(kind)
            # the same by a pipe
            if dev and kind != "tif":
                p = c.pipeGS(**kw).getvalue()
                ensure(p.startswith(MAGIC[kind]), "a %s file starts with %r", kind, p[:16])
                if kind == "png":
                    # (what is exactly between two pixels may be seen in either of them)
                    u, v = [struct.unpack(">II", x[16:24]) for x in (p, data)]
                    ensure(abs(u[0] - v[0]) <= 1 and abs(u[1] - v[1]) <= 1, "pipeGS gives %r, writeGSfile %r pixels", u, v)
            ensure(not os.listdir(t), "temporary files are left behind: %r", os.listdir(t))
        finally:
            tempfile.tempdir = olddir
            sys.argv[0] = argv0
            os.chdir(here)


names = st.fixed_dictionaries(dict(size=st.tuples(st.integers(3, 40), st.integers(3, 40)).map(list), device=st.one_of(st.none(), st.sampled_from(sorted(KIND))), suffix=st.sampled_from([".png", ".jpg", ".dat", "", None]),
                                   name=st.sampled_from(["a", "b c", "x.y"]), script=st.sampled_from(["plot.py", "my plot.py", "plot", "plot.pyc"]), input=st.sampled_from([None, None, "eps", "pdf", "svg", "ps"])))

SUBS = [Sub("names", names, checknames, quick=150, thorough=1500),
        Sub("raster", scene, check, quick=400, thorough=12000), Sub("both", both, checkboth, quick=600, thorough=12000)]
