"""C14 output files are well formed and hold the requested metadata"""
import calendar, io, logging, os, re, sys, tempfile, time, zlib
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import ps, svg, pdf, prog, heads

PROP = "C14"
RULE = ("small random drawings written with random metadata (any Unicode text in PDF, printable ASCII in PostScript), time zones, dates and writer options to streams and "
        "to files named with and without suffix; the files are parsed by strict readers (PDF cross-reference table, stream lengths, references, page tree, operators and resources; "
        "PostScript structuring conventions; SVG as XML) and the metadata decoded; non-trivial: metadata with characters that need escaping, or an option differing from its default")

EPOCH = 1600000000


def prepare():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


PDFDOC = {0x18: 0x2d8, 0x19: 0x2c7, 0x1a: 0x2c6, 0x1b: 0x2d9, 0x1c: 0x2dd, 0x1d: 0x2db, 0x1e: 0x2da, 0x1f: 0x2dc, 0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021,
          0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x192, 0x87: 0x2044, 0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c,
          0x8e: 0x201d, 0x8f: 0x2018, 0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x141, 0x96: 0x152, 0x97: 0x160, 0x98: 0x178,
          0x99: 0x17d, 0x9a: 0x131, 0x9b: 0x142, 0x9c: 0x153, 0x9d: 0x161, 0x9e: 0x17e, 0xa0: 0x20ac}


def textstring(b):
    if b[:2] == b"\xfe\xff":
        return b[2:].decode("utf-16-be")
    return "".join(chr(PDFDOC.get(c, c)) for c in b)


def pdfdate(s):
    m = re.fullmatch(r"D:(\d{4})(?:(\d\d)(?:(\d\d)(?:(\d\d)(?:(\d\d)(\d\d)?)?)?)?)?(?:Z(?:00'00'?)?|([+-])(\d\d)'(?:(\d\d)'?)?)?", s)
    ensure(m, "%r is not a PDF date", s)
    y, mo, d, h, mi, se = [int(v) if v else w for v, w in zip(m.groups()[:6], (0, 1, 1, 0, 0, 0))]
    ensure(1 <= mo <= 12 and 1 <= d <= 31 and h < 24 and mi < 60 and se < 60, "date %r", s)
    off = 0
    if m.group(7):
        ensure(int(m.group(8)) < 24 and int(m.group(9) or 0) < 60, "date %r", s)
        off = (int(m.group(8)) * 60 + int(m.group(9) or 0)) * (1 if m.group(7) == "+" else -1)
    return calendar.timegm((y, mo, d, h, mi, se)) - 60 * off


def check(case, ctx):
    from pyx import document, unit
    c = prog.build(case["node"])
    if not c.bbox():
        raise Skip("nothing on the page")
    d = document.document([document.page(c, paperformat=document.paperformat.A4 if case["paper"] else None) for i in range(case["npages"])])
    old = {k: os.environ.get(k) for k in ("TZ", "SOURCE_DATE_EPOCH")}
    try:
        os.environ["TZ"] = case["tz"]
        time.tzset()
        if case["epoch"] is not None:
            os.environ["SOURCE_DATE_EPOCH"] = str(case["epoch"])
        else:
            os.environ.pop("SOURCE_DATE_EPOCH", None)
        t0 = time.time()
        written(d, case, ctx)
        t1 = time.time()
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        time.tzset()


def when(s, case):
    if case["epoch"] is None:
        now = time.time()
        ensure(now - 200 <= s <= now + 60, "creation date is off by %d s from now", s - now)
    else:
        ensure(0 <= case["epoch"] - s < 60, "creation date is off by %d s from SOURCE_DATE_EPOCH", s - case["epoch"])


def written(d, case, ctx):
    o = case["options"]
    meta = {k: v for k, v in case["meta"].items() if v is not None}
    if not any(b for b in meta.values()) and not o:
        pass
    ctx.nontrivial(any(re.search(r"[^A-Za-z0-9 ]", v) for v in meta.values()) or bool(o))
    ctx.label("non-ASCII", any(ord(x) > 126 for v in meta.values() for x in v))
    ctx.label("beyond latin-1", any(ord(x) > 255 for v in meta.values() for x in v))
    f = io.BytesIO()
    d.writePDFfile(f, **meta, **o)
    p = pdf.PDF(f.getvalue())
    ensure(len(p.pages) == case["npages"], "%d pages", len(p.pages))
    for k in ("title", "author", "subject", "keywords"):
        v = p.info.get(k.capitalize())
        if meta.get(k):
            ensure(isinstance(v, bytes), "%s is missing in the PDF information", k)
            ensure(textstring(v) == meta[k], "%s %r, expected %r", k, textstring(v), meta[k])
        else:
            ensure(not v, "%s %r", k, v)
    when(pdfdate(p.info["CreationDate"].decode("latin-1")), case)
    ensure((p.root.get("PageMode") == "FullScreen") == bool(o.get("fullscreen")), "page mode %r", p.root.get("PageMode"))
    for pg in p.pages:
        ensure(("CropBox" in pg) == bool(o.get("writebbox")), "CropBox without writebbox or vice versa")
        s = p.get(pg["Contents"])
        if o.get("compress", True):
            ensure(p.get(s.dic.get("Filter")) == "FlateDecode", "content stream is not compressed")
            ensure(s.raw == zlib.compress(s.data(), o.get("compresslevel", 6)), "content is not compressed with level %r", o.get("compresslevel", 6))
        else:
            ensure("Filter" not in s.dic, "content stream is compressed")
        p.interpret(pg)
    title = meta.get("title")
    if title is not None and not re.fullmatch(r"[ -~]{1,200}", title):
        title = None
    kw = dict(title=title) if title else {}
    f = io.BytesIO()
    d.writePSfile(f, **kw)
    h = heads.document(f.getvalue(), False)
    if title:
        ensure(h["Title"] == title.strip(), "%%%%Title %r, expected %r", h["Title"], title)
    t = time.strptime(h["CreationDate"])
    if case["epoch"] is not None:
        ensure(calendar.timegm(t) == case["epoch"], "creation date %r", h["CreationDate"])
    ps.interpret(f.getvalue())
    f = io.BytesIO()
    if case["npages"] == 1:
        d.writeEPSfile(f, **kw)
        heads.document(f.getvalue(), True)
        f = io.BytesIO()
        d.writeSVGfile(f)
        svg.Doc(f.getvalue())
    else:
        for m in ("writeEPSfile", "writeSVGfile"):
            try:
                getattr(d, m)(f)
            except ValueError:
                pass
            else:
                fail("%s of a document with %d pages", m, case["npages"])


special = st.text(alphabet=st.sampled_from(list("ab ()[]<>\\/%{}#'\"1~\x7f\n\téäß€\u0394\u4e2d\U0001f600\xad\x80\xa0")), max_size=12)
meta = st.one_of(st.none(), special, st.text(max_size=8).filter(lambda s: not any(0xd800 <= ord(c) < 0xe000 for c in s)), st.sampled_from(["Title", "caf\xe9", "(x", "a)b"]))
small = st.fixed_dictionaries(dict(attrs=st.just([]), items=st.lists(st.tuples(st.sampled_from(["stroke", "fill"]), prog.path_strategy(2),
                                                                              st.lists(prog.styles(), max_size=1)).map(list), min_size=1, max_size=1)))
options = st.fixed_dictionaries({}, optional=dict(compress=st.booleans(), compresslevel=st.integers(1, 9), fullscreen=st.booleans(), writebbox=st.booleans(),
                                                  stripfonts=st.booleans(), textaspath=st.booleans(), meshasbitmap=st.booleans(), meshasbitmapresolution=st.integers(10, 300)))
strategy = st.fixed_dictionaries(dict(node=small, npages=st.sampled_from([1, 1, 2]), paper=st.booleans(),
                                      meta=st.fixed_dictionaries(dict(title=meta, author=meta, subject=meta, keywords=meta)),
                                      tz=st.sampled_from(["UTC0", "CET-1CEST", "EST5EDT", "IST-5:30", "NST3:30NDT", "XXX-14", "America/New_York", "Europe/Berlin"]),
                                      epoch=st.one_of(st.none(), st.integers(0, 2000000000)), options=options))


# ---- files and options -----------------------------------------------------------------------------

def filecheck(case, ctx):
    from pyx import document
    c = prog.build(case["node"])
    if not c.bbox():
        raise Skip("nothing on the page")
    os.environ["SOURCE_DATE_EPOCH"] = str(EPOCH)
    suffix, how = case["suffix"], case["how"]
    o = {k: v for k, v in case["options"].items() if suffix != "svg" or "resolution" in k or "text" in k}
    d = document.document([document.page(c)])
    method = {"eps": "writeEPSfile", "ps": "writePSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}[suffix]
    f = io.BytesIO()
    getattr(d, method)(f, **o)
    ref = f.getvalue()
    ctx.nontrivial(bool(o) or how != "name")
    ctx.label(how)
    ensure(not f.closed, "the stream was closed")
    pk = {"write_" + k: v for k, v in o.items()}
    with tempfile.TemporaryDirectory(prefix="verif-c14-") as tmp:
        base = os.path.join(tmp, case["base"])
        full = base + "." + suffix
        if how == "name":
            getattr(d, method)(full, **o)
        elif how == "bare":
            getattr(d, method)(base, **o)
        elif how == "writetofile":
            d.writetofile(full, **o)
        elif how == "canvas":
            getattr(c, method)(full, **pk)
        elif how == "canvas bare":
            getattr(c, method)(base, **pk)
        elif how == "canvas writetofile":
            c.writetofile(full, **pk)
        elif how == "file":
            with open(full, "wb") as f:
                getattr(d, method)(f, **o)
                ensure(not f.closed, "the file was closed")
        else:
            old = sys.argv[0]
            try:
                sys.argv[0] = base + ".py"
                getattr(c, method)(**pk)
            finally:
                sys.argv[0] = old
        ensure(os.listdir(tmp) == [os.path.basename(full)], "files %r, expected %r", os.listdir(tmp), os.path.basename(full))
        with open(full, "rb") as f:
            data = f.read()
        ensure(data == ref, "the file differs from what is written to a stream")
        try:
            d.writetofile(os.path.join(tmp, case["base"] + ".xyz"))
        except ValueError:
            pass
        else:
            fail("writetofile with suffix .xyz")


filestrategy = st.fixed_dictionaries(dict(node=small, suffix=st.sampled_from(["eps", "ps", "pdf", "svg"]), base=st.sampled_from(["out", "a.b", "x y", "out.ps1"]),
                                          how=st.sampled_from(["name", "bare", "writetofile", "canvas", "canvas bare", "canvas writetofile", "file", "script"]),
                                          options=st.fixed_dictionaries({}, optional=dict(
                                              stripfonts=st.booleans(), textaspath=st.booleans(), meshasbitmap=st.booleans(), meshasbitmapresolution=st.integers(10, 300),
                                              strip_fonts=st.booleans(), text_as_path=st.booleans(), mesh_as_bitmap=st.booleans(), mesh_as_bitmap_resolution=st.integers(10, 300)))))
SUBS = [Sub("metadata", strategy, check, quick=2500, thorough=40000), Sub("files", filestrategy, filecheck, quick=1200, thorough=20000)]
