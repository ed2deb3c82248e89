"""C20 an included EPS file is placed, scaled and clipped by its bounding box and does not interfere"""
import io, logging, os, tempfile
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import ps, prog, refpath as R
from lib.gfx import mul, app, tsubs, PathBuilder, ID
from checks.c11 import eps

PROP = "C20"
RULE = ("random EPS files (bounding box in the header or at the end, nested documents and data sections with misleading comments, all kinds of line ends, leftovers on the "
        "stacks, changed graphics state) are included with random parameters in random canvases and the output is interpreted; non-trivial: "
        "the file paints something and is scaled, aligned, clipped or inside of a transformed canvas")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


def body(ops):
    out = []
    for o in ops:
        k = o[0]
        if k == "stroke":
            out += ["newpath %g %g moveto %g %g lineto %g %g lineto" % tuple(o[1])] + (["closepath"] if o[2] else []) + ["stroke"]
        elif k == "fill":
            out += ["newpath", "%g %g moveto" % tuple(o[1][:2]), "%g %g lineto %g %g lineto closepath" % tuple(o[1][2:]), o[2]]
        elif k == "color":
            out.append(" ".join("%g" % v for v in o[1]) + {1: " setgray", 3: " setrgbcolor", 4: " setcmykcolor"}[len(o[1])])
        elif k == "state":
            out.append(o[1])
        elif k == "push":
            out.append("/a 1 (b) 5")
        elif k == "dict":
            out.append("3 dict begin /x 7 def")
        elif k == "path":
            out.append("newpath 1 2 moveto 30 40 lineto")
        elif k == "gsave":
            out.append("gsave 2 1 scale")
        elif k == "document":
            out += ["gsave", "%%BeginDocument: inner.eps", "%!PS-Adobe-3.0 EPSF-3.0"] + ["%%%%BoundingBox: %d %d %d %d" % tuple(o[1])] * (o[2] != 1) + ["%%EndComments"] + \
                   ["%%Trailer"] * (o[2] > 0) + ["%%%%BoundingBox: %d %d %d %d" % tuple(o[1])] * (o[2] > 0) + ["%%EOF", "%%EndDocument", "grestore"]
        elif k == "data":
            out.append(("data", o))
        elif k == "text":
            out.append("(%%Trailer) pop % %%Trailer")
    return out


def build(e):
    nl = {"n": "\n", "r": "\r", "rn": "\r\n"}[e["nl"]]
    def join(lines):
        s = ""
        for l in lines:
            if isinstance(l, tuple):
                o = l[1]
                # the section is a PostScript string, which is dropped
                inner = nl.join(["(", "%%Trailer", "%%%%BoundingBox: %d %d %d %d" % tuple(o[1]), "%%BeginDocument: x", ") pop"]) + nl
                if o[2] == "lines":
                    s += "%%%%BeginData: %d ASCII Lines" % 5 + nl + inner + "%%EndData" + nl
                elif o[2] == "bytes":
                    s += "%%%%BeginData: %d Hex Bytes" % len(inner) + nl + inner + (nl if o[3] else "") + "%%EndData" + nl
                elif o[2] == "plain":
                    s += "%%%%BeginData: %d" % len(inner) + nl + inner + (nl if o[3] else "") + "%%EndData" + nl
                else:
                    s += "%%%%BeginBinary: %d" % len(inner) + nl + inner + (nl if o[3] else "") + "%%EndBinary" + nl
            else:
                s += l + nl
        return s
    box = "%%%%BoundingBox: %d %d %d %d" % tuple(e["bbox"])
    wrong = "%%%%BoundingBox: %d %d %d %d" % tuple(v + 11 for v in e["bbox"])
    h = ["%!PS-Adobe-3.0 EPSF-3.0"]
    com = ["%%Creator: somebody", "%%Title: a title", "%%HiResBoundingBox: 1.5 1.5 2.5 2.5", "%%DocumentData: Clean7Bit"]
    h += com[:e["before"]]
    if e["atend"]:
        h += ["%%BoundingBox: (atend)"]
    else:
        h += [box]
        if e["more"]:
            h += [wrong]
    h += com[e["before"]:e["before"] + e["after"]]
    h += ["%" + "x" * 300] * e["long"]
    if e["endcomments"]:
        h += ["%%EndComments"]
    b = body(e["ops"])
    if e["showpage"]:
        b += ["showpage"]
    t = []
    if e["trailer"] or e["atend"]:
        t = ["%%Trailer"]
        if e["atend"]:
            if e["more"]:
                t += [wrong]
            t += [box]
        elif e["more"]:
            t += [wrong]
    if e["eof"]:
        t += ["%%EOF"]
    s = join(h + ["/inner 1 def"] * (not e["endcomments"]) + b + t)
    if e["nofinal"]:
        s = s[:-len(nl)]
    return s.encode("ascii")


def mapped(items, m, clip):
    out = []
    for i in items:
        i = dict(i)
        i["subs"] = tsubs(i["subs"], m)
        i["ctm"] = mul(i["ctm"], m)
        i["clips"] = ([clip] if clip else []) + [(tsubs(s, m), e) for s, e in i["clips"]]
        out.append(i)
    return out


def rect(box, m):
    b = PathBuilder()
    x0, y0, x1, y1 = box
    for i, p in enumerate(((x0, y0), (x1, y0), (x1, y1), (x0, y1))):
        (b.lineto if i else b.moveto)(m, *p)
    b.closepath()
    return (b.subs, False)


def check(case, ctx):
    from pyx import canvas, epsfile, unit, trafo, path, color, style, deco, bbox as bb
    e, a = case["eps"], case["args"]
    data = build(e)
    alone = ps.interpret(data)
    inner = [x for p in alone.pages for x in p] + alone.out
    # as an EPS file alone the initial line width is 1
    u = unit.t_pt
    kw = dict(align=a["align"], clip=a["clip"], translatebbox=a["translatebbox"])
    box = e["bbox"]
    if a["bbox"] is not None:
        box = a["bbox"]
        kw["bbox"] = bb.bbox_pt(*box)
    w, h = box[2] - box[0], box[3] - box[1]
    sx = sy = 1
    if a["size"][0] == "scale":
        sx = sy = a["size"][1]
        kw["scale"] = sx
    elif a["size"][0] != "none":
        if "w" in a["size"][0]:
            kw["width"] = a["size"][1] * u
            sx = a["size"][1] / w
        if "h" in a["size"][0]:
            kw["height"] = a["size"][2] * u
            sy = a["size"][2] / h
        if a["size"][0] == "w": sy = sx
        if a["size"][0] == "h": sx = sy
    x, y = a["pos"]
    m = (sx, 0, 0, sy, x - {"l": 0, "c": .5, "r": 1}[a["align"][1]] * w * sx, y - {"b": 0, "c": .5, "t": 1}[a["align"][0]] * h * sy)
    if a["translatebbox"]:
        m = mul((1, 0, 0, 1, -box[0], -box[1]), m)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "in.eps")
        with open(fn, "wb") as f:
            f.write(data)
        o = epsfile.epsfile(x * u, y * u, fn, **kw)
        got = o.bbox()
        got = [got.llx_pt, got.lly_pt, got.urx_pt, got.ury_pt]
        want = [*app(m, box[:2]), *app(m, box[2:])]
        ensure(all(abs(p - q) < 1e-6 * (1 + abs(q)) for p, q in zip(got, want)), "bounding box %r, expected %r", got, want)
        if a["translatebbox"]:
            for i, k in ((0, a["align"][1]), (1, a["align"][0])):
                p = {"l": want[i], "b": want[i], "c": (want[i] + want[i + 2]) / 2, "r": want[i + 2], "t": want[i + 2]}[k]
                ensure(abs(p - (x, y)[i]) < 1e-6 * (1 + abs(p)), "alignment")
        attrs, cm = [], ID
        if case["trafo"]:
            s, r, dx, dy = case["trafo"]
            attrs.append(trafo.scale(s).rotated(r).translated_pt(dx, dy))
            import math
            c_, s_ = math.cos(math.radians(r)), math.sin(math.radians(r))
            cm = mul(mul((s, 0, 0, s, 0, 0), (c_, s_, -s_, c_, 0, 0)), (1, 0, 0, 1, dx, dy))
        if case["styles"]:
            attrs += [color.rgb(1, 0, 0), style.linewidth(7 * u), style.linecap.round, style.linejoin.bevel, style.miterlimit(3), style.dash([2, 1])]
        c = canvas.canvas(attrs)
        mark = path.line_pt(0, 0, 10, 10)
        c.stroke(mark)
        c.insert(o)
        c.stroke(mark)
        c.insert(o)
        c.stroke(path.line_pt(0, 0, 10, 20))
        outer = canvas.canvas([])
        outer.insert(c)
        f = io.BytesIO()
        outer.writeEPSfile(f)
        raw = f.getvalue()
    it = ps.interpret(raw)
    got = [x for p in it.pages for x in p] + it.out
    ensure(len(it.pages) <= 1, "%d pages", len(it.pages))
    k = len(inner)
    ensure(len(got) == 3 + 2 * k, "%d painting operations, expected %d", len(got), 3 + 2 * k)
    mine = [got[0], got[1 + k], got[2 + 2 * k]]
    for g in mine[1:]:
        for n in ("color", "lw", "cap", "join", "miter", "dash", "ctm", "clips"):
            ensure(g[n] == mine[0][n], "%s after the EPS file is %r, before it was %r", n, g[n], mine[0][n])
    mm = mul(m, cm)
    want = mapped(inner, mm, rect(box, mm) if a["clip"] else None)
    ctx.nontrivial(bool(prog.ink(inner)) and (a["size"][0] != "none" or a["align"] != "bl" or a["clip"] or case["trafo"] is not None))
    ctx.label("atend", e["atend"])
    psame(want, got[1:1 + k], "first copy")
    psame(want, got[2 + k:2 + 2 * k], "second copy")
    # document structure
    lines = [l for l in raw.replace(b"\r\n", b"\n").replace(b"\r", b"\n").split(b"\n")]
    nb, ne = sum(l.startswith(b"%%BeginDocument") for l in lines), sum(l.rstrip() == b"%%EndDocument" for l in lines)
    nb -= 2 * sum(o[0] == "data" for o in e["ops"])
    ensure(nb == ne, "%d BeginDocument, %d EndDocument comments", nb, ne)


def psame(want, got, what):
    ensure([w["kind"] for w in want] == [g["kind"] for g in got], "%s: kinds", what)
    for i, (w, g) in enumerate(zip(want, got)):
        ensure(tuple(w["color"]) == tuple(g["color"]), "%s: colour %r, expected %r", what, g["color"], w["color"])
    prog.same([dict(w, color=("gray", 0.0)) for w in want], [dict(g, color=("gray", 0.0)) for g in got], what)




coord = st.integers(-20, 120)
pts = lambda n: st.lists(coord, min_size=2 * n, max_size=2 * n)
boxes = st.tuples(st.integers(-30, 60), st.integers(-30, 60), st.integers(1, 150), st.integers(1, 150)).map(lambda t: [t[0], t[1], t[0] + t[2], t[1] + t[3]])
ops = st.one_of(
    st.tuples(st.just("stroke"), pts(3), st.booleans()).map(list), st.tuples(st.just("stroke"), pts(3), st.booleans()).map(list),
    st.tuples(st.just("fill"), pts(3), st.sampled_from(["fill", "eofill"])).map(list),
    st.sampled_from([[.5], [1, 0, .25], [0, .5, 1], [.1, .2, .3, .4]]).map(lambda c: ["color", c]),
    st.sampled_from(["3 setlinewidth", "1 setlinecap", "2 setlinejoin", "5 setmiterlimit", "[3 2] 1 setdash", "2 2 scale", "30 rotate", "10 20 translate"]).map(lambda s: ["state", s]),
    st.sampled_from([["push"], ["dict"], ["path"], ["text"]]),
    st.tuples(st.just("document"), boxes, st.integers(0, 2)).map(list),
    st.tuples(st.just("data"), boxes, st.sampled_from(["lines", "bytes", "plain", "binary"]), st.booleans()).map(list))
files = st.fixed_dictionaries(dict(bbox=boxes, nl=st.sampled_from(["n", "n", "r", "rn"]), before=st.integers(0, 2), after=st.integers(0, 2), atend=st.booleans(), more=st.booleans(),
                                   long=st.integers(0, 1), endcomments=st.booleans(), showpage=st.booleans(), trailer=st.booleans(), eof=st.booleans(), nofinal=st.booleans(),
                                   ops=st.lists(ops, min_size=1, max_size=7)))
sizes = st.one_of(st.just(["none"]), st.sampled_from([.5, 2, 1, 3.3]).map(lambda s: ["scale", s]),
                  st.tuples(st.sampled_from(["w", "h", "wh"]), st.integers(5, 300), st.integers(5, 300)).map(list))
args = st.fixed_dictionaries(dict(pos=st.tuples(coord, coord).map(list), size=sizes, align=st.sampled_from([a + b for a in "bct" for b in "lcr"]), clip=st.integers(0, 1),
                                  translatebbox=st.sampled_from([1, 1, 0]), bbox=st.one_of(st.none(), st.none(), boxes)))
cases = st.fixed_dictionaries(dict(eps=files, args=args, styles=st.booleans(),
                                   trafo=st.one_of(st.none(), st.tuples(st.sampled_from([.5, 2]), st.sampled_from([0, 30, 90]), coord, coord).map(list))))


# ---- the line reader -----------------------------------------------------------------------------------

def reader(case, ctx):
    from pyx import epsfile
    data = "".join(case["text"]).encode("ascii")
    r = epsfile.linefilereader(io.BytesIO(data), typicallinelen=case["len"])
    pos = 0
    ctx.nontrivial(len(data) > 5)
    for o in case["ops"]:
        rest = data[pos:]
        if o == "line":
            i = min([k for k in (rest.find(b"\n"), rest.find(b"\r")) if k >= 0], default=None)
            if i is None:
                want = rest
            else:
                want = rest[:i + (2 if rest[i:i + 2] == b"\r\n" else 1)]
            if not want:
                ensure(r.readline(EOFmsg=None) == b"", "line at the end of the file")
                try:
                    r.readline()
                except IOError:
                    continue
                fail("no error at the end of the file")
            got = r.readline()
        elif o == "rest":
            want = rest
            got = r.read(EOFmsg=None)
        else:
            want = rest[:o]
            if len(want) < o:
                got = r.read(o, EOFmsg=None)
            else:
                got = r.read(o)
        ensure(got == want, "%r reads %r, expected %r of %r", o, got, want, rest[:50])
        pos += len(want)


reads = st.fixed_dictionaries(dict(text=st.lists(st.sampled_from(["\n", "\r", "\r\n", "a", "bc", "%%", "defghijkl"]), max_size=25), len=st.integers(1, 12),
                                   ops=st.lists(st.one_of(st.just("line"), st.just("line"), st.integers(0, 9), st.just("rest")), min_size=1, max_size=12)))

SUBS += [Sub("include", cases, check, quick=1000, thorough=40000), Sub("linereader", reads, reader, quick=600, thorough=20000)]
