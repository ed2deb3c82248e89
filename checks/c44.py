"""C44 form fields of PDF documents"""
import io, logging, os, sys
from hypothesis import strategies as st
from lib.core import Sub, ensure, Skip
from lib import pdf

PROP = "C44"
RULE = ("random PDF documents of one to three pages carrying text fields, check boxes, radio buttons and choice fields in nested canvases with translations, scalings "
        "and fill styles are read by a strict PDF parser and compared field by field with what was asked for; non-trivial: two fields or more, or a canvas around the field, or "
        "a name or value with a special character")
SUBS = []
CM = 72 / 2.54

FONTS = ["Times-Roman", "Times-Bold", "Helvetica", "Courier", "Helvetica-Oblique"]
COMMON = ["invisible", "hidden", "printable", "nozoom", "norotate", "noview", "readonly", "required", "noexport"]
TEXTFLAGS = COMMON + ["multiline", "password", "fileselect", "donotspellcheck", "donotscroll"]
RADIOFLAGS = COMMON + ["notoggletooff"]
CHOICEFLAGS = COMMON + ["combo", "edit", "sort", "multiselect", "donotspellcheck"]
ANNOT = {"invisible": 1, "hidden": 2, "printable": 3, "nozoom": 4, "norotate": 5, "noview": 6, "readonly": 7}
FIELD = {"readonly": 1, "required": 2, "noexport": 3, "multiline": 13, "password": 14, "notoggletooff": 15, "radio": 16, "pushbutton": 17, "combo": 18, "edit": 19,
         "sort": 20, "fileselect": 21, "multiselect": 22, "donotspellcheck": 23, "donotscroll": 24}
DEFAULTS = {"text": {"printable", "donotspellcheck"}, "choice": {"printable", "combo", "donotspellcheck"}, "check": {"printable"}, "radio": {"printable"}}


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


def close(a, b, tol):
    return abs(a - b) <= tol


num = st.integers(-40, 40).map(lambda i: i / 4)
pos = st.integers(1, 30).map(lambda i: i / 4)
ascii_ = st.text(st.sampled_from("abcXYZ 019()\\<>[]/%#'`\"-_.,"), min_size=1, max_size=8)
wide = st.one_of(ascii_, ascii_, st.text(st.sampled_from("ab(\\\u00e4\u00e9\u00df\u20ac\u03b1\u4e2d"), min_size=1, max_size=5))
word = st.text(st.sampled_from("abcdeABC012"), min_size=1, max_size=6)


def flags(names):
    return st.lists(st.tuples(st.sampled_from(names), st.booleans()).map(list), max_size=3, unique_by=lambda x: x[0])


kinds = dict(
    text=st.fixed_dictionaries(dict(kind=st.just("text"), x=num, y=num, w=pos, h=pos, value=st.one_of(st.just(""), ascii_, st.lists(ascii_, min_size=2, max_size=3).map("\n".join)),
                                    size=st.sampled_from([10, 8, 12.5, 20]), font=st.sampled_from(FONTS + [None]), leading=st.sampled_from([1.16, 1, 1.5]),
                                    border=st.sampled_from([0, 0, 1, 2.5]), align=st.sampled_from("lcr"), flags=flags(TEXTFLAGS), length=st.booleans())),
    check=st.fixed_dictionaries(dict(kind=st.just("check"), x=num, y=num, on=st.booleans(), size=st.sampled_from([10, 8, 15]), base=st.sampled_from([0.2, 0, 0.5]), flags=flags(COMMON))),
    radio=st.fixed_dictionaries(dict(kind=st.just("radio"), values=st.lists(st.one_of(word, word, ascii_.filter(lambda s: s.strip())), min_size=1, max_size=4, unique=True),
                                     positions=st.lists(st.tuples(num, num).map(list), min_size=4, max_size=4),
                                     default=st.one_of(st.none(), st.integers(0, 3)), size=st.sampled_from([10, 8, 15]), base=st.sampled_from([0.2, 0, 0.5]), flags=flags(RADIOFLAGS))),
    choice=st.fixed_dictionaries(dict(kind=st.just("choice"), x=num, y=num, w=pos, h=pos, values=st.lists(wide, min_size=1, max_size=4, unique=True),
                                      default=st.one_of(st.none(), st.integers(0, 3), st.just("other")), size=st.sampled_from([10, 8, 12.5]), font=st.sampled_from(FONTS + [None]),
                                      border=st.sampled_from([0, 0, 1]), align=st.sampled_from("lcr"), flags=flags(CHOICEFLAGS), length=st.booleans())))
field = st.one_of(*kinds.values())
trafos = st.lists(st.one_of(st.tuples(st.just("t"), num, num).map(list), st.tuples(st.just("s"), st.sampled_from([0.5, 2, 0.3, 1.25])).map(list)), max_size=2)
colors = st.one_of(st.none(), st.none(), st.tuples(*[st.sampled_from([0, 0.25, 1])] * 3).map(list))


@st.composite
def canvases(draw, depth=2):
    items = []
    for i in range(draw(st.integers(1 if depth == 2 else 0, 3))):
        if depth and draw(st.integers(0, 2)) == 0:
            items.append(draw(canvases(depth - 1)))
        elif draw(st.integers(0, 4)) == 0:
            items.append(dict(kind="rect", x=draw(num), y=draw(num), w=draw(pos), h=draw(pos)))
        else:
            items.append(draw(field))
    return dict(kind="canvas", trafos=draw(trafos), color=draw(colors), items=items)


strategy = st.fixed_dictionaries(dict(pages=st.lists(canvases(), min_size=1, max_size=3), compress=st.booleans(), names=st.lists(wide, min_size=4, max_size=4, unique=True)))


def build(node, todo, names):
    """pyx canvas; fields with their names are collected in todo as (field, name, (scale, dx, dy), colors)"""
    from pyx import canvas, color, trafo, path, pdfextra, unit
    font = sys.modules["pyx.font.font"]

    def one(node, m, cols):
        attrs = []
        # the transformations of an attribute list are applied one after the other
        s, dx, dy = 1.0, 0.0, 0.0
        for t in node["trafos"]:
            if t[0] == "t":
                attrs.append(trafo.translate(t[1], t[2]))
                dx, dy = dx + t[1] * CM, dy + t[2] * CM
            else:
                attrs.append(trafo.scale(t[1]))
                s, dx, dy = s * t[1], dx * t[1], dy * t[1]
        m = (m[0] * s, m[1] + m[0] * dx, m[2] + m[0] * dy)
        if node["color"]:
            attrs.append(color.rgb(*node["color"]))
            cols = cols + [node["color"]]
        c = canvas.canvas(attrs)
        for it in node["items"]:
            k = it["kind"]
            if k == "canvas":
                c.insert(one(it, m, cols))
                continue
            if k == "rect":
                c.stroke(path.rect(it["x"], it["y"], it["w"], it["h"]))
                continue
            name = "%s%d" % (names[len(todo) % len(names)], len(todo))
            todo.append((it, name, m, cols))
            kw = {n: int(v) for n, v in it["flags"]}
            L = (lambda v: v * unit.t_cm) if it.get("length") else (lambda v: v)
            if it.get("font"):
                kw["font"] = getattr(font, "PDF" + it["font"].replace("-", ""))
            if k == "text":
                f = pdfextra.textfield(L(it["x"]), L(it["y"]), L(it["w"]), L(it["h"]), name, defaultvalue=it["value"], fontsize=it["size"], fontrelleading=it["leading"],
                                       borderwidth=it["border"], align=it["align"], **kw)
            elif k == "choice":
                f = pdfextra.choicefield(L(it["x"]), L(it["y"]), L(it["w"]), L(it["h"]), name, it["values"], defaultvalue=default(it), fontsize=it["size"],
                                         borderwidth=it["border"], align=it["align"], **kw)
            elif k == "check":
                f = pdfextra.checkbox(it["x"], it["y"], name, defaulton=it["on"], size=it["size"], baselinerelpos=it["base"], **kw)
            else:
                f = pdfextra.radiobuttons(it["positions"][:len(it["values"])], name, it["values"], defaultvalue=default(it), size=it["size"], baselinerelpos=it["base"], **kw)
            c.insert(f)
        return c
    return one(node, (1.0, 0.0, 0.0), [])


def default(it):
    d = it["default"]
    return it["values"][d % len(it["values"])] if isinstance(d, int) else d


def decode(s):
    "a PDF text string"
    ensure(isinstance(s, bytes), "%r is no string", s)
    return s[2:].decode("utf-16-be") if s.startswith(b"\xfe\xff") else s.decode("latin-1")


def bits(it, table):
    on = set(DEFAULTS[it["kind"]])
    for n, v in it["flags"]:
        (on.add if v else on.discard)(n)
    if it["kind"] == "radio":
        on.add("radio")
    return sum(1 << table[n] - 1 for n in on if n in table)


def rect(d):
    r = d.get("Rect")
    ensure(isinstance(r, list) and len(r) == 4, "rectangle %r", r)
    return r


def samerect(r, want, what):
    for a, b in zip(r, want):
        ensure(abs(a - b) < 1e-4 + 1e-6 * abs(b), "%s at %r instead of %r", what, r, want)


def tokens(data):
    l = pdf.Lexer(data)
    out = []
    while True:
        t = l.token()
        if t is None:
            return out
        out.append(t)


def shown(content):
    "fonts and strings shown by the content of an appearance"
    font, out, stack, depth = None, [], [], 0
    for t in tokens(content):
        if isinstance(t, pdf.Op) and t not in ("[", "]", "<<", ">>"):
            if t == "Tf":
                font = stack[-2:]
            elif t == "BT":
                ensure(depth == 0, "nested text objects")
                depth = 1
            elif t == "ET":
                depth = 0
            elif t in ("Tj", "'"):
                ensure(font and depth, "text without a font or outside of a text object")
                out.append((str(font[0]), font[1], stack[-1]))
            stack = []
        else:
            stack.append(t)
    return out


def appearance(p, ref, what):
    s = p.get(ref)
    ensure(isinstance(s, pdf.Stream) and s.dic.get("Type") == "XObject" and s.dic.get("Subtype") == "Form", "%s: the appearance is no form", what)
    fonts = p.get(p.get(s.dic.get("Resources", {})).get("Font", {}))
    out = shown(s.data())
    for f, size, t in out:
        ensure(f in fonts, "%s: font %s of the appearance is not in its resources %r", what, f, fonts)
        ensure(p.get(fonts[f]).get("BaseFont") == f, "%s: font %s is %r", what, f, p.get(fonts[f]))
    return s, out


def defaultappearance(p, w, it, m, cols, what):
    f = it["font"] or "Helvetica"
    ensure(isinstance(w.get("DA"), bytes), "%s: no default appearance string", what)
    t = tokens(w["DA"])
    i = t.index("Tf")
    ensure(str(t[i - 2]) == f and close(t[i - 1], it["size"] * m[0], 1e-5), "%s: default appearance %r instead of font %s at %r", what, w["DA"], f, it["size"] * m[0])
    fonts = p.get(p.get(w.get("DR", {})).get("Font", {}))
    ensure(f in fonts and p.get(fonts[f]).get("BaseFont") == f, "%s: font %s is missing in the default resources %r", what, f, fonts)
    if it["kind"] == "text":
        cs = [t[i - 3:i] for i, x in enumerate(t) if isinstance(x, pdf.Op) and x == "rg"]
        want = cols[-1] if cols else None
        ensure((cs[-1] if cs else None) == want, "%s: fill color %r instead of %r", what, cs, want)
        i = t.index("TL")
        ensure(close(t[i - 1], it["leading"] * it["size"] * m[0], 1e-5), "%s: leading %r", what, w["DA"])


def check(case, ctx):
    from pyx import document
    todo, counts, docpages = [], [], []
    for n in case["pages"]:
        docpages.append(document.page(build(n, todo, case["names"])))
        counts.append(len(todo))
    if not todo or any(not pg.canvas.bbox() for pg in docpages):
        raise Skip("nothing on a page")
    f = io.BytesIO()
    document.document(docpages).writePDFfile(f, compress=case["compress"])
    p = pdf.PDF(f.getvalue())
    ensure(len(p.pages) == len(docpages), "%d pages instead of %d", len(p.pages), len(docpages))
    ctx.nontrivial(len(todo) > 1 or todo[0][2] != (1, 0, 0) or not todo[0][1].isalnum())
    ctx.label("pages", len(docpages))
    ctx.label("fields", len(todo))
    for it, *_ in todo:
        ctx.label(it["kind"])

    form = p.get(p.root.get("AcroForm"))
    ensure(isinstance(form, dict), "no form in the catalog")
    fields = form.get("Fields")
    ensure(isinstance(fields, list) and len(set(fields)) == len(fields), "fields of the form %r", fields)
    byname = {}
    for r in fields:
        byname.setdefault(decode(p.get(r).get("T")), []).append(r)
    ensure(sorted(byname) == sorted(n for _, n, *_ in todo) and all(len(v) == 1 for v in byname.values()), "fields %r of the form instead of %r", sorted(byname), [n for _, n, *_ in todo])

    lo = 0
    for page, hi in zip(p.pages, counts):
        annots = p.get(page.get("Annots", []))
        want = []
        for it, name, m, cols in todo[lo:hi]:
            r = byname[name][0]
            want += p.get(r)["Kids"] if it["kind"] in ("check", "radio") else [r]
        ensure(len(set(annots)) == len(annots) and set(annots) == set(want), "page shows the annotations %r instead of %r (%s)", annots, want, [n for _, n, *_ in todo[lo:hi]])
        lo = hi

    for it, name, m, cols in todo:
        w = p.get(byname[name][0])
        what = "%s %r" % (it["kind"], name)
        for k in "TU", "TM":
            ensure(decode(w.get(k)) == name, "%s: /%s is %r", what, k, w.get(k))
        if it["kind"] in ("text", "choice"):
            ensure(w.get("Type") == "Annot" and w.get("Subtype") == "Widget", "%s is no widget", what)
            ensure(w.get("FT") == {"text": "Tx", "choice": "Ch"}[it["kind"]], "%s of field type %r", what, w.get("FT"))
            x, y = it["x"] * CM, it["y"] * CM
            samerect(rect(w), (m[1] + m[0] * x, m[2] + m[0] * y, m[1] + m[0] * (x + it["w"] * CM), m[2] + m[0] * (y + it["h"] * CM)), what)
            ensure(w.get("F") == bits(it, ANNOT) and w.get("Ff") == bits(it, FIELD), "%s: flags %r, %r instead of %r, %r", what, w.get("F"), w.get("Ff"), bits(it, ANNOT), bits(it, FIELD))
            ensure(w.get("Q") == "lcr".index(it["align"]), "%s: alignment %r", what, w.get("Q"))
            b = w.get("Border")
            ensure(isinstance(b, list) and len(b) == 3 and close(b[2], it["border"] * m[0], 1e-5), "%s: border %r instead of %r", what, b, it["border"] * m[0])
            defaultappearance(p, w, it, m, cols, what)
        if it["kind"] == "text":
            for k in "V", "DV":
                ensure(decode(w.get(k)) == it["value"], "%s: /%s is %r instead of %r", what, k, w.get(k), it["value"])
            lines = [l for l in it["value"].split("\n") if l]
            if lines:
                s, out = appearance(p, w["AP"]["N"], what)
                ensure([t.decode("latin-1") for _, _, t in out] == lines, "%s: the appearance shows %r instead of %r", what, [t for _, _, t in out], lines)
                ensure(all(a == (it["font"] or "Helvetica") and close(b, it["size"] * m[0], 1e-5) for a, b, _ in out), "%s: appearance with %r", what, out)
                r = rect(w)
                samerect(s.dic["BBox"], (0, 0, r[2] - r[0], r[3] - r[1]), what + ": box of the appearance")
        elif it["kind"] == "choice":
            opt = w.get("Opt")
            ensure([decode(o) for o in opt] == it["values"], "%s: options %r instead of %r", what, opt, it["values"])
            d = default(it)
            v = decode(w["V"]) if "V" in w else None
            ensure(v == (d if d in it["values"] else None), "%s: default %r instead of %r", what, w.get("V"), d)
        elif it["kind"] in ("check", "radio"):
            ensure(w.get("FT") == "Btn", "%s of field type %r", what, w.get("FT"))
            if it["kind"] == "check":
                posits, sel = [[it["x"], it["y"]]], [it["on"]]
            else:
                posits, sel = it["positions"][:len(it["values"])], [v == default(it) for v in it["values"]]
            kids = [p.get(k) for k in w["Kids"]]
            ensure(len(kids) == len(posits), "%s with %d buttons instead of %d", what, len(kids), len(posits))
            states = []
            for k, kid, q, on in zip(w["Kids"], kids, posits, sel):
                ensure(kid.get("Type") == "Annot" and kid.get("Subtype") == "Widget" and kid.get("Parent") == byname[name][0], "%s: button %r", what, kid)
                x, y = q[0] * CM, q[1] * CM - it["base"] * it["size"]
                samerect(rect(kid), (m[1] + m[0] * x, m[2] + m[0] * y, m[1] + m[0] * (x + it["size"]), m[2] + m[0] * (y + it["size"])), what)
                ensure(kid.get("F") == bits(it, ANNOT) and kid.get("Ff") == bits(it, FIELD), "%s: flags %r, %r instead of %r, %r", what, kid.get("F"), kid.get("Ff"), bits(it, ANNOT), bits(it, FIELD))
                n = kid["AP"]["N"]
                st_ = [s for s in n if s != "Off"]
                ensure(len(st_) == 1 and "Off" in n, "%s: states %r", what, n)
                states.append(st_[0])
                ensure(kid.get("AS") == (st_[0] if on else "Off"), "%s: button is %r although it should be %s", what, kid.get("AS"), on)
                a = [len(appearance(p, n[s], what)[1]) for s in (st_[0], "Off")]
                ensure(a == [2, 1], "%s: %r glyphs for on and off", what, a)
            ensure(len(set(states)) == len(states), "%s: the buttons have the states %r", what, states)
            if it["kind"] == "radio":
                ensure([s for s in states] == it["values"] or not all(v.isalnum() for v in it["values"]), "%s: states %r for the values %r", what, states, it["values"])
            v = [s for s, on in zip(states, sel) if on]
            ensure(w.get("V", "Off") == (v[0] if v else "Off"), "%s: value %r although %r is on", what, w.get("V"), v)


SUBS += [Sub("fields", strategy, check, quick=3000, thorough=60000)]
