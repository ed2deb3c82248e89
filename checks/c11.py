"""C11 what is drawn on a canvas is what each output format paints"""
import io, logging, os
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib import ps, svg, pdf, prog

PROP = "C11"
RULE = ("random canvas programs (nested canvases with transformations, clipping and styles; draw/stroke/fill with merged attributes; "
        "layers with above/below) are evaluated by an own model into a list of painting operations and written as EPS, PDF and SVG, "
        "each read by an independent interpreter; non-trivial: at least two painting operations, a nested canvas, layer, clipping or two canvas attributes")
SUBS = []


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.ERROR)


def eps(c, **kw):
    f = io.BytesIO()
    c.writeEPSfile(f, **kw)
    i = ps.interpret(f.getvalue())
    return [x for p in i.pages for x in p] + i.out


def pdfl(c, compress=True, **kw):
    f = io.BytesIO()
    c.writePDFfile(f, write_compress=compress, **kw)
    p = pdf.PDF(f.getvalue())
    ensure(len(p.pages) == 1, "%d pages", len(p.pages))
    return p.interpret(p.pages[0]).out


def svgl(c, **kw):
    f = io.BytesIO()
    c.writeSVGfile(f, **kw)
    return svg.Doc(f.getvalue()).out


def walk(items):
    for it in items:
        yield it
        if it[0] == "canvas":
            yield from walk(it[1]["items"])
        elif it[0] == "layer":
            yield from walk(it[4])


def npath(node):
    return max([len(i[1]) for i in walk(node["items"]) if i[0] in ("draw", "stroke", "fill")] + [1]) + 4


def check(case, ctx):
    node = case["node"]
    want = prog.model(node)
    for w in want:
        prog.usable(w)
    c = prog.build(node)
    if not prog.ink(want):
        raise Skip("nothing is painted")
    if not c.bbox():
        raise Skip("everything is clipped away")
    n = npath(node)
    ks = [i[0] for i in walk(node["items"])]
    ctx.nontrivial(len(want) > 1 or "canvas" in ks or "layer" in ks or want[0]["clips"] or len(node["attrs"]) > 1)
    ctx.label("layers", "layer" in ks)
    ctx.label("nested", "canvas" in ks)
    ctx.label("clips", any(w["clips"] for w in want))
    ctx.label("operations", len(want))
    prog.same(want, eps(c), "EPS", npath=n)
    prog.same(want, pdfl(c, case["compress"]), "PDF", npath=n)
    prog.same(want, svgl(c), "SVG", svg=True, npath=n)


strategy = st.fixed_dictionaries(dict(node=prog.nodes(), compress=st.booleans()))

single = st.fixed_dictionaries(dict(compress=st.just(False), node=st.fixed_dictionaries(dict(
    attrs=prog.canvasattrs(), items=st.lists(st.tuples(st.sampled_from(["draw", "stroke", "fill"]), prog.path_strategy(3),
                                                       prog.drawattrs()).map(list), min_size=1, max_size=2)))))

layers = st.fixed_dictionaries(dict(compress=st.just(False), node=st.fixed_dictionaries(dict(attrs=st.just([]), items=st.lists(st.one_of(
    st.tuples(st.just("layer"), st.sampled_from(["a", "b", "c", "d", "g.a", "g.b", "g.h.a", "g"]), st.sampled_from([None, "above", "below"]), st.integers(0, 5),
              st.lists(st.tuples(st.sampled_from(["stroke", "fill"]), prog.path_strategy(2), st.lists(prog.styles(), max_size=1)).map(list), max_size=1)).map(list),
    st.tuples(st.just("fill"), prog.path_strategy(2), st.just([])).map(list)), min_size=3, max_size=9)))))


@st.composite
def shared(draw):
    "many operations with few different attributes: resources, states and definitions are shared"
    pool = draw(st.lists(st.one_of(prog.styles(), st.tuples(st.just("transp"), st.sampled_from([0.5, 0.25])).map(list)), min_size=1, max_size=3))
    one = st.sampled_from(pool)
    few = st.lists(one, max_size=2)
    colored = ("gray", "rgb", "hsb", "cmyk", "transp")
    deco = st.one_of(few.map(lambda l: ["stroked", [a for a in l if a[0] != "eo"]]), few.map(lambda l: ["filled", [a for a in l if a[0] in colored + ("eo",)]]))
    at = st.lists(st.one_of(one, one, deco, deco), max_size=3)

    def items(depth):
        out = []
        for i in range(draw(st.integers(2, 6))):
            if depth and draw(st.integers(0, 5)) == 0:
                out.append(["canvas", dict(attrs=draw(few), items=items(depth - 1)), draw(few)])
            else:
                x, y = draw(st.integers(-40, 40)), draw(st.integers(-40, 40))
                out.append([draw(st.sampled_from(["draw", "draw", "stroke", "fill"])), [["M", x, y], ["L", x + 20, y], ["L", x + 10, y + 15]], draw(at)])
        return out
    return dict(compress=False, node=dict(attrs=draw(few), items=items(1)))


SUBS += [Sub("shared", shared(), check, quick=1200, thorough=20000), Sub("layers", layers, check, quick=700, thorough=15000),
         Sub("program", strategy, check, quick=500, thorough=12000),
         Sub("single", single, check, quick=700, thorough=15000)]
