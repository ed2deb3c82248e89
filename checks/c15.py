"""C15 writing is repeatable and leaves the drawing unchanged"""
import io, logging, os, re
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import prog, refpath as R

PROP = "C15"
RULE = ("histories that build a canvas step by step (drawing, nested canvases still being filled, layers, clear) with writes in all formats, bounding box queries and reuse of the same "
        "path, canvas, decorator and style objects in between; the final bytes must equal those of a canvas built afresh without the intermediate steps, and writing again gives the same bytes; "
        "non-trivial: at least one write before the last drawing step")


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


FORMATS = {"eps": "writeEPSfile", "ps": "writePSfile", "pdf": "writePDFfile", "svg": "writeSVGfile"}


def write(c, fmt, clear=False):
    f = io.BytesIO()
    getattr(c, FORMATS[fmt])(f, **({"write_compress": False} if fmt == "pdf" and clear else {}))
    d = f.getvalue()
    return plain(d, fmt)


def plain(d, fmt):
    "ids follow the identity of objects"
    if fmt == "svg" or b"pattern" in d:
        ids = {}
        d = re.sub(rb"(clippath|pattern)\d+", lambda m: ids.setdefault(m.group(), b"%s-%d" % (m.group(1), len(ids))), d)
    return d


def final(c, formats=FORMATS, clear=False):
    if not c.bbox():
        return {}
    return {f: write(c, f, clear) for f in formats}


def formats(case):
    "steps and boxes of patterns are not supported in SVG"
    return [f for f in FORMATS if f != "svg" or all(p[0] is None and p[1] is None and p[3] is None for p in case["patterns"])]


def play(case, sideeffects):
    from pyx import canvas, deco, pattern, trafo, color
    paths = [R.build(p) for p in case["paths"]]
    attrs = [[prog.realattr(a) for a in l] for l in case["attrs"]]
    cs = [canvas.canvas([prog.realattr(a) for a in l]) for l in case["canvases"]]
    for i, p in enumerate(case["patterns"]):
        # the last ones are patterns
        if len(cs) > 1:
            cs[-1 - i % (len(cs) - 1)] = pattern.pattern(xstep=p[0], ystep=p[1], trafo=trafo.scale(p[2]) if p[2] else None, bboxenlarge=p[3])
    ispat = [isinstance(c, pattern.pattern) for c in cs]
    top = cs[0]
    for c in cs:
        c.verif_depth = 0
    early = False
    painted = set()
    wrote = False
    for op in case["ops"]:
        k = op[0]
        c = cs[op[1] % len(cs)]
        if k in ("stroke", "fill", "draw"):
            getattr(c, k)(paths[op[2] % len(paths)], attrs[op[3] % len(attrs)])
            if k != "draw":
                painted.add(op[1] % len(cs))
            early = early or wrote
        elif k == "insert":
            i, j = op[1] % len(cs), op[2] % len(cs)
            if ispat[j]:
                # an empty pattern has no size
                if i < j and j in painted:
                    c.fill(paths[op[3] % len(paths)], [cs[j]])
                    early = early or wrote
            elif i < j:             # no cycles
                c.insert(cs[j], [a for a in attrs[op[3] % len(attrs)] if not isinstance(a, deco.deco)] or None)
                early = early or wrote
        elif k == "layer":
            c.layer(op[2]).stroke(paths[op[3] % len(paths)])
            early = early or wrote
        elif k == "clear":
            if not any(ispat):      # (they must not become empty)
                c.clear()
        elif not sideeffects:
            pass
        elif k == "write":
            if not ispat[op[1] % len(cs)] and c.bbox() and op[2] in formats(case):
                write(c, op[2])
                wrote = True
        elif k == "bbox":
            c.bbox()
        elif k == "normpath":
            p = paths[op[2] % len(paths)]
            p.normpath()
            p.arclen()
        elif k == "len":
            len(c), list(c)
    return top, early


def check(case, ctx):
    a, early = play(case, True)
    b, _ = play(case, False)
    fa = final(a, formats(case), bool(case["patterns"]))
    ctx.nontrivial(early and bool(fa))
    fb = final(b, formats(case), bool(case["patterns"]))
    for f in FORMATS:
        ensure((f in fa) == (f in fb), "%s: empty or not depends on earlier queries", f)
        if f in fa:
            ensure(fa[f] == fb[f], "%s output depends on earlier writes or queries: %s", f, diff(fb[f], fa[f]))
    again = final(a, formats(case), bool(case["patterns"]))
    for f in fa:
        ensure(fa[f] == again.get(f), "%s written again differs: %s", f, diff(fa[f], again.get(f, b"")))


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%r, expected %r" % (b[max(0, i - 60):i + 60], a[max(0, i - 60):i + 60])


def checkpattern(case, ctx):
    "use a pattern, write, draw more into it, write again: as if everything had been drawn before"
    from pyx import canvas, pattern, trafo

    def mk():
        o = case["opts"]
        p = pattern.pattern(xstep=o[0], ystep=o[1], trafo=trafo.scale(o[2]) if o[2] else None, bboxenlarge=o[3])
        c = canvas.canvas()
        c.fill(R.build([["M", 0, 0], ["L", 300, 0], ["L", 300, 200], ["Z"]]), [p])
        return p, c

    def draw(p, items):
        for k, i, a in items:
            getattr(p, k)(R.build(i), [prog.realattr(x) for x in a])
    p, c = mk()
    q, d = mk()
    fm = formats(dict(patterns=[case["opts"]]))
    draw(p, case["before"])
    draw(q, case["before"] + case["after"])
    for f in case["writes"]:
        if f in fm:
            write(c, f, True)
    draw(p, case["after"])
    fa, fb = final(c, fm, True), final(d, fm, True)
    for f in fm:
        ensure(fa[f] == fb[f], "%s output with a pattern depends on earlier writes: %s", f, diff(fb[f], fa[f]))
    again = final(c, fm, True)
    for f in fm:
        ensure(fa[f] == again[f], "%s with a pattern written again differs: %s", f, diff(fa[f], again[f]))
    ctx.nontrivial()


noclear = prog.drawattrs().map(lambda l: [a for a in l if a[0] != "clear"])
k = st.integers(0, 5)
op = st.one_of(st.tuples(st.sampled_from(["stroke", "fill", "draw"]), k, k, k), st.tuples(st.sampled_from(["stroke", "fill"]), k, k, k),
               st.tuples(st.just("insert"), k, k, k), st.tuples(st.just("layer"), k, st.sampled_from(["a", "b", "a.c"]), k),
               st.tuples(st.just("write"), k, st.sampled_from(sorted(FORMATS))), st.tuples(st.just("write"), st.just(0), st.sampled_from(sorted(FORMATS))),
               st.tuples(st.just("bbox"), k), st.tuples(st.just("normpath"), k, k), st.tuples(st.sampled_from(["clear", "len", "len", "len"]), k)).map(list)
strategy = st.fixed_dictionaries(dict(paths=st.lists(prog.path_strategy(3), min_size=1, max_size=3), attrs=st.lists(noclear, min_size=1, max_size=3),
                                      canvases=st.lists(prog.canvasattrs(), min_size=1, max_size=3), patterns=st.lists(st.one_of(st.just([None, None, 0, None]), st.tuples(st.sampled_from([None, 1, 2.5]), st.sampled_from([None, 1, 2]), st.sampled_from([0, 0, 0.5]), st.sampled_from([0, None, 0.1])).map(list)), max_size=1), ops=st.lists(op, min_size=2, max_size=12)))
solidpath = st.tuples(st.integers(-30, 30), st.integers(-30, 30), st.integers(1, 40), st.integers(1, 40)).map(lambda t: [["M", t[0], t[1]], ["L", t[0] + t[2], t[1]], ["L", t[0], t[1] + t[3]], ["Z"]])
pitems = st.lists(st.tuples(st.sampled_from(["stroke", "fill"]), solidpath, st.lists(prog.styles(), max_size=2)).map(list), min_size=1, max_size=2)
opts = st.one_of(st.just([None, None, 0, None]), st.tuples(st.sampled_from([None, 1, 2.5]), st.sampled_from([None, 1, 2]), st.sampled_from([0, 0, 0.5]), st.sampled_from([0, None, 0.1])).map(list))
pcase = st.fixed_dictionaries(dict(opts=opts, before=pitems, after=pitems, writes=st.lists(st.sampled_from(sorted(FORMATS)), min_size=1, max_size=2)))
SUBS = [Sub("pattern", pcase, checkpattern, quick=300, thorough=6000), Sub("history", strategy, check, quick=1000, thorough=20000)]
