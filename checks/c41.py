"""C41 calling a component gives a modified copy; keyword splitting; file location and options"""
import io, json, logging, os, re, tempfile, shutil
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip

PROP = "C41"
RULE = ("random chains of calls with parameters on axes, painters, partitioners, texters, raters, decorators, deformers and patterns, compared with a component constructed at once by their effect (labels, ticks, rates, "
        "drawings); random directory trees, file names and formats against a model of the file locator, random option files; non-trivial: a parameter is changed twice, or a file exists in several places")


def prepare():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


_E = {}


def engine():
    from pyx import text
    if "e" not in _E:
        _E["e"] = text.UnicodeEngine()
    return _E["e"]


def eps(c):
    f = io.BytesIO()
    c.writeEPSfile(f)
    s = re.sub(rb"%%CreationDate.*|%%Title.*", b"", f.getvalue())
    return re.sub(rb"pattern\d+", b"pattern", s)


# ---- values: JSON -> python --------------------------------------------------------------------

def val(v):
    from pyx import unit, color, style, deco, text, attr
    from pyx.graph import axis
    if not isinstance(v, list):
        return v
    k = v[0]
    if k == "len": return v[1] * unit.v_cm
    if k == "ulen": return v[1] * unit.cm
    if k == "styles":
        d = dict(red=color.rgb.red, blue=color.rgb.blue, thick=style.linewidth.thick, dashed=style.linestyle.dashed, clearlw=style.linewidth.clear, filledclear=deco.filled.clear, stroked=deco.stroked, clear=attr.clear)
        return [d[x] for x in v[1]]
    if k == "texts":
        d = dict(left=text.halign.left, right=text.halign.right, red=color.rgb.red)
        return [d[x] for x in v[1]]
    if k == "rot": return axis.painter.rotatetext(v[1])
    if k == "ticklength": return [axis.painter.ticklength.short, axis.painter.ticklength.Long][v[1]]
    if k == "rats": return [axis.tick.rational((n, d)) for n, d in v[1]]
    if k == "variants": return [[axis.tick.rational((n, d)) for n, d in x] for x in v[1]]
    if k == "preexp": return [getattr(axis.parter.logarithmic, x) for x in v[1]]
    if k == "cubes": return [axis.rater.cube(o, weight=w) for o, w in v[1]]
    if k == "cube": return axis.rater.cube(v[1], weight=v[2])
    if k == "distance": return axis.rater.distance(v[1] * unit.v_cm)
    if k == "list": return v[1]
    if k == "frac":
        import fractions
        return fractions.Fraction(v[1], v[2])
    if k == "skip": return getattr(axis.texter.skipmantissaunity, v[1])
    if k == "dec": return axis.texter.decimal(**v[1])
    if k == "comp": return construct(v[1], {})
    if k == "painterof": return None
    raise KeyError(k)


L = lambda *v: [["len", x] for x in v]
STY = [["styles", []], ["styles", ["red"]], ["styles", ["thick", "dashed"]], ["styles", ["blue"]]]
TXT = [["texts", []], ["texts", ["left"]], ["texts", ["red", "right"]]]
TITLE = dict(titledist=L(0.1, 1), titleattrs=TXT + [None], titlepos=[0, 0.25, 1], titledirection=[["rot", 0], None])
REGULAR = dict(innerticklength=[["ticklength", 0], ["ticklength", 1], None], outerticklength=L(0.3) + [None], tickattrs=STY + [None], gridattrs=STY + [None], basepathattrs=STY + [None],
               labeldist=L(0.1, 0.7), labelattrs=TXT, labeldirection=[["rot", 30], ["rot", 90]], labelhequalize=[0, 1], labelvequalize=[0, 1], **TITLE)
BARP = dict(innerticklength=[["ticklength", 0]] and L(0.2) + [None], outerticklength=L(0.3) + [None], tickattrs=STY, basepathattrs=STY + [None], namedist=L(0.1, 0.7), nameattrs=TXT, namedirection=[["rot", 30]],
            namepos=[0, 0.25, 1], namehequalize=[0, 1], namevequalize=[0, 1], **TITLE)
SPLITP = dict(breaklinesdist=L(0.1, 0.3), breaklineslength=L(0.2, 1), breaklinesangle=[0, 45, -30], breaklinesattrs=STY + [None], **TITLE)
DEC = dict(prefix=["", "a"], infix=["", "i"], suffix=["", "s"], equalprecision=[False, True], decimalsep=[".", ","], thousandsep=["", "'"], thousandthpartsep=["", "_"], plus=["", "+"], minus=["-", "m"], period=["(%s)", "[%s]"])
PRE = lambda p, d: {p + "_" + k: v for k, v in d.items()}
DEF = dict(mantissatexter=[["dec", dict(plus="p", period="(%s)")]], basetexter=[["dec", dict(prefix="B")]], exponenttexter=[["dec", dict(minus="M")]], multiplicationunicode=["x", "*"], multiplicationtex=["\\cdot", "\\times"], base=[["frac", 10, 1], ["frac", 2, 1]], minusunity=["-", "~"], minexponent=[0, 2, 4], minnegexponent=[None, 0, 1], uniformexponent=[True, False],
           skipmantissaunity=[["skip", "all"], ["skip", "never"], ["skip", "each"]], **PRE("mantissatexter", dict(decimalsep=[","], plus=["+"], period=["(%s)"])), **PRE("exponenttexter", dict(plus=["+"], prefix=["<"])), **PRE("basetexter", dict(suffix=["b"])))
RAT = dict(prefix=["", "a"], infix=["", "i"], suffix=["", "s"], numprefix=["", "n"], numinfix=["", "N"], numsuffix=["", "u"], denomprefix=["", "d"], denominfix=["", "D"], denomsuffix=["", "e"], plus=["", "+"], minus=["-", "m"],
           minuspos=[0], over=["{%s}/{%s}", "%s:%s"], equaldenom=[False, True], skip1=[True, False], skipnum0=[True, False], skipnum1=[True, False], skipdenom1=[True, False])
LINP = dict(tickdists=[["list", [1, 2]], ["list", [0.5]], ["rats", [[1, 2], [1, 4]]]], labeldists=[["list", [2]], None], extendtick=[0, None, 1], extendlabel=[None, 0])
AUTO = dict(variants=[["variants", [[[1, 1], [1, 2]], [[5, 1], [1, 1]]]], ["variants", [[[2, 1]]]]], extendtick=[0, None, 1])
LOGP = dict(tickpreexps=[["preexp", ["pre1exp"]], ["preexp", ["pre1exp", "pre1to9exp"]], ["preexp", ["pre1to9exp"]]], labelpreexps=[["preexp", ["pre125exp"]], None], extendtick=[0, None], extendlabel=[None, 0])
ALOG = dict(extendtick=[0, None], extendlabel=[None, 0], autoexponent=[10, 1000])
RATER = dict(ticks=[["cubes", [[5, 1]]], ["cubes", [[2, 1], [8, 0.5]]]], labels=[["cubes", [[6, 1]]]], range=[["cube", 1, 1], ["cube", 2, 3]], distance=[["distance", 2]], density=[0.5, 2])
AX = dict(min=[0, -3], max=[7, 11], reverse=[0, 1], divisor=[None, 2], title=["ttt", None, "uu"], maxworse=[0, 2], fallbackrange=[3], **PRE("painter", dict(labeldist=L(0.2, 1), tickattrs=STY, titlepos=[0, 1])),
          **PRE("texter", dict(minexponent=[0, 3], plus=["+"]) and dict(minexponent=[0, 3], base=[["frac", 10, 1]])), **PRE("parter", dict(extendtick=[None, 0, 1])), **PRE("rater", dict(density=[0.5, 3], distance=[["distance", 2]])))
LAX = dict(AX, min=[0.02, 0.5], max=[700, 2000], divisor=[None, 10])
LAX = {k: v for k, v in LAX.items()}
BAX = dict(dist=[0, 0.5, 1], firstdist=[None, 0, 1], lastdist=[None, 0.3], title=["ttt", None], reverse=[0, 1], **PRE("painter", dict(namedist=L(0.2, 1), namepos=[0, 1], nameattrs=TXT)), **PRE("defaultsubaxis", dict(title=["q"])))
SAX = dict(dist=[0, 0.5, 1], firstdist=[0, 1], lastdist=[0, 0.3], title=["ttt", None], reverse=[0, 1], **PRE("painter", dict(breaklinesangle=[10], titlepos=[0, 1])), **PRE("defaultsubaxis", dict(max=[7], reverse=[1], title=["q"])))
ARROW = dict(attrs=STY + [["styles", ["filledclear", "stroked"]], ["styles", ["clear", "stroked"]]], pos=[0, 0.5, 1], reversed=[0, 1], size=L(0.2, 0.5), angle=[30, 60], constriction=[None, 1, 0.5])
HATCH = dict(dist=L(0.05, 0.2), angle=[0, 30], strokestyles=STY + [["styles", ["clearlw"]]])
BRACE = dict(reverse=[0, 1], dist=[None, ["len", 0.2]], stretch=[None, 0.8], fillattrs=STY, totalheight=L(0.3, 0.6), barthickness=L(0.05), innerstrokesthickness=L(0.03), innerstrokesrelheight=[0.5], outerstrokesrelheight=[0.5],
             innerstrokesangle=[20], outerstrokesangle=[40], slantstrokesangle=[0], innerstrokessmoothness=[1], outerstrokessmoothness=[1], middlerelpos=[0.3, 0.7])
PAT = dict(painttype=[1, 2], tilingtype=[1, 2, 3], xstep=L(0.5, 1), ystep=L(0.4, 2), bboxenlarge=[None, ["ulen", 0.1]])
SMOOTH = dict(radius=L(0.3, 1), softness=[0.5, 1], obeycurv=[0, 1], relskipthres=[0.01, 0.2])
CYC = dict(radius=L(0.1, 0.3), halfloops=[3, 5], skipfirst=L(0.2, 0.5), skiplast=L(0.1, 0.7), curvesperhloop=[2, 4], sign=[1, -1], turnangle=[0, 30])
PAR = dict(distance=L(0.1, -0.2), relerr=[0.05, 0.01], sharpoutercorners=[0, 1], dointersection=[0, 1], checkdistanceparams=[["list", [0.5]], ["list", [0.2, 0.7]]], lookforcurvatures=[11, 5])
LSM = dict(tension=[1, 2], atleast=[False, True], lcurl=[1, 0.5, None], rcurl=[1, 2, None])

# name -> (class path, parameters which must be given at the beginning, all parameters, observer)
COMP = {
    "regular": ("painter.regular", {}, REGULAR, "painter"), "linked": ("painter.linked", {}, REGULAR, "painter"),
    "barpainter": ("painter.bar", {}, BARP, "barpainter"), "linkedbarpainter": ("painter.linkedbar", {}, BARP, "barpainter"),
    "splitpainter": ("painter.split", {}, SPLITP, "splitpainter"), "linkedsplitpainter": ("painter.linkedsplit", {}, SPLITP, "splitpainter"),
    "decimal": ("texter.decimal", dict(period="(%s)"), DEC, "texter"), "default": ("texter.default", dict(mantissatexter_period="(%s)"), DEF, "texter"), "rational": ("texter.rational", {}, RAT, "texter"),
    "linparter": ("parter.linear", dict(tickdists=["list", [1]]), LINP, "parter"), "autolinparter": ("parter.autolinear", {}, AUTO, "parter"), "logparter": ("parter.logarithmic", dict(tickpreexps=["preexp", ["pre1exp"]]), LOGP, "parter"), "autologparter": ("parter.autologarithmic", {}, ALOG, "parter"),
    "linrater": ("rater.linear", {}, RATER, "rater"), "lograter": ("rater.logarithmic", {}, RATER, "rater"),
    "linearaxis": ("axis.linear", {}, AX, "axis"), "logaxis": ("axis.logarithmic", {}, LAX, "logaxis"), "sizedlinearaxis": ("axis.sizedlinear", {}, dict(AX, size=[1, 3]), "axis"), "autosizedlinearaxis": ("axis.autosizedlinear", {}, AX, "axis"),
    "baraxis": ("axis.bar", {}, BAX, "baraxis"), "splitaxis": ("axis.split", {}, SAX, "splitaxis"), "nestedbaraxis": ("axis.nestedbar", {}, BAX, "nestedbaraxis"),
    "arrow": ("deco.arrow", {}, ARROW, "deco"), "linehatched": ("deco.linehatched", dict(dist=["len", 0.2], angle=45), dict(HATCH, cross=[0, 1]), "deco"), "brace": ("deco.brace", {}, BRACE, "deco"),
    "hatched": ("pattern.hatched", dict(dist=["len", 0.2], angle=45), HATCH, "deco"), "crosshatched": ("pattern.crosshatched", dict(dist=["len", 0.2], angle=45), HATCH, "deco"), "pattern": ("pattern.pattern", {}, PAT, "pattern"),
    "smoothed": ("deformer.smoothed", dict(radius=["len", 0.5]), SMOOTH, "deformer"), "cycloid": ("deformer.cycloid", {}, CYC, "deformer"), "parallel": ("deformer.parallel", dict(distance=["len", 0.3]), PAR, "deformer"),
    "linesmoothed": ("deformer.linesmoothed", {}, LSM, "deformer"),
}


def cls(name):
    from pyx import deco, pattern, deformer
    from pyx.graph import axis
    mod, c = COMP[name][0].split(".")
    m = dict(deco=deco, pattern=pattern, deformer=deformer, axis=axis).get(mod) or getattr(axis, mod)
    return getattr(m, c)


def content(p):
    from pyx import path, color
    p.fill(path.rect(0, 0, 0.3, 0.2), [color.rgb.green])
    p.stroke(path.line(0, 0, 0.3, 0.3))
    return p


def construct(name, params):
    kw = {k: val(v) for k, v in COMP[name][1].items()}
    kw.update({k: val(v) for k, v in params.items()})
    obj = cls(name)(**kw)
    return content(obj) if name == "pattern" else obj


def ticks():
    from pyx.graph import axis
    return [axis.tick.tick((n, d), labellevel=l, label=t) for n, d, l, t in [(0, 1, 0, None), (-1, 3, 0, None), (25, 2, 1, None), (2000, 1, 0, None), (1, 1, None, None), (-30000, 1, 0, None), (5, 1, 0, "given"), (3, 400, 0, None)]]


def axisdata(a, columns):
    from pyx.graph import axis
    x = axis.anchoredaxis(a, engine(), "test")
    for c in columns:
        x.adjustaxis(c)
    return x


def paint(a, columns, split=False, linked=False):
    from pyx import path, canvas
    from pyx.graph import axis
    x = axisdata(a, columns)
    x.setcreatecall(lambda: None)
    x.setpositioner(axis.positioner.pathpositioner(path.curve(0, 0, 3, 1, 6, -1, 9, 0)))
    x.create()
    out = [eps(x.canvas), eps_state(x)]
    y = axis.linkedaxis(x)
    y.setpositioner(axis.positioner.pathpositioner(path.line(0, 5, 9, 5)))
    y.create()
    return out + [eps(y.canvas)]


def eps_state(x):
    a = [round(x.vtickpoint_pt(v)[0], 6) for v in (0, 0.3, 1)] if False else []
    d = x.data
    return [repr(getattr(d, k, None)) for k in ("min", "max", "size")]


def plain(u):
    "a unicode label, in which the Text objects are replaced by what they contain"
    return [plain(x) for x in u] if isinstance(u, (list, tuple)) else u if isinstance(u, str) else sorted((k, plain(v) if isinstance(v, list) else repr(v)) for k, v in vars(u).items())


def observe(name, obj):
    from pyx import path, canvas, deco
    from pyx.graph import axis
    kind = COMP[name][3]
    if kind == "texter":
        t = ticks()
        obj.labels(t)
        return [(x.label if isinstance(x.label, (str, type(None))) else (x.label.tex, plain(x.label.unicode))) for x in t]
    if kind == "parter":
        out = []
        for rng in ([0.1, 7.3], [2, 3000]):
            for e in ((True, True), (False, True)):
                for f in obj.partfunctions(rng[0], rng[1], *e):
                    t = f()
                    out.append(None if t is None else [(float(x), x.ticklevel, x.labellevel) for x in t])
                    t = f()
                    out.append(None if t is None else [(float(x), x.ticklevel, x.labellevel) for x in t])
        return out
    if kind == "rater":
        a = axis.linear()
        out = []
        for n in (1, 3, 8):
            t = [axis.tick.tick((i, 1), ticklevel=i % 2, labellevel=0 if i % 3 == 0 else None) for i in range(n)]
            out.append(obj.rateticks(a, t))
            out.append(obj.raterange(0.5 + n, 1) if hasattr(obj, "raterange") else None)
        out.append(eps(paint0(axis.linear(rater=obj))))
        return out
    if kind == "painter":
        return paint(axis.linear(title="xyz", painter=obj, linkpainter=obj), [[0.1, 7.9]])
    if kind == "barpainter":
        return paint(axis.bar(title="xyz", painter=obj, linkpainter=obj), [[(n, v) for n in ("aa", "b", "c") for v in (0, 1)]]) + paint(axis.nestedbar(painter=obj, linkpainter=obj), [[(n, (m, v)) for n, m in (("aa", "x"), ("b", "y"), ("b", "z")) for v in (0, 1)]])
    if kind == "splitpainter":
        return paint(axis.split(title="xyz", painter=obj, linkpainter=obj), [[("1", 0.1), ("1", 1), ("2", 3.9), ("2", 10)]])
    if kind == "axis":
        return paint(obj, [[0.1, 7.9], [3, 5]])
    if kind == "logaxis":
        return paint(obj, [[0.1, 79], [3, 5]])
    if kind == "baraxis":
        return paint(obj, [[("aa", 0), ("b", 1), ("aa", 1)], [("c", 0), ("b", 0), ("c", 1)]])
    if kind == "nestedbaraxis":
        return paint(obj, [[(n, (m, v)) for n, m in (("aa", "x"), ("b", "y")) for v in (0, 1)], [(n, (m, v)) for n, m in (("aa", "z"), ("c", "x")) for v in (0, 1)]])
    if kind == "splitaxis":
        return paint(obj, [[("1", 0.1), ("1", 1), ("2", 3.9), ("2", 10)]])
    c = canvas.canvas()
    if kind == "deformer":
        for p in (path.path(path.moveto(0, 0), path.lineto(4, 0), path.lineto(5, 3), path.curveto(6, 6, 2, 8, 0, 7)), path.rect(8, 0, 3, 2)):
            c.stroke(obj.deform(p))
        return eps(c)
    if kind == "deco":
        c.draw(path.path(path.moveto(0, 0), path.lineto(4, 0), path.curveto(6, 6, 2, 8, 0, 7)), [deco.stroked, obj] if name in ("arrow", "linehatched", "brace") else [deco.filled, obj])
        return eps(c)
    if kind == "pattern":
        c.fill(path.rect(0, 0, 3, 4), [obj])
        return eps(c)


def paint0(a):
    from pyx import path
    from pyx.graph import axis
    x = axisdata(a, [[0.1, 7.9]])
    x.setcreatecall(lambda: None)
    x.setpositioner(axis.positioner.pathpositioner(path.line(0, 0, 9, 0)))
    x.create()
    return x.canvas


@st.composite
def callcase(draw):
    name = draw(st.sampled_from(sorted(COMP)))
    ps = COMP[name][2]
    steps = []
    for i in range(draw(st.integers(2, 4))):
        keys = draw(st.lists(st.sampled_from(sorted(ps)), max_size=3, unique=True))
        steps.append({k: draw(st.sampled_from(ps[k])) for k in keys})
    return dict(name=name, steps=steps)


def attempt(f):
    try:
        return f()
    except (RuntimeError, ValueError) as e:      # (documented reactions to odd parameters, e.g. no partition found)
        return "%s: %s" % (type(e).__name__, e)


def runcall(c, ctx):
    name = c["name"]
    ps = COMP[name][2]
    for s in c["steps"]:
        if any(k not in ps for k in s):
            raise Skip()
    first = construct(name, c["steps"][0])
    before = attempt(lambda: observe(name, construct(name, c["steps"][0])))
    obj = first
    merged = dict(c["steps"][0])
    twice = False
    for s in c["steps"][1:]:
        obj = obj(**{k: val(v) for k, v in s.items()})
        twice = twice or any(k in merged and merged[k] != v for k, v in s.items())
        merged.update(s)
    ref = construct(name, merged)
    if name == "pattern":
        pass
    a, b = attempt(lambda: observe(name, obj)), attempt(lambda: observe(name, ref))
    if isinstance(a, str) and isinstance(b, str):
        ctx.label("error")
        ensure(a == b, "%s%r called to get %r: %s instead of %s", name, c["steps"][0], merged, a, b)
        return
    ensure(a == b, "%s%r called with %r differs from one constructed with %r", name, c["steps"][0], c["steps"][1:], merged)
    after = attempt(lambda: observe(name, first))
    ensure(after == before, "%s changed by a call", name)
    ctx.nontrivial(twice)
    ctx.label(COMP[name][3])


# ---- parameters of components of components ---------------------------------------------------------

PARTS = {n: dict(painter="regular", texter="default", parter="autolinparter", rater="linrater") for n in ("linearaxis", "sizedlinearaxis", "autosizedlinearaxis")}
PARTS.update(logaxis=dict(painter="regular", texter="default", parter="autologparter", rater="lograter", linearparter="autolinparter"), baraxis=dict(painter="barpainter", linkpainter="linkedbarpainter", defaultsubaxis="linearaxis"),
             splitaxis=dict(painter="splitpainter", linkpainter="linkedsplitpainter", defaultsubaxis="linearaxis"), nestedbaraxis=dict(painter="barpainter", defaultsubaxis="baraxis"),
             default=dict(mantissatexter="decimal", exponenttexter="decimal", basetexter="decimal"))


@st.composite
def partcase(draw):
    name = draw(st.sampled_from(sorted(PARTS) + ["default"] * 4))
    part = draw(st.sampled_from(sorted(PARTS[name])))
    ps = COMP[PARTS[name][part]][2]
    d = [{k: draw(st.sampled_from(ps[k])) for k in draw(st.lists(st.sampled_from([k for k in sorted(ps) if k not in ("fallbackrange",) and (PARTS[name][part] != "linearaxis" or "_" not in k)]), min_size=1, max_size=3, unique=True))} for i in range(3)]
    return dict(name=name, part=part, own=d[0], given=d[1], later=d[2] if draw(st.booleans()) else {})


def runparts(c, ctx):
    name, part = c["name"], c["part"]
    comp = construct(PARTS[name][part], c["own"])
    given = {part + "_" + k: val(v) for k, v in c["given"].items()}
    fixed = {k: val(v) for k, v in COMP[name][1].items() if not k.startswith(part)}
    a = cls(name)(**dict(fixed, **{part: comp}, **given))
    if c["later"]:
        a = a(**{part + "_" + k: val(v) for k, v in c["later"].items()})
    b = cls(name)(**dict(fixed, **{part: construct(PARTS[name][part], dict(c["own"], **dict(c["given"], **c["later"])))}))
    x, y = attempt(lambda: observe(name, a)), attempt(lambda: observe(name, b))
    ensure(x == y, "%s with a %s of parameters %r, set to %r and %r differs from one with such a %s constructed at once", name, part, c["own"], c["given"], c["later"], part)
    ctx.nontrivial(not isinstance(x, str))
    ctx.label(name)


# ---- keyword splitting ----------------------------------------------------------------------------

word = st.text(alphabet="abc_", min_size=1, max_size=6)
kwcase = st.fixed_dictionaries(dict(kw=st.dictionaries(word, st.integers(0, 9), max_size=6), parts=st.one_of(st.none(), st.lists(st.text(alphabet="abc", min_size=0, max_size=3), max_size=4)), only=st.booleans()))


def runkw(c, ctx):
    from pyx import utils
    kw = dict(c["kw"])
    parts = c["parts"]
    want, rest = {}, {}
    for k, v in kw.items():
        i = k.find("_")
        if i >= 0 and (parts is None or k[:i] in parts):
            want.setdefault(k[:i], {})[k[i + 1:]] = v
        else:
            rest[k] = v
    try:
        got = utils.kwsplit(c["kw"], parts, c["only"])
    except ValueError:
        ensure(c["only"] and rest, "kwsplit(%r, %r, %r) raised", kw, parts, c["only"])
        return
    ensure(not (c["only"] and rest), "kwsplit(%r, %r, True) accepted", kw, parts)
    ensure(got == (want, rest), "kwsplit(%r, %r) = %r", kw, parts, got)
    ensure(c["kw"] == kw, "kwsplit changed the arguments")
    ctx.nontrivial(bool(want) and bool(rest))

    class o:
        pass
    x = o()
    x.a, x.b, x.c = 1, 2, 3
    got = utils.merge_members_kwargs(x, [kw, want], ["a", "c"])
    exp = dict(a=1, c=3)
    exp.update(kw)
    exp.update(want)
    ensure(got == exp, "merge_members_kwargs: %r instead of %r", got, exp)


# ---- file locator ---------------------------------------------------------------------------------

names = ["foo", "bar", "baz.pfb", "foo.pfa", "foo.pfb", "bar.tfm", "baz", "foo.eps", "x y"]
FORMATS = ["tfm", "afm", "type1", "tex_ps_header", "pict", "fontmap", "dvips_config", "pyx"]
tree = st.lists(st.tuples(st.sampled_from(["cwd", "cwd", "rec", "rec/a", "rec/a/b", "rec/c", "rec2", "ls", "ls/d"]), st.sampled_from(names)), max_size=10, unique=True)
locate = st.fixed_dictionaries(dict(files=tree, methods=st.permutations(["local", "recursivedir", "ls-R"]).flatmap(lambda p: st.integers(1, 3).map(lambda n: p[:n])), dirs=st.sampled_from([["rec"], ["rec", "rec2"], ["rec2", "rec"]]),
                                    comment=st.booleans(), ask=st.lists(st.tuples(st.sampled_from(names), st.lists(st.sampled_from(FORMATS), min_size=1, max_size=2, unique=True), st.booleans()), min_size=1, max_size=6)))
recursive = st.fixed_dictionaries(dict(files=st.lists(st.tuples(st.sampled_from(["rec", "rec/a", "rec/a/b", "rec/c", "rec2", "rec2"]), st.sampled_from(["bar.tfm", "foo.pfb", "foo.eps"])), min_size=1, max_size=8, unique=True),
                                       methods=st.just(["recursivedir"]), dirs=st.sampled_from([["rec", "rec2"], ["rec2", "rec"]]), comment=st.just(False),
                                       ask=st.lists(st.tuples(st.sampled_from(["bar.tfm", "foo.pfb", "foo.eps", "foo", "bar"]), st.sampled_from([["tfm"], ["type1"], ["pict"]]), st.just(False)), min_size=1, max_size=4)))
EXT = dict(tfm=[".tfm"], afm=[".afm"], type1=[".pfa", ".pfb"], tex_ps_header=["", ".pro"], pict=[".eps", ".epsi"], fontmap=[".map"], dvips_config=[], pyx=[])


def candidates(name, formats):
    for f in formats:
        for e in EXT[f]:
            if e != "" and name.endswith(e):
                return [name]
    if "tex_ps_header" in formats:       # (has an empty extension, which every name has)
        return [name]
    out = []
    for f in formats:
        out += [name + e for e in EXT[f]] if EXT[f] else [name]
    return out


def runlocate(c, ctx):
    from pyx import config
    for name, formats, a in c["ask"]:
        if "tex_ps_header" in formats and len(formats) > 1:
            raise Skip()
    d = tempfile.mkdtemp(prefix="c41-")
    old = os.getcwd(), config.methods, config.opener_cache, config.config
    try:
        for sub in ("cwd", "rec/a/b", "rec/c", "rec2", "ls/d"):
            os.makedirs(os.path.join(d, sub))
        for place, name in c["files"]:
            with open(os.path.join(d, place, name), "w") as f:
                f.write(place)
        lsr = os.path.join(d, "ls", "ls-R")
        with open(lsr, "w") as f:
            if c["comment"]:
                f.write("% ls-R -- comment\n")
            f.write("./:\n" + "".join(n + "\n" for p, n in c["files"] if p == "ls") + "d\n\n./d:\n" + "".join(n + "\n" for p, n in c["files"] if p == "ls/d") + "\n")
        import configparser
        cp = configparser.ConfigParser()
        cp.read_dict({"filelocator": {"recursivedir": " ".join(os.path.join(d, x) for x in c["dirs"]), "ls-R": lsr}})
        config.config = cp
        config.methods = [config.locator_classes[m]() for m in c["methods"]]
        config.opener_cache = {}
        os.chdir(os.path.join(d, "cwd"))
        files = set(map(tuple, c["files"]))

        def places(method, cand):
            "places of the given name in the order of the search; those of unspecified order as a set"
            if method == "local":
                return [{"cwd"}] if ("cwd", cand) in files else []
            if method == "ls-R":
                return [{p} for p in ("ls", "ls/d") if (p, cand) in files]
            out = []
            for x in c["dirs"]:
                s = {p for p, n in files if n == cand and (p == x or p.startswith(x + "/"))}
                if s:
                    out.append(s)
            return out
        seen = {}
        for name, formats, asc in c["ask"]:
            exp = None
            cands = candidates(name, formats)
            total = 0
            for m in c["methods"]:
                options = None
                for cand in cands:
                    pl = places(m, cand)
                    total += len(pl)
                    if pl:
                        # recursivedir: whichever candidate comes first in the directories, or one already known
                        # (only one of them existing: the first of the configured directories with it)
                        one = m != "recursivedir" or sum(bool(places(m, x)) for x in cands) == 1
                        options = (options or set()) | (pl[0] if one else set().union(*pl))
                        if m != "recursivedir":
                            break
                if options and exp is None:
                    exp = options
            try:
                with config.open(name, [getattr(config.format, f) for f in formats], ascii=asc) as f:
                    got = f.read()
                    ensure(isinstance(got, str) == asc, "text or binary")
                    got = got if asc else got.decode()
            except IOError:
                ensure(exp is None, "%r of formats %r not found although it is in %r", name, formats, exp)
                continue
            ensure(exp is not None, "%r of formats %r found in %r", name, formats, got)
            ensure(got in exp, "%r of formats %r found in %r instead of %r", name, formats, got, exp)
            key = (name, tuple(formats))
            ensure(seen.setdefault(key, got) == got, "%r found in %r first, in %r later", name, seen[key], got)
            ctx.nontrivial(total > 1)
            ctx.label("found")
    finally:
        os.chdir(old[0])
        config.methods, config.opener_cache, config.config = old[1:]
        shutil.rmtree(d)


# ---- options ---------------------------------------------------------------------------------------

optval = st.one_of(st.integers(-99, 99).map(str), st.sampled_from(["1.5", "-2e3", "yes", "no", "true", "off", "a b  c", "aSPACEb c", "on", "", "x"]))
options = st.fixed_dictionaries(dict(opts=st.dictionaries(st.sampled_from(["o1", "o2", "o3"]), optval, max_size=3), ask=st.lists(st.tuples(st.sampled_from(["sec", "sec", "other"]), st.sampled_from(["o1", "o2", "o3"]), st.sampled_from(["", "int", "float", "boolean", "list"]), st.booleans()), min_size=1, max_size=6)))
MISSING = "missing"


def runoptions(c, ctx):
    from pyx import config
    import configparser
    cp = configparser.ConfigParser()
    cp.read_dict({"sec": c["opts"]})
    old = config.config
    config.config = cp
    try:
        for sec, opt, kind, default in c["ask"]:
            f = getattr(config, "get" + kind)
            v = c["opts"].get(opt) if sec == "sec" else None
            bad = False
            if v is None:
                exp = MISSING
            elif kind == "":
                exp = v
            elif kind == "list":
                exp = [x.replace("SPACE", " ") for x in v.split()]
            elif kind == "boolean":
                t = {"yes": True, "true": True, "on": True, "1": True, "no": False, "off": False, "false": False, "0": False}
                bad = v.lower() not in t
                exp = t.get(v.lower())
            else:
                try:
                    exp = int(v) if kind == "int" else float(v)
                except ValueError:
                    bad = True
            try:
                got = f(sec, opt, MISSING) if default else f(sec, opt)
            except configparser.Error:
                ensure(v is None and not default, "get%s(%r, %r) raised", kind, sec, opt)
                continue
            except ValueError:
                ensure(bad, "get%s: %r refused", kind, v)
                continue
            ensure(not bad, "get%s: %r accepted", kind, v)
            ensure(v is not None or default, "missing option without default gives %r", got)
            ensure(got == exp, "get%s of %r: %r instead of %r", kind, v, got, exp)
            ctx.nontrivial(kind != "")
    finally:
        config.config = old


SUBS = [
    Sub("call", callcase, runcall, quick=350, thorough=10000),
    Sub("parts", partcase, runparts, quick=130, thorough=6000),
    Sub("kwsplit", kwcase, runkw, quick=2000, thorough=50000),
    Sub("locate", locate, runlocate, quick=1600, thorough=40000),
    Sub("recursive", recursive, runlocate, quick=500, thorough=8000),
    Sub("options", options, runoptions, quick=1500, thorough=40000),
]
