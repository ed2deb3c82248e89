"""C18 colours, conversions and gradients"""
import logging, math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib import refpath as R, arclen

PROP = "C18"
RULE = ("random colours of the four models (also at the limits and out of range), parameters of the predefined and of random gradients, hexadecimal strings, paths drawn with a gradient; compared with the conversion formulas, "
        "round trips, the written files; non-trivial: components are neither 0 nor 1, or the gradient is not at its ends")


def prepare():
    logging.getLogger("pyx").setLevel(logging.ERROR)


NAMES = dict(gray=("g",), rgb=("r", "g", "b"), hsb=("h", "s", "b"), cmyk=("c", "m", "y", "k"))
comp = st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5, 1 / 3]), st.floats(0, 1), st.integers(0, 255).map(lambda i: i / 255), st.integers(0, 1000).map(lambda i: i / 1000))
wild = st.one_of(comp, st.sampled_from([-1e-12, 1 + 1e-12, -0.1, 2]), st.floats(-1, 2))
model = st.sampled_from(sorted(NAMES))
colour = model.flatmap(lambda m: st.tuples(st.just(m), st.lists(comp, min_size=len(NAMES[m]), max_size=len(NAMES[m]))))
anycolour = model.flatmap(lambda m: st.tuples(st.just(m), st.lists(wild, min_size=len(NAMES[m]), max_size=len(NAMES[m]))))


def make(c):
    from pyx import color
    return getattr(color, c[0])(*c[1])


def comps(o):
    from pyx import color
    for m in NAMES:
        if type(o) is getattr(color, m):
            return m, [getattr(o, n) for n in NAMES[m]]
    fail("no colour: %r", o)


# reference conversions

def hsb2rgb(h, s, b):
    i = math.floor(h * 6)
    f = h * 6 - i
    p, q, t = b * (1 - s), b * (1 - s * f), b * (1 - s * (1 - f))
    return [(b, t, p), (q, b, p), (p, b, t), (p, q, b), (t, p, b), (b, p, q)][i % 6]


def rgb2hsb(r, g, b):
    hi, lo = max(r, g, b), min(r, g, b)
    if hi == lo:
        return 0, 0, hi
    d = hi - lo
    h = (g - b) / d if hi == r else 2 + (b - r) / d if hi == g else 4 + (r - g) / d
    return (h / 6) % 1, d / hi, hi


LIN = dict(c=1, m=1, y=1, bg=1)


def ref(c, to, ucr=LIN):
    m, v = c
    if m == to:
        return list(v)
    if to == "rgb":
        if m == "gray":
            return v * 3
        if m == "hsb":
            return list(hsb2rgb(*v))
        return [1 - min(1, x + v[3]) for x in v[:3]]
    if to == "gray":
        if m == "cmyk":
            return [1 - min(1, 0.3 * v[0] + 0.59 * v[1] + 0.11 * v[2] + v[3])]
        r, g, b = ref(c, "rgb")
        return [0.3 * r + 0.59 * g + 0.11 * b]
    if to == "cmyk":
        if m == "gray":
            return [0, 0, 0, 1 - v[0]]
        x = [1 - a for a in ref(c, "rgb")]
        k = min(x)
        return [min(1, max(0, a - ucr[n] * k)) for a, n in zip(x, "cmy")] + [ucr["bg"] * k]
    if m == "gray":
        return [0, 0, v[0]]
    return list(rgb2hsb(*ref(c, "rgb")))


conv = st.fixed_dictionaries(dict(color=colour, ucr=st.one_of(st.none(), st.dictionaries(st.sampled_from(["c", "m", "y", "bg"]), st.sampled_from([0, 0.5, 1, 0.25, -0.5]), max_size=4))))


def hue(a, b):
    d = abs(a - b) % 1
    return min(d, 1 - d)


def runconv(c, ctx):
    from pyx import color
    c = dict(c)
    if c["ucr"] and c["ucr"].get("bg", 1) < 0:
        raise Skip()
    col = make(c["color"])
    ucr = dict(LIN, **(c["ucr"] or {}))
    try:
        if c["ucr"] is not None:
            color.set(**{dict(c="UCRc", m="UCRm", y="UCRy", bg="BG")[k]: (lambda x, f=v: f * x) for k, v in c["ucr"].items()})
        for to in NAMES:
            m, got = comps(getattr(col, to)())
            ensure(m == to, "%s.%s() is %s", c["color"][0], to, m)
            want = ref((c["color"][0], list(c["color"][1])), to, ucr)
            for n, a, b in zip(NAMES[to], got, want):
                if to == "hsb" and n in "hs":
                    if want[2] < 1e-6 or (n == "h" and want[1] < 1e-6) or c["color"][0] == "hsb":
                        continue
                d = hue(a, b) if (to, n) == ("hsb", "h") else abs(a - b)
                ensure(d < 1e-9, "%r to %s: %s is %r instead of %r", c["color"], to, n, a, b)
            if to == "hsb" and c["color"][0] == "hsb":
                ensure(got == list(c["color"][1]), "hsb of an hsb colour")
        ensure(comps(col) == (c["color"][0], list(c["color"][1])), "the conversions changed the colour")
        ensure([comps(x)[1] for x in [col.grey()]] == [comps(col.gray())[1]], "grey and gray differ")
    finally:
        color.set(UCRc=lambda x: x, UCRm=lambda x: x, UCRy=lambda x: x, BG=lambda x: x)
    # round trips
    v = list(c["color"][1])
    if c["color"][0] == "rgb":
        for f in (lambda x: x.cmyk().rgb(), lambda x: x.hsb().rgb(), lambda x: x.hsb().cmyk().hsb().rgb()):
            for a, b in zip(comps(f(col))[1], v):
                close(a, b, 1e-9, "rgb round trip of %r", v)
    if c["color"][0] == "gray":
        for f in ("cmyk", "rgb", "hsb"):
            close(getattr(col, f)().gray().g, v[0], 1e-9, "gray by %s", f)
    ctx.nontrivial(any(0 < x < 1 for x in v))
    ctx.label(c["color"][0])


def runrange(c, ctx):
    bad = any(x < 0 or x > 1 for x in c[1])
    try:
        o = make(c)
    except ValueError:
        ensure(bad, "%r refused", c)
        return
    ensure(not bad, "%r accepted", c)
    ensure(comps(o) == (c[0], list(c[1])), "%r has components %r", c, comps(o)[1])
    ctx.nontrivial(True)


# ---- bytes and hexadecimal strings -------------------------------------------------------------------

hexcase = st.fixed_dictionaries(dict(text=st.one_of(st.text("0123456789abcdefABCDEF", min_size=6, max_size=6), st.text("0123456789abcdefABCDEF", min_size=3, max_size=3), st.text("0123456789abc", min_size=0, max_size=8)), hash=st.sampled_from(["", "#"]),
                                     ws=st.sampled_from(["", " ", "\n"]), color=colour, css=st.booleans(), addhash=st.booleans()))


def runhex(c, ctx):
    from pyx import color
    t = c["text"]
    try:
        o = color.rgbfromhexstring(c["ws"] + c["hash"] + t + c["ws"])
    except ValueError:
        ensure(len(t) not in (3, 6), "%r refused", t)
    else:
        ensure(len(t) in (3, 6), "%r accepted", t)
        full = t if len(t) == 6 else "".join(x + x for x in t)
        want = [int(full[i:i + 2], 16) for i in (0, 2, 4)]
        for a, b in zip(comps(o)[1], want):
            close(a, b / 255, 1e-12, "component of #%s", t)
        ensure(list(o.to8bitbytes()) == want, "#%s has bytes %r", t, list(o.to8bitbytes()))
        s = o.tohexstring(cssstrip=c["css"], addhash=c["addhash"])
        short = c["css"] and all(full[i].lower() == full[i + 1].lower() for i in (0, 2, 4))
        exp = "#" * c["addhash"] + (full[::2] if short else full).lower()
        ensure(s == exp, "%r written as %r instead of %r", t, s, exp)
        ctx.nontrivial(full[0] != full[1])
    o = make(c["color"])
    if c["color"][0] != "hsb":
        b = list(o.to8bitbytes())
        ensure(len(b) == len(c["color"][1]), "bytes of %r", c["color"])
        for x, y in zip(b, c["color"][1]):
            ensure(abs(x - 255 * y) < 1, "byte %r for %r", x, y)
            ensure(y not in (0, 1) or x == 255 * y, "byte %r for %r", x, y)
        ensure(o.colorspacestring() == dict(gray="/DeviceGray", rgb="/DeviceRGB", cmyk="/DeviceCMYK")[c["color"][0]], "colour space of %r", c["color"])


# ---- gradients -------------------------------------------------------------------------------------

PRE = ["Gray", "Grey", "ReverseGray", "ReverseGrey", "BlackYellow", "YellowBlack"] + [a + b for a in ("Red", "Green", "Blue", "White", "Black") for b in ("Red", "Green", "Blue", "White", "Black") if a != b and {a, b} != {"White", "Black"}] \
    + ["Rainbow", "ReverseRainbow", "Hue", "ReverseHue", "Jet", "ReverseJet", "rgb.Rainbow", "rgb.ReverseRainbow", "rgb.Hue", "rgb.ReverseHue", "cmyk.Rainbow", "cmyk.ReverseRainbow", "cmyk.Hue", "cmyk.ReverseHue", "cmyk.Jet", "cmyk.ReverseJet"]
BASIC = dict(Red=(1, 0, 0), Green=(0, 1, 0), Blue=(0, 0, 1), White=(1, 1, 1), Black=(0, 0, 0))
MIRROR = dict(Gray="ReverseGray", Grey="ReverseGrey", BlackYellow="YellowBlack", Rainbow="ReverseRainbow", Hue="ReverseHue", Jet="ReverseJet")
MIRROR.update({p + k: p + v for p in ("rgb.", "cmyk.") for k, v in (("Rainbow", "ReverseRainbow"), ("Hue", "ReverseHue"), ("Jet", "ReverseJet"))})
MIRROR.update({v: k for k, v in MIRROR.items()})
MIRROR.pop("rgb.Jet", None), MIRROR.pop("rgb.ReverseJet", None)


@st.composite
def gradcase(draw):
    kind = draw(st.sampled_from(["named", "named", "linear", "function"]))
    if kind == "named":
        g = draw(st.sampled_from(PRE))
    elif kind == "linear":
        m = draw(model)
        g = [m] + [draw(st.lists(comp, min_size=len(NAMES[m]), max_size=len(NAMES[m]))) for i in range(2)]
    else:
        m = draw(model)
        g = [m, [draw(st.integers(1, 3)) for n in NAMES[m]]]
    return dict(kind=kind, g=g, param=draw(comp), n=draw(st.integers(1, 12)), i=draw(st.integers(0, 11)), conv=draw(st.sampled_from([None, "rgb", "cmyk"])))


def grad(c):
    from pyx import color
    if c["kind"] == "named":
        n = c["g"]
        return getattr(dict(rgb=color.rgbgradient, cmyk=color.cmykgradient)[n.split(".")[0]], n.split(".")[1]) if "." in n else getattr(color.gradient, n)
    if c["kind"] == "linear":
        return getattr(color, "lineargradient_" + c["g"][0])(make((c["g"][0], c["g"][1])), make((c["g"][0], c["g"][2])))
    return getattr(color, "functiongradient_" + c["g"][0])(*[(lambda x, e=e: x ** e) for e in c["g"][1]])


def near(a, b, tol, what):
    ensure(a[0] == b[0], "%s: colour model %s instead of %s", what, a[0], b[0])
    for x, y in zip(a[1], b[1]):
        close(x, y, tol, "%s: %r instead of %r" % (what, a, b))


def rungrad(c, ctx):
    from pyx import color
    g = grad(c)
    x = c["param"]
    a = comps(g.getcolor(x))
    ensure(all(0 <= v <= 1 for v in a[1]), "%r(%r) is %r", c["g"], x, a)
    if c["kind"] == "linear":
        near(a, (c["g"][0], [p * (1 - x) + q * x for p, q in zip(c["g"][1], c["g"][2])]), 1e-12, "linear gradient at %r" % x)
    elif c["kind"] == "function":
        near(a, (c["g"][0], [x ** e for e in c["g"][1]]), 1e-12, "function gradient at %r" % x)
    else:
        n = c["g"]
        base, m = n.split(".")[-1], n.split(".")[0] if "." in n else None
        if base in MIRROR or n in MIRROR:
            h = grad(dict(kind="named", g=MIRROR[n]))
            u, v = comps(h.getcolor(1 - x)), a
            if base in ("BlackYellow", "YellowBlack"):      # (steep at black)
                near(u, v, 1e-7 if min(x, 1 - x) > 1e-6 else 1e-2, "%s and %s" % (n, MIRROR[n]))
            else:
                near(u, v, 1e-9, "%s and %s" % (n, MIRROR[n]))
        want = None
        if base in ("Gray", "Grey"): want = ("gray", [1 - x])
        elif base in ("ReverseGray", "ReverseGrey"): want = ("gray", [x])
        elif base in ("Rainbow", "Hue"): want = ("hsb", [x * (2 / 3 if base == "Rainbow" else 1), 1, 1])
        else:
            for b in BASIC:
                if base.startswith(b) and base[len(b):] in BASIC:
                    want = ("rgb", [p * (1 - x) + q * x for p, q in zip(BASIC[b], BASIC[base[len(b):]])])
        if want:
            if m:
                want = (m, ref(want, m))
            near(a, want, 1e-9, n)
        elif m:
            near(a, (m, ref(comps(getattr(color.gradient, base).getcolor(x)), m)), 1e-9, n)
        ends = dict(BlackYellow=((0, 0, 0), (1, 1, 0.5)), YellowBlack=((1, 1, 0.5), (0, 0, 0)), Jet=((0, 0, 0.5), (0.5, 0, 0)), ReverseJet=((0.5, 0, 0), (0, 0, 0.5))).get(n)
        if ends:
            for p, e in zip((0, 1), ends):
                near(comps(g.getcolor(p)), ("rgb", e), 1e-9, "%s(%d)" % (n, p))
    # conversion of gradients, selection
    if c["conv"]:
        near(comps(getattr(color, c["conv"] + "gradient")(g).getcolor(x)), comps(getattr(g.getcolor(x), c["conv"])()), 1e-12, "converted gradient")
    n, i = c["n"], c["i"] % c["n"]
    near(comps(g.select(i, n)), comps(g.getcolor(i / (n - 1) if n > 1 else 0)), 1e-9, "select(%d, %d)" % (i, n))
    ctx.nontrivial(0 < x < 1)
    ctx.label(c["kind"])


# ---- colours in the files, gradients along paths ------------------------------------------------------

drawn = st.fixed_dictionaries(dict(stroke=st.one_of(st.none(), colour), fill=st.one_of(st.none(), colour), common=st.one_of(st.none(), colour), alpha=st.one_of(st.none(), comp), only=st.sampled_from(["both", "both", "stroke", "fill"])))


def rundrawn(c, ctx):
    from pyx import canvas, path, deco, color, style
    from checks.c11 import eps, pdfl, svgl
    common = [make(c["common"])] if c["common"] else []
    if c["alpha"] is not None:
        common.append(color.transparency(1 - c["alpha"]))
    cv = canvas.canvas()
    p = path.rect(0, 0, 3, 2)
    ds = []
    if c["only"] != "fill":
        ds.append(deco.stroked([make(c["stroke"])] if c["stroke"] else []))
    if c["only"] != "stroke":
        ds.append(deco.filled([make(c["fill"])] if c["fill"] else []))
    cv.draw(p, ds + common)
    black = ("gray", [0])
    want = {}
    if c["only"] != "fill":
        want["stroke"] = c["stroke"] or c["common"] or black
    if c["only"] != "stroke":
        want["fill"] = c["fill"] or c["common"] or black
    alpha = 1 if c["alpha"] is None else c["alpha"]
    for fmt, out in (("EPS", eps(cv)), ("PDF", pdfl(cv)), ("SVG", svgl(cv))):
        kinds = {}
        for o in out:
            kinds.setdefault(o["kind"], o)
        ensure(set(kinds) == set(want), "%s: %r instead of %r", fmt, sorted(kinds), sorted(want))
        for k, w in want.items():
            g = kinds[k]["color"]
            m, v = w
            if fmt == "SVG" or (fmt == "PDF" and m == "hsb"):
                m, v = "rgb", ref(w, "rgb")
            got = list(g[1:])
            if g[0] != m and g[0] == "rgb":
                v = ref((m, list(v)), "rgb")
            elif g[0] != m and m == "rgb" and g[0] == "gray":
                got = got * 3
            else:
                ensure(g[0] == m, "%s: %s colour %r instead of %r", fmt, k, g, w)
            tol = 1.01 / 255 if fmt == "SVG" else 2e-6 if m != "hsb" else 1e-5
            for a, b in zip(got, v):
                close(a, b, tol, "%s: %s colour %r instead of %r" % (fmt, k, g, w))
            if fmt != "EPS":
                close(kinds[k]["alpha"], alpha, 2e-6, "%s: %s opacity" % (fmt, k))
    ctx.nontrivial(len(want) > 1 and (c["stroke"] or c["fill"]))
    ctx.label("alpha", c["alpha"] is not None)


along = st.fixed_dictionaries(dict(grad=st.sampled_from(["Rainbow", "Gray", "RedBlue", "Jet"]), steps=st.integers(2, 9), closed=st.booleans(), other=st.booleans(), lw=st.booleans(),
                                   pts=st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=3, max_size=6, unique=True), curve=st.booleans()))


def runalong(c, ctx):
    from pyx import canvas, path, deco, color, style
    from checks.c11 import eps
    pts = c["pts"]
    items = [path.moveto(*pts[0])] + [path.lineto(*q) for q in pts[1:-1]]
    items.append(path.rcurveto(1, 2, 3, -1, 4, 1) if c["curve"] else path.lineto(*pts[-1]))
    if c["closed"]:
        items.append(path.closepath())
    if c["other"]:
        items += [path.moveto(20, 0), path.lineto(20, 7)]
    p = path.path(*items)
    cv = canvas.canvas()
    cv.draw(p, [deco.colorgradient(getattr(color.gradient, c["grad"]), [style.linewidth(0.05)] if c["lw"] else [], steps=c["steps"])])
    out = [o for o in eps(cv)]
    ensure(out and all(o["kind"] == "stroke" for o in out), "no pieces")
    n = p.normpath()
    total = n.arclen_pt()
    want = [comps(getattr(color.gradient, c["grad"]).select(i, c["steps"])) for i in range(c["steps"])]
    for k in range(4 * c["steps"]):
        s = (k + 0.5) / (4 * c["steps"])
        if abs(s * c["steps"] - round(s * c["steps"])) < 1e-3:
            continue
        x, y = n.at_pt(n.arclentoparam_pt(s * total))
        # the last piece painted through this point
        top = None
        for o in out:
            for sub in o["subs"]:
                for seg in sub.segs:
                    q = seg.eval(NP.linspace(0, 1, 200)) if not isinstance(seg, R.Line) else NP.array([seg.p, seg.q])
                    if dist(q, x, y) < 0.02:
                        top = o
        ensure(top is not None, "no piece at %r of the path", s)
        tops = {top["color"]}
        i = int(s * c["steps"])
        g = top["color"]
        m, v = want[i]
        if g[0] == "rgb" and m != "rgb":
            v = ref((m, list(v)), "rgb")
        else:
            ensure(g[0] == m, "colour model %r", g)
        if any(abs(a - b) > 1e-4 for a, b in zip(g[1:], v)) and not crossing(n, x, y, s, total):
            fail("colour at %r of the path is %r instead of %r", s, g, want[i])
    ctx.nontrivial(c["closed"] or c["other"])


def crossing(n, x, y, s, total):
    "another part of the path comes close to this point"
    for i in range(400):
        t = (i + 0.5) / 400
        if abs(t - s) * total > 0.3:
            a, b = n.at_pt(n.arclentoparam_pt(t * total))
            if math.hypot(a - x, b - y) < total / 200:
                return True
    return False


def dist(q, x, y):
    a, b = q[:-1], q[1:]
    d = b - a
    l2 = (d ** 2).sum(axis=1)
    t = NP.clip(((NP.array([x, y]) - a) * d).sum(axis=1) / NP.where(l2 > 0, l2, 1), 0, 1)
    r = a + d * t[:, None] - [x, y]
    return float(NP.sqrt((r ** 2).sum(axis=1)).min())


import numpy as NP

SUBS = [
    Sub("conversion", conv, runconv, quick=3000, thorough=100000),
    Sub("range", anycolour, runrange, quick=1500, thorough=50000),
    Sub("hex", hexcase, runhex, quick=2500, thorough=80000),
    Sub("gradient", gradcase(), rungrad, quick=4000, thorough=100000),
    Sub("drawn", drawn, rundrawn, quick=500, thorough=15000),
    Sub("along", along, runalong, quick=100, thorough=3000),
]
