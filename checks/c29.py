"""C29 partitioners"""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real

PROP = "C29"
RULE = ("linear and logarithmic partitioners with random tick and label distances or positions, extension levels and ranges (often ending on or just beside a tick position, negative, tiny and huge); the "
        "tick lists must be the ordered set of all exact multiples or powers in the possibly extended range, with the lowest level of each, and automatic partitioners must walk through their "
        "variants; non-trivial: at least two levels present")


def val(t):
    return F(t.num, t.denom)


def low(a, b):
    return b if a is None else a if b is None else min(a, b)


def levels(ticks):
    return [(val(t), t.ticklevel, t.labellevel) for t in ticks]


def compare(ticks, sets, lo, hi, what, slack):
    """sets: (iterator of exact positions in the enlarged range, 'tick' or 'label', level, local step at a position)"""
    got = levels(ticks)
    ensure(all(a[0] < b[0] for a, b in zip(got, got[1:])), "%s: ticks not in ascending order: %r", what, got)
    want, maybe = {}, set()
    for positions, kind, level, step in sets:
        for p in positions:
            s = slack * step(p) + abs(p) * F(1, 10 ** 15)
            if p < lo - s or p > hi + s:
                continue
            noise = abs(p) * F(1, 10 ** 15) > s / 8 and min(abs(p - lo), abs(p - hi)) <= abs(p) * F(1, 10 ** 15)      # beyond the resolution of the range
            if p < lo - s / 4 and p != lo or p > hi + s / 4 or noise:
                maybe.add(p)
            t, l = want.get(p, (None, None))
            want[p] = (low(t, level), l) if kind == "tick" else (t, low(l, level))
    have = dict((p, (t, l)) for p, t, l in got)
    for p in want:
        if p not in maybe:
            ensure(p in have, "%s: no tick at %s (ticks %r)", what, p, [float(g[0]) for g in got])
    for p, tl in have.items():
        ensure(p in want, "%s: tick at %s is none of the positions in the range %r .. %r", what, p, float(lo), float(hi))
        if p not in maybe:
            ensure(want[p] == tl, "%s: levels %r at %s, expected %r", what, tl, p, want[p])
    return have


# --- linear

dists = st.lists(st.one_of(st.sampled_from(["1", "1/2", "1/3", "0.25", "2", "5", "1/6", "0.1", "3/7"]), st.tuples(st.integers(1, 9), st.integers(1, 9))), min_size=0, max_size=3)
scale = st.sampled_from([0, 0, 0, 1, -1, 3, -3, 8, -8])
ends = st.tuples(st.integers(-40, 40), st.integers(-40, 40), st.sampled_from(["on", "on", "off", "off", "near"]), st.sampled_from(["on", "on", "off", "off", "near"]), real(0.02, 0.98, 2), real(0.02, 0.98, 2))
flags = st.tuples(st.booleans(), st.booleans())
linear = st.fixed_dictionaries(dict(ticks=st.one_of(st.none(), dists), labels=st.one_of(st.none(), st.none(), dists), scale=scale, ends=ends, extend=flags,
                                    exttick=st.sampled_from(["default", 0, 0, 1, None, 2]), extlabel=st.sampled_from(["default", "default", 0, 1, None])))


def frac(d, k=0):
    return (F(d) if isinstance(d, str) else F(d[0], d[1])) * F(10) ** k


def ends_of(c, step):
    i, j, a, b, x, y = c
    if i == j:
        j = i + 1
    if i > j:
        i, j = j, i
    r = []
    for n, m, f in ((i, a, x), (j, b, y)):
        r.append(float(step * n) if m == "on" else float(step * n) * (1 + 3e-14) if m == "near" else float(step * (F(n) + F(f))))
    if r[0] >= r[1]:
        raise Skip
    return r


def given(d, k):
    f = frac(d, k)
    return (f.numerator, f.denominator)


def linmodel(ticks, labels, exttick, extlabel, lo, hi, extend, what, got):
    if exttick is not None and exttick < len(ticks):
        d = ticks[exttick]
        if extend[0]:
            lo = widen(lo, d, math.floor)
        if extend[1]:
            hi = widen(hi, d, math.ceil)
    if extlabel is not None and extlabel < len(labels):
        d = labels[extlabel]
        if extend[0]:
            lo = widen(lo, d, math.floor)
        if extend[1]:
            hi = widen(hi, d, math.ceil)
    sets = []
    for kind, l in (("tick", ticks), ("label", labels)):
        for i, d in enumerate(l):
            n0, n1 = math.floor(lo / d) - 1, math.ceil(hi / d) + 1
            if n1 - n0 > 1000:
                raise Skip
            sets.append(([n * d for n in range(n0, n1 + 1)], kind, i, lambda p, d=d: d))
    have = compare(got, sets, lo, hi, what, F(1, 10 ** 10))
    return have, lo, hi


def widen(x, d, f):
    "next multiple in the direction given by f, where multiples up to 1e-10 away count"
    n = round(x / d)
    return n * d if abs(x / d - n) < F(1, 10 ** 10) else f(x / d) * d


def check_linear(c, ctx):
    from pyx.graph.axis import parter
    if c["ticks"] is None and not c["labels"]:
        raise Skip
    k = c["scale"]
    kw = {}
    if c["ticks"] is not None:
        kw["tickdists"] = [given(d, k) for d in c["ticks"]]
    if c["labels"] is not None:
        kw["labeldists"] = [given(d, k) for d in c["labels"]]
    if c["exttick"] != "default":
        kw["extendtick"] = c["exttick"]
    if c["extlabel"] != "default":
        kw["extendlabel"] = c["extlabel"]
    if c["labels"] is None and not c["ticks"] or not (c["labels"] or c["ticks"]):
        raise Skip
    ticks = [frac(d, k) for d in c["ticks"]] if c["ticks"] is not None else [frac(c["labels"][0], k)]
    labels = [frac(d, k) for d in c["labels"]] if c["labels"] is not None else [frac(c["ticks"][0], k)]
    step = max(ticks + labels)
    lo, hi = ends_of(c["ends"], step)
    p = parter.linear(**kw)
    fs = p.partfunctions(lo, hi, *c["extend"])
    ensure(len(fs) == 1, "%d directions", len(fs))
    what = "linear(%r).partfunctions(%r, %r, %r, %r)" % (kw, lo, hi, *c["extend"])
    got = fs[0]()
    exttick = 0 if c["exttick"] == "default" else c["exttick"]
    extlabel = None if c["extlabel"] == "default" else c["extlabel"]
    have, _, _ = linmodel(ticks, labels, exttick, extlabel, F(lo), F(hi), c["extend"], what, got)
    ensure(fs[0]() is None, "%s: more than one partition", what)
    again = p.partfunctions(lo, hi, *c["extend"])[0]()
    ensure(levels(again) == levels(got), "%s: not repeatable", what)
    if all(c["extend"]) and exttick is not None and exttick < len(ticks):
        ensure(got and val(got[0]) <= F(lo) + F(1, 10 ** 9) * step and val(got[-1]) >= F(hi) - F(1, 10 ** 9) * step, "%s: the ticks do not cover the range", what)
    ctx.nontrivial(len(set(have.values())) > 1)
    ctx.label("extended", any(c["extend"]) and exttick is not None and exttick < len(ticks))


# --- autolinear

auto = st.fixed_dictionaries(dict(lo=st.one_of(st.integers(-100, 100), real(-10, 10, 3)), w=st.one_of(st.sampled_from([1, 10, 100, 0.1, 0.01, 5, 2, 0.5]), real(0.001, 10, 3), real(1, 1000, 1)), scale=st.integers(-9, 9),
                                  variants=st.one_of(st.none(), st.none(), st.lists(st.integers(2, 19), min_size=1, max_size=4, unique=True).map(sorted)), ext=st.sampled_from(["default", 0, 1, None]), extend=flags,
                                  sub=st.sampled_from([2, 3, 4, 5])))


def check_auto(c, ctx):
    from pyx.graph.axis import parter, tick
    lo = float(F(str(c["lo"])) * F(10) ** c["scale"])
    hi = float((F(str(c["lo"])) + F(str(c["w"]))) * F(10) ** c["scale"])
    if hi - lo < 1e-2 * max(abs(lo), abs(hi)):
        raise Skip
    kw = {}
    if c["variants"]:
        var = [[F(n, 2), F(n, 2 * c["sub"])] for n in c["variants"]]
        if var[-1][0] >= var[0][0] * 10:
            raise Skip
        kw["variants"] = [[tick.rational((x.numerator, x.denominator)) for x in v] for v in var]
    else:
        var = [[F(1), F(1, 2)], [F(2), F(1)], [F(5, 2), F(5, 4)], [F(5), F(5, 2)]]
    if c["ext"] != "default":
        kw["extendtick"] = c["ext"]
    ext = 0 if c["ext"] == "default" else c["ext"]
    p = parter.autolinear(**kw)
    fs = p.partfunctions(lo, hi, *c["extend"])
    ensure(len(fs) == 2, "%d directions", len(fs))
    what = "autolinear(%r).partfunctions(%r, %r, %r, %r)" % (c["variants"], lo, hi, *c["extend"])
    # position of the first partition in the sequence of all variants
    got = [[fs[0]() for _ in range(4)], [fs[1]() for _ in range(3)]]
    base = math.floor(math.log10(hi - lo) + 1e-9)
    start = None
    fails = []
    for b in (base, base - 1):
        try:
            one(var, b, 0, ext, lo, hi, c["extend"], what, got[0][0])
            start = b
            break
        except Exception as e:
            if isinstance(e, Skip):
                raise
            fails.append(e)
    if start is None:
        raise fails[0]
    n = 0
    for direction, parts in zip((1, -1), got):
        for i, ticks in enumerate(parts):
            n += len(set((t.ticklevel, t.labellevel) for t in ticks)) > 1
            one(var, start, i if direction == 1 else -1 - i, ext, lo, hi, c["extend"], "%s, partition %d in direction %d" % (what, i, direction), ticks)
    ctx.nontrivial(n > 0)
    # a sensible start: a few main ticks
    span = F(hi) - F(lo)
    ensure(F(1, 2) < span / F(10) ** start <= 110, "%s: starts with distance %s", what, var[0][0] * F(10) ** start)


def one(var, start, index, ext, lo, hi, extend, what, ticks):
    d = [x * F(10) ** (start + index // len(var)) for x in var[index % len(var)]]
    linmodel(d, d[:1], ext, None, F(lo), F(hi), extend, what, ticks)


# --- logarithmic

pre = st.one_of(st.tuples(st.sampled_from([[1, 2, 5], [1, 2, 3, 4, 5, 6, 7, 8, 9], [1, 3], ["3/2", 5]]), st.sampled_from([10, 16, 100])), st.tuples(st.sampled_from([[1], [2], ["1/3"]]), st.sampled_from([10, 100, 2, 8, 16])))
preset = st.sampled_from(["pre1exp", "pre125exp", "pre1to9exp"])
pres = st.lists(st.one_of(preset, pre), max_size=3)
logcase = st.fixed_dictionaries(dict(ticks=st.one_of(st.none(), pres), labels=st.one_of(st.none(), st.none(), pres), lo=st.one_of(st.sampled_from([1, 2, 5, 10, 0.1, 0.2, 3, 7, 8, 9.99]), real(0.5, 50, 2)),
                                     hi=st.one_of(st.sampled_from([10, 20, 50, 100, 1000, 2000, 30, 64, 4096]), real(50, 5000, 1)), scale=st.integers(-7, 7), neg=st.booleans(), extend=flags,
                                     exttick=st.sampled_from(["default", "default", 0, 1, None]), extlabel=st.sampled_from(["default", "default", 0, 1])))


def prespec(p):
    return {"pre1exp": ([1], 10), "pre125exp": ([1, 2, 5], 10), "pre1to9exp": (list(range(1, 10)), 10)}[p] if isinstance(p, str) else p


def logpos(p, lo, hi):
    "all positions from below lo to above hi (positive)"
    pr, e = prespec(p)
    pr = [F(x) for x in pr]
    n0 = math.floor(math.log(float(lo)) / math.log(e)) - 3
    n1 = math.ceil(math.log(float(hi)) / math.log(e)) + 3
    return sorted(x * F(e) ** n for x in pr for n in range(n0, n1 + 1))


def near(p, x):
    return abs(math.log(float(p)) - math.log(float(x))) < 2e-10 * math.log(2)


def check_log(c, ctx):
    from pyx.graph.axis import parter, tick
    if c["labels"] is None and not c["ticks"] or c["ticks"] is None and not c["labels"]:
        raise Skip
    kw = {}

    def real_(p):
        if isinstance(p, str):
            return getattr(parter.logarithmic, p)
        return parter.preexp([tick.rational((F(x).numerator, F(x).denominator)) for x in p[0]], p[1])

    for k, n in (("ticks", "tickpreexps"), ("labels", "labelpreexps")):
        if c[k] is not None:
            kw[n] = [real_(p) for p in c[k]]
    for k, n in (("exttick", "extendtick"), ("extlabel", "extendlabel")):
        if c[k] != "default":
            kw[n] = c[k]
    ticks = c["ticks"] if c["ticks"] is not None else c["labels"][:1]
    labels = c["labels"] if c["labels"] is not None else c["ticks"][:1]
    lo, hi = float(F(str(c["lo"])) * F(10) ** c["scale"]), float(F(str(c["hi"])) * F(10) ** c["scale"])
    if hi <= lo * 1.001:
        raise Skip
    extend = list(c["extend"])
    args = (-hi, -lo) if c["neg"] else (lo, hi)
    what = "logarithmic(ticks %r, labels %r, %r).partfunctions(%r, %r, %r, %r)" % (c["ticks"], c["labels"], {k: v for k, v in kw.items() if "ext" in k}, *args, *extend)
    got = parter.logarithmic(**kw).partfunctions(*args, *extend)[0]()
    exttick = 0 if c["exttick"] == "default" else c["exttick"]
    extlabel = None if c["extlabel"] == "default" else c["extlabel"]
    logcompare(got, ticks, labels, exttick, extlabel, lo, hi, c["neg"], extend, what, ctx)


def logcompare(got, ticks, labels, exttick, extlabel, lo, hi, neg, extend, what, ctx):
    if neg:
        extend = extend[::-1]
    L, H = F(lo), F(hi)
    for lev, l in ((exttick, ticks), (extlabel, labels)):
        if lev is not None and lev < len(l):
            ps = logpos(l[lev], L, H)
            if extend[0]:
                L = max(p for p in ps if p < L or near(p, L))
            if extend[1]:
                H = min(p for p in ps if p > H or near(p, H))
    sets = []
    for kind, ll in (("tick", ticks), ("label", labels)):
        for i, p in enumerate(ll):
            ps = logpos(p, L, H)
            sets.append(([-x for x in ps[::-1]] if neg else ps, kind, i, lambda x: abs(x)))
    have = compare(got, sets, -H if neg else L, -L if neg else H, what, F(1, 10 ** 9))
    ctx.nontrivial(len(set(have.values())) > 1)
    ctx.label("negative", neg)
    ctx.label("extended", any(extend) and exttick is not None and exttick < len(ticks))


# --- autologarithmic

P1, P125, P19 = "pre1exp", "pre125exp", "pre1to9exp"


def check_autolog(c, ctx):
    from pyx.graph.axis import parter
    lo, hi = float(F(str(c["lo"])) * F(10) ** c["scale"]), float(F(str(c["hi"])) * F(10) ** c["scale"])
    hi *= 10.0 ** c["more"]
    if hi <= lo * 1.001:
        raise Skip
    args = (-hi, -lo) if c["neg"] else (lo, hi)
    kw = {} if c["exttick"] == "default" else dict(extendtick=c["exttick"])
    exttick = 0 if c["exttick"] == "default" else c["exttick"]
    fs = parter.autologarithmic(**kw).partfunctions(*args, *c["extend"])
    what = "autologarithmic(%r).partfunctions(%r, %r, %r, %r)" % (kw, *args, *c["extend"])
    ensure(len(fs) == 2, "%d directions", len(fs))
    seq = [[([P1, P19], [P1]), ([P1, P19], [P1, P125])], [([([1], 10 ** n), P1], [([1], 10 ** n)]) for n in (2, 3, 4)]]
    for f, want in zip(fs, seq):
        for ticks, labels in want:
            got = f()
            ensure(got is not None, "%s: too few partitions", what)
            logcompare(got, ticks, labels, exttick, None, lo, hi, c["neg"], list(c["extend"]), what, ctx)
    ensure(fs[0]() is None, "%s: too many partitions", what)


autolog = st.fixed_dictionaries(dict(lo=st.one_of(st.sampled_from([1, 2, 5, 10, 0.1, 3]), real(0.5, 50, 2)), hi=st.one_of(st.sampled_from([10, 20, 100, 1000]), real(50, 5000, 1)), scale=st.integers(-7, 7), more=st.sampled_from([0, 0, 3, 9]),
                                     neg=st.booleans(), extend=flags, exttick=st.sampled_from(["default", 0, 1, None])))

SUBS = [Sub("linear", linear, check_linear, quick=4000, thorough=100000),
        Sub("autolinear", auto, check_auto, quick=1500, thorough=40000),
        Sub("logarithmic", logcase, check_log, quick=3000, thorough=80000),
        Sub("autologarithmic", autolog, check_autolog, quick=500, thorough=10000)]
