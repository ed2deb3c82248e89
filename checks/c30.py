"""C30 axes: range, ticks and coordinates"""
import logging, math
from fractions import Fraction as F
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close
from lib.gen import real

PROP = "C30"
RULE = ("linear, logarithmic, sized, time and bar-like axes with random fixed ends, reversal, divisor, manual ticks, partitioners and data columns, created along a line; ranges, ticks, labels and the conversion "
        "to graph coordinates compared with formulas; non-trivial: at least three ticks, or at least two bars")

_E = {}


def prepare():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


def engine():
    from pyx import text
    if "e" not in _E:
        _E["e"] = text.UnicodeEngine()
    return _E["e"]


number = st.one_of(st.integers(-50, 50), real(-20, 20, 2), real(-20, 20, 4))
column = st.lists(st.one_of(number, number, number, st.sampled_from([None, "bad"])), min_size=1, max_size=8)
end = st.one_of(st.none(), number)
manual = st.lists(st.tuples(st.integers(-12, 12), st.sampled_from([1, 2, 3, 7]), st.sampled_from([0, 0, 1, None]), st.sampled_from([0, 0, 1, None]), st.one_of(st.none(), st.sampled_from(["M", "here"]))), max_size=3)
regular = st.fixed_dictionaries(dict(columns=st.lists(column, min_size=1, max_size=3), min=end, max=end, reverse=st.booleans(), divisor=st.one_of(st.none(), st.sampled_from([2, 10, 0.5, 1000, 3.141592653589793])),
                                     manual=st.one_of(st.just([]), manual), painter=st.sampled_from(["regular", "regular", "none"]), parter=st.sampled_from(["auto", "auto", "auto", "none", "linear", "sub"]),
                                     cls=st.sampled_from(["linear", "linear", "sizedlinear", "autosizedlinear"]), fallback=st.one_of(st.none(), st.sampled_from([1, 2.5])), call=st.booleans(),
                                     length=st.sampled_from([2, 5, 10, 20]), probe=st.lists(real(-0.5, 1.5, 2), min_size=2, max_size=4)))


def anchor(ax, length, columns):
    from pyx import path
    from pyx.graph import axis
    a = axis.anchoredaxis(ax, engine(), "test")
    for col in columns:
        a.adjustaxis(col)
    a.setcreatecall(lambda: None)
    a.setpositioner(axis.positioner.pathpositioner(path.line(1, 2, 1 + length, 2)))
    return a


def mergelevels(manual):
    out = {}
    for n, d, tl, ll, lab in manual:
        out.setdefault(F(n, d), (tl, ll, lab))
    return out


def build(c, log=False):
    from pyx.graph import axis
    man = mergelevels(c["manual"])
    kw = {}
    if man:
        kw["manualticks"] = [axis.tick.tick((v.numerator, v.denominator), ticklevel=t[0], labellevel=t[1], label=t[2]) for v, t in man.items()]
    for k in ("min", "max", "divisor"):
        if c[k] is not None:
            kw[k] = c[k]
    if c["reverse"]:
        kw["reverse"] = 1
    if c["fallback"] is not None:
        kw["fallbackrange"] = c["fallback"]
    if c["painter"] == "none":
        kw["painter"] = None
    if c["parter"] == "none":
        kw["parter"] = None
    kw["texter"] = axis.texter.default(mantissatexter_period="(%s)") if log else axis.texter.decimal(period="(%s)")
    return kw, man


def labelvalue(s):
    "the value of a label made by the default or the decimal texter"
    if not isinstance(s, str):
        s = s.tex
    if s.endswith("}") and "^{" in s:
        m, e = s[:-1].split("^{")
        if r"\cdot{}" in m:
            m, b = m.split(r"\cdot{}")
            m = labelvalue(m)
        else:
            m, b = (-1, m[1:]) if m[0] == "-" else (1, m)
        return m * F(b) ** int(e)
    if "(" in s:
        a, b = s[:-1].split("(")
        neg = a.startswith("-")
        n = len(a.split(".")[1])
        v = abs(F(a if n else a + "0")) + F(int(b), (10 ** len(b) - 1) * 10 ** n)
        return -v if neg else v
    return F(s)


def check_regular(c, ctx, log=False):
    from pyx.graph import axis
    kw, man = build(c, log)
    cls = "logarithmic" if log else c["cls"]
    auto = cls == "autosizedlinear"
    if auto and (c["fallback"] is not None or man):
        raise Skip          # the range of these is not allowed to change
    if c["parter"] == "linear":
        kw["parter"] = axis.parter.logarithmic([axis.parter.logarithmic.pre1exp], extendtick=None) if log else axis.parter.linear(["10", "5"])
    elif c["parter"] == "sub":
        kw["parter"] = axis.parter.autologarithmic(extendtick=1) if log else axis.parter.autolinear(extendtick=1)
    if auto:
        kw.pop("parter", None)
    if c["call"]:
        first = {k: v for i, (k, v) in enumerate(sorted(kw.items())) if i % 2}
        ax = getattr(axis, cls)(**first)(**{k: v for k, v in kw.items() if k not in first})
    else:
        ax = getattr(axis, cls)(**kw)
    what = "axis.%s(%s)%s" % (cls, ", ".join("%s=%r" % (k, v if k not in ("manualticks", "texter", "parter", "painter") else c.get(k, man)) for k, v in sorted(kw.items())), " with data %r" % c["columns"])
    values = [x for col in c["columns"] for x in col if isinstance(x, (int, float))]
    lo, hi, rev = c["min"], c["max"], c["reverse"]
    if lo is not None and hi is not None and lo > hi:
        lo, hi, rev = hi, lo, not rev
    fixlo, fixhi = lo is not None, hi is not None
    if not values and not (fixlo and fixhi):
        raise Skip
    dlo = lo if fixlo else min(values)
    dhi = hi if fixhi else max(values)
    if log and c["fallback"] is not None and dlo == dhi:
        raise Skip
    if dlo == dhi and c["fallback"] is not None:
        dlo, dhi = dlo - 0.5 * c["fallback"], dhi + 0.5 * c["fallback"]
    if dlo >= dhi or dhi - dlo < 1e-2 * max(abs(dlo), abs(dhi)) or log and (dlo * dhi <= 0 or max(abs(dlo), abs(dhi)) < 1.2 * min(abs(dlo), abs(dhi))):
        raise Skip
    if log and any(n * dlo <= 0 for n in man):
        raise Skip
    a = anchor(ax, c["length"], c["columns"])
    if kw.get("parter", 1) is None and c["painter"] != "none" and not man:
        raise Skip
    try:
        a.create()
    except RuntimeError as e:
        # no partitioning without overlapping labels was found
        if "no axis partitioning" in str(e) or "no valid" in str(e):
            if c["parter"] in ("linear", "sub") or c["length"] <= 5 or man or log or auto:
                raise Skip
        raise
    data = a.data
    ticks = list(data.ticks)
    div = c["divisor"] or 1
    mlo, mhi = float(data.min), float(data.max)
    tol = 1e-8 * (mhi - mlo)
    pos = [float(t) for t in ticks]
    ensure(all(x < y for x, y in zip(pos, pos[1:])), "%s: ticks at %r", what, pos)
    # range
    if fixlo:
        ensure(mlo == dlo, "%s: lower end %r", what, mlo)
    else:
        first = min([dlo] + pos[:1])
        close(mlo, first, tol, "%s: lower end", what)
    if fixhi:
        ensure(mhi == dhi, "%s: upper end %r", what, mhi)
    else:
        close(mhi, max([dhi] + pos[-1:]), tol, "%s: upper end", what)
    # manual ticks
    left = dict(man)
    for t, p in zip(ticks, pos):
        hit = [v for v in left if abs(float(v) * div - p) < 1e-8 * max(1e-3, abs(p))]
        if hit:
            m = left.pop(hit[0])
            ensure((t.ticklevel, t.labellevel) == m[:2], "%s: levels %r of the manual tick %s", what, (t.ticklevel, t.labellevel), hit[0])
            if m[2] is not None:
                ensure(t.label == m[2], "%s: label %r of the manual tick %s", what, t.label, hit[0])
        else:
            ensure(mlo - tol <= p <= mhi + tol or log, "%s: tick at %r outside of %r .. %r", what, p, mlo, mhi)
        if t.labellevel is not None and not (hit and m[2] is not None):
            v = labelvalue(t.label)
            ensure(abs(float(v) * div - p) < 1e-8 * max(abs(p), 1e-3), "%s: the tick at %r is labelled %r", what, p, t.label if isinstance(t.label, str) else t.label.tex)
    ensure(not left, "%s: manual ticks %s are missing (ticks %r)", what, left, pos)
    if "manualticks" in kw:
        ensure([(F(t.num, t.denom), t.ticklevel, t.labellevel, t.label) for t in kw["manualticks"]] == [(v,) + m for v, m in man.items()], "%s: the given ticks are modified", what)
    if c["parter"] == "none" and not auto:
        ensure(len(ticks) == len(man), "%s: %d ticks without a partitioner", what, len(ticks))
    # coordinates
    g = (lambda x: math.log(abs(x))) if log else (lambda x: x)
    for x in [mlo, mhi] + [mlo + (mhi - mlo) * p for p in c["probe"]] + pos:
        if log and x * mlo <= 0:
            continue
        v = (g(x) - g(mlo)) / (g(mhi) - g(mlo))
        close(a.convert(x), 1 - v if rev else v, 1e-9 * max(1, abs(v)) if not log else 1e-8 * max(1, abs(v)), "%s: position of %r in %r .. %r", what, x, mlo, mhi)
    for t in ticks:
        x, y = a.tickpoint_pt(t)
        v = a.convert(t)
        if -0.001 <= v <= 1.001:
            close([x, y], [(1 + c["length"] * v) * 72 / 2.54, 2 * 72 / 2.54], 1e-3, "%s: point of the tick at %r", what, float(t))
        close(a.tickdirection(t), [0, 1], 1e-6, "%s: direction of the tick", what)
    if cls == "autosizedlinear":
        close(data.size, dhi - dlo, tol, "%s: size", what)
    elif cls == "sizedlinear":
        ensure(data.size == 1, "%s: size", what)
    # linked axis
    l = axis.linkedaxis(a, "linked")
    l.setcreatecall(lambda: None)
    ensure(a.convert(values[0] if values else mlo) == l.convert(values[0] if values else mlo) if not log else True, "linked axis converts differently")
    ctx.nontrivial(len(ticks) >= 3)
    ctx.label("negative" if mhi < 0 else "positive")
    ctx.label("manual", bool(man))
    ctx.label("reversed", bool(rev))
    ctx.label("labelled", any(t.label for t in ticks))


lognumber = st.one_of(st.integers(1, 5000), real(0.01, 100, 2), st.sampled_from([1, 10, 100, 1000, 0.1, 1e-3, 1e6, 20, 50]))


@st.composite
def logcase(draw):
    neg = draw(st.integers(0, 3)) == 0
    n = lognumber.map(lambda x: -x) if neg else lognumber
    c = dict(draw(regular))
    c["columns"] = draw(st.lists(st.lists(st.one_of(n, n, n, st.sampled_from([None, "bad"])), min_size=1, max_size=6), min_size=1, max_size=3))
    c["min"], c["max"] = draw(st.one_of(st.none(), n)), draw(st.one_of(st.none(), n))
    if c["divisor"] == 3.141592653589793:
        c["divisor"] = None
    return c


def check_log(c, ctx):
    check_regular(c, ctx, log=True)


# --- bars

sub = st.one_of(st.just(None), st.tuples(st.just("sized"), st.sampled_from([1, 2, 0.5, 3])), st.tuples(st.just("lin"), number, number), st.tuples(st.just("auto"), number, number))
names = ["a", "b", "c", 4, "long name"]
bar = st.fixed_dictionaries(dict(kind=st.sampled_from(["bar", "bar", "split", "nested"]), subaxes=st.one_of(st.none(), st.lists(sub, min_size=5, max_size=5)), dist=st.one_of(st.none(), st.sampled_from([0, 0.5, 1, 0.3])),
                                 first=st.one_of(st.none(), st.sampled_from([0, 1, 0.25])), last=st.one_of(st.none(), st.sampled_from([0, 1, 0.25])), reverse=st.booleans(), call=st.booleans(),
                                 columns=st.lists(st.lists(st.tuples(st.one_of(st.integers(0, 4), st.integers(0, 4), st.none()), number), min_size=1, max_size=6), min_size=1, max_size=3),
                                 painter=st.booleans(), length=st.sampled_from([5, 10, 20])))


def check_bar(c, ctx):
    from pyx.graph import axis
    kind = c["kind"]
    kw = {}
    for k, n in (("dist", "dist"), ("first", "firstdist"), ("last", "lastdist")):
        if c[k] is not None:
            kw[n] = c[k]
    if c["reverse"]:
        kw["reverse"] = 1
    lin = lambda **k: axis.linear(painter=None, linkpainter=None, parter=None, **k)
    subs = None
    if c["subaxes"] and kind != "nested":
        subs = {}
        for n, s in zip(names, c["subaxes"]):
            if s is None:
                subs[n] = None
            elif s[0] == "sized":
                subs[n] = axis.sizedlinear(s[1], painter=None, parter=None)
            elif s[0] == "lin":
                if s[1] == s[2]:
                    raise Skip
                subs[n] = lin(min=s[1], max=s[2])
            else:
                if s[1] == s[2]:
                    raise Skip
                subs[n] = axis.autosizedlinear(min=s[1], max=s[2], painter=None)
        kw["subaxes"] = subs
    if kind == "split" and not subs:
        kw["defaultsubaxis"] = lin()
    if not c["painter"]:
        kw["painter"] = None
    cls = dict(bar=axis.bar, split=axis.split, nested=axis.nestedbar)[kind]
    if c["call"]:
        f = {k: v for i, (k, v) in enumerate(sorted(kw.items())) if i % 2}
        ax = cls(**f)(**{k: v for k, v in kw.items() if k not in f})
    else:
        ax = cls(**kw)
    # the model
    order, vals = [], {}
    for col in c["columns"]:
        for n, v in col:
            if n is None:
                continue
            n = names[n]
            if subs is not None and subs[n] is None:
                continue
            if n not in order:
                order.append(n)
            vals.setdefault(n, []).append(v)
    if c["reverse"]:
        order.reverse()
    if not order:
        raise Skip
    dist = 0.5 if c["dist"] is None else c["dist"]
    first = c["first"] if c["first"] is not None else 0 if kind == "split" else dist / 2
    last = c["last"] if c["last"] is not None else 0 if kind == "split" else dist / 2
    size, rng = {}, {}
    for n in order:
        size[n] = 1
        rev = False
        lo, hi = min(vals[n]), max(vals[n])
        if subs is not None:
            s = c["subaxes"][names.index(n)]
            if s[0] == "sized":
                size[n] = s[1]
            else:
                lo, hi, rev = (s[1], s[2], False) if s[1] < s[2] else (s[2], s[1], True)
                if s[0] == "auto":
                    size[n] = hi - lo
        rng[n] = lo, hi, rev
        if kind == "nested":
            inner = []
            for v in vals[n]:
                if v not in inner:
                    inner.append(v)
            rng[n] = inner
            size[n] = len(inner)
        elif hi - lo <= 1e-3 * max(abs(lo), abs(hi)):
            raise Skip
    total = first + last + dist * (len(order) - 1) + sum(size.values())
    if kind == "nested":
        columns = [[(None if n is None else names[n], (v, 0.0)) for n, v in col] + [(None if n is None else names[n], (v, 1.0)) for n, v in col] for col in c["columns"]]
    else:
        columns = [[(None if n is None else names[n], v) for n, v in col] for col in c["columns"]]
    what = "axis.%s(%r) with data %r" % (kind, kw, columns)
    a = anchor(ax, c["length"], columns)
    a.create()
    x = first
    for n in order:
        v0, v1 = x / total, (x + size[n]) / total
        if kind == "nested":
            for i, u in enumerate(rng[n]):
                for k in (0, 0.25, 1):
                    close(a.convert((n, (u, k))), v0 + (v1 - v0) * (i + k) / len(rng[n]), 1e-9, "%s: position of %r", what, (n, (u, k)))
        else:
            lo, hi, rev = rng[n]
            for k in (0, 0.3, 1):
                u = k * hi + (1 - k) * lo
                close(a.convert((n, u)), v0 + (v1 - v0) * (1 - k if rev else k), 1e-8, "%s: position of %r", what, (n, u))
            for u in (lo - (hi - lo) * 0.01, hi + (hi - lo) * 0.01):
                try:
                    v = a.convert((n, u))
                except ValueError:
                    continue
                fail("%s: %r outside of its bar gets the position %r", what, (n, u), v)
        x += size[n] + dist
    try:
        a.convert((None, 0))
        fail("%s: position for None", what)
    except ValueError:
        pass
    ctx.nontrivial(len(order) >= 2)
    ctx.label(kind)
    ctx.label("reversed", c["reverse"])


# ---- time axes -----------------------------------------------------------------------------------------

instant = st.one_of(st.integers(-40, 40).map(lambda d: d * 86400 * 10 ** 6), st.integers(-10 ** 13, 10 ** 13), st.integers(-5 * 10 ** 16, 10 ** 17), st.integers(-300, 300), st.integers(-100, 100).map(lambda h: h * 3600 * 10 ** 6))
tcolumn = st.lists(st.one_of(instant, instant, instant, st.sampled_from([None, "bad"])), min_size=1, max_size=6)
tmanual = st.lists(st.tuples(instant, st.sampled_from([0, 0, 1, None]), st.sampled_from([0, 0, 1, None]), st.sampled_from([None, None, "M", "here"])), max_size=4, unique_by=lambda t: t[0])
timecase = st.fixed_dictionaries(dict(columns=st.lists(tcolumn, min_size=1, max_size=3), min=st.one_of(st.none(), instant), max=st.one_of(st.none(), instant), reverse=st.booleans(), manual=tmanual, painter=st.sampled_from(["regular", "none"]), tz=st.sampled_from([None, None, 0, 60, -210]),
                                      format=st.sampled_from(["%d", "%H:%M:%S", "%Y-%m-%d", "%j-%f"]), call=st.sampled_from([None, "all", "some"]), linked=st.booleans(), probe=st.lists(instant, min_size=1, max_size=3)))


def check_time(c, ctx):
    import datetime
    from pyx.graph import axis
    from pyx.graph.axis import timeaxis
    tz = None if c["tz"] is None else datetime.timezone(datetime.timedelta(minutes=c["tz"]))
    base = datetime.datetime(2004, 2, 29, 12, 30, 0, tzinfo=tz)

    def at(us):
        return base + datetime.timedelta(microseconds=us)

    ticks = []
    for us, tl, ll, lab in c["manual"]:
        t = at(us)
        ticks.append(timeaxis.timetick(t.year, t.month, t.day, hour=t.hour, minute=t.minute, second=t.second, microsecond=t.microsecond, tzinfo=tz, ticklevel=tl, labellevel=ll, label=lab))
    kw = dict(texter=timeaxis.timetexter(c["format"]))
    if ticks:
        kw["manualticks"] = ticks
    if c["painter"] == "none":
        kw["painter"] = None
    if c["reverse"]:
        kw["reverse"] = 1
    for k in ("min", "max"):
        if c[k] is not None:
            kw[k] = at(c[k])
    if c["call"] == "all":
        ax = timeaxis.timeaxis()(**kw)
    elif c["call"]:
        ax = timeaxis.timeaxis(**{k: v for i, (k, v) in enumerate(sorted(kw.items())) if i % 2})(**{k: v for i, (k, v) in enumerate(sorted(kw.items())) if not i % 2})
    else:
        ax = timeaxis.timeaxis(**kw)
    lo, hi, rev = c["min"], c["max"], c["reverse"]
    if lo is not None and hi is not None and lo > hi:
        lo, hi, rev = hi, lo, not rev
        if c["call"] == "some":
            raise Skip()         # (the order is a matter of both ends set at once)
    data = [v for col in c["columns"] for v in col if isinstance(v, int)]
    cover = data + [t[0] for t in c["manual"]]
    if not data and (lo is None or hi is None):
        raise Skip()
    elo = lo if lo is not None else min(cover)
    ehi = hi if hi is not None else max(cover)
    if (lo if lo is not None else min(data)) >= (hi if hi is not None else max(data)):
        raise Skip()             # (no range)
    a = anchor(ax, 10, [[at(v) if isinstance(v, int) else v for v in col] for col in c["columns"]])
    a.create()
    if c["linked"]:
        from pyx import path
        l = axis.linkedaxis(a)
        l.setpositioner(axis.positioner.pathpositioner(path.line(0, 0, 0, 5)))
        l.create()
    ensure(a.data.min == at(elo) and a.data.max == at(ehi), "range %s to %s instead of %s to %s", a.data.min, a.data.max, at(elo), at(ehi))
    if ehi > elo:
        for us in [elo, ehi] + data + c["probe"] + [t[0] for t in c["manual"]]:
            want = F(ehi - us if rev else us - elo, ehi - elo)
            for b in [a] + ([l] if c["linked"] else []):
                got = b.convert(at(us))
                close(got, float(want), 1e-9 * max(1, abs(want)), "position of %s between %s and %s", at(us), at(elo), at(ehi))
    man = sorted(c["manual"])
    ensure(len(a.data.ticks) == len(man), "%d ticks instead of %d", len(a.data.ticks), len(man))
    for t, (us, tl, ll, lab) in zip(a.data.ticks, man):
        ensure(t == at(us) and t.ticklevel == tl and t.labellevel == ll, "tick %s of levels %s, %s instead of %s, %s, %s", t, t.ticklevel, t.labellevel, at(us), tl, ll)
        want = lab if lab is not None or ll is None else at(us).strftime(c["format"])
        ensure(t.label == want, "label %r instead of %r", t.label, want)
    for t, (us, tl, ll, lab) in zip(ticks, c["manual"]):
        ensure(t.label == lab, "the given tick is changed")
    ctx.nontrivial(len(man) >= 1 and len(data) > 1)
    ctx.label("ticks outside", any(t[0] < min(data, default=0) or t[0] > max(data, default=0) for t in man))
    ctx.label("reversed", rev)


SUBS = [Sub("time", timecase, check_time, quick=2000, thorough=20000),
        Sub("linear", regular, check_regular, quick=4000, thorough=40000),
        Sub("logarithmic", logcase(), check_log, quick=4000, thorough=30000),
        Sub("bar", bar, check_bar, quick=4000, thorough=30000)]
