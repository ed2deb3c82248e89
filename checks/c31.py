"""C31 tick label texts"""
from fractions import Fraction as F
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip

PROP = "C31"
RULE = ("lists of ticks with random rational values (some with labels already, some without label level) given to decimal, exponential and rational texters with random options; the label text is parsed "
        "back and must be exactly the value of the tick in the requested notation; non-trivial: at least two labels made")

value = st.one_of(st.tuples(st.integers(-30, 30), st.integers(1, 12)), st.tuples(st.integers(-50, 50), st.sampled_from([1, 1, 10, 100, 1000, 8])),
                  st.tuples(st.integers(-10 ** 9, 10 ** 9), st.sampled_from([1, 10 ** 3, 10 ** 7])), st.tuples(st.integers(-9, 9), st.sampled_from([7, 13, 6, 28, 12, 700, 10 ** 6, 3 * 10 ** 5])),
                  st.tuples(st.sampled_from([1, 10, -10, 1000, 10 ** 5, -10 ** 4, 10 ** 12]), st.sampled_from([1, 1, 10, 10 ** 4, 10 ** 7])))
tick = st.tuples(value, st.sampled_from([0, 0, 0, 1, None]), st.sampled_from([None, None, None, None, None, "given"]), st.sampled_from([1, 1, 1, -1, 3])).map(lambda t: t if t[0][0] else t[:3] + (1,))
ticks = st.lists(tick, min_size=1, max_size=6)
affix = st.sampled_from(["", "", "a", "<x>"])


def opt(d):
    return st.fixed_dictionaries({}, optional=d)


deckw = opt(dict(prefix=affix, infix=affix, suffix=affix, equalprecision=st.booleans(), decimalsep=st.sampled_from([".", ";"]), thousandsep=st.sampled_from(["", "'", "\\,"]),
                 thousandthpartsep=st.sampled_from(["", "_", "\\,"]), plus=st.sampled_from(["", "+"]), minus=st.sampled_from(["-", "minus "]), period=st.sampled_from([r"\overline{%s}", "(%s)"])))
defkw = opt(dict(multiplicationtex=st.sampled_from([r"\times "]), base=st.sampled_from([10, 2, 3, 16]), skipmantissaunity=st.integers(0, 2), minusunity=st.sampled_from(["-", "~"]), minexponent=st.integers(0, 6),
                 minnegexponent=st.one_of(st.none(), st.integers(0, 6)), uniformexponent=st.booleans()))
subkw = opt(dict(plus=st.sampled_from(["", "+"]), minus=st.sampled_from(["-", "minus "]), equalprecision=st.booleans(), suffix=affix))
ratkw = opt(dict(prefix=affix, infix=affix, suffix=affix, numprefix=affix, numinfix=affix, numsuffix=affix, denomprefix=affix, denominfix=affix, denomsuffix=affix, plus=st.sampled_from(["", "+"]),
                 minus=st.sampled_from(["-", "minus "]), minuspos=st.sampled_from([0, 0, 1, -1]), over=st.sampled_from([r"{{%s}\over{%s}}", "%s/%s"]), equaldenom=st.booleans(),
                 skip1=st.booleans(), skipnum0=st.booleans(), skipnum1=st.booleans(), skipdenom1=st.booleans()))


def build(c):
    from pyx.graph.axis.tick import tick as T
    out = []
    for (n, d), level, label, k in c:
        out.append(T((n * k, d * k), labellevel=level, label=label, labelattrs=["mine"]))
    return out


def run(texter, c, ctx):
    "label the ticks; the ones labelled, with their values"
    ts = build(c)
    texter.labels(ts)
    out = []
    for t, ((n, d), level, label, k) in zip(ts, c):
        if label is not None or level is None:
            ensure(t.label == label and t.labelattrs == ["mine"], "the tick %s/%s with label %r and level %r is relabelled to %r", n, d, label, level, t.label)
        else:
            ensure(t.label is not None, "no label for %s/%s", n, d)
            ensure(t.labelattrs[0] == "mine" and len(t.labelattrs) >= 2, "label attributes of %s/%s are %r", n, d, t.labelattrs)
            out.append((F(n, d), t))
        ensure(F(t.num, t.denom) == F(n, d), "the tick %s/%s is moved to %s", n, d, t)
    ctx.nontrivial(len(out) >= 2)
    return out


def decparse(s, kw, what):
    """(value, number of digits after the separator or None for a period) of an unsigned decimal"""
    sep, per = kw.get("decimalsep", "."), kw.get("period", r"\overline{%s}").split("%s")
    th, tp = kw.get("thousandsep", ""), kw.get("thousandthpartsep", "")
    ip, _, fp = s.partition(sep)
    groups = ip.split(th) if th else [ip]
    ensure(groups[0].isdigit() and all(len(g) == 3 and g.isdigit() for g in groups[1:]) and (not th or len(groups[0]) <= 3), "%s: integer part %r", what, ip)
    v = F(int("".join(groups)))
    ensure(str(int(v)) == "".join(groups), "%s: leading zeros in %r", what, ip)
    if sep in s:
        ensure(fp, "%s: no digits after the separator in %r", what, s)
    plain, start, end, i = "", None, None, 0
    while i < len(fp):
        if fp.startswith(per[0], i) and start is None:
            start = len(plain)
            i += len(per[0])
        elif per[1] and start is not None and i == len(fp) - len(per[1]) and fp.endswith(per[1]):
            end = len(plain)
            i += len(per[1])
        elif tp and fp.startswith(tp, i):
            ensure(len(plain) % 3 == 0 and plain, "%s: separator after %d digits in %r", what, len(plain), fp)
            i += len(tp)
            ensure(i < len(fp) and not fp[i:] == per[1], "%s: separator at the end of %r", what, fp)
        else:
            ensure(fp[i].isdigit(), "%s: character %r in %r", what, fp[i], s)
            if plain and len(plain) % 3 == 0 and tp:
                before = fp[:i]
                if start == len(plain):
                    before = before[:-len(per[0])]
                ensure(fp[:i].endswith(tp) or before.endswith(tp), "%s: no separator after %d digits in %r", what, len(plain), fp)
            plain += fp[i]
            i += 1
    if start is None:
        return v + (F(int(plain), 10 ** len(plain)) if plain else 0), len(plain)
    ensure(end == len(plain) and end > start, "%s: period in %r", what, fp)
    a, b = plain[:start], plain[start:]
    v += F(int(a or "0"), 10 ** len(a)) + F(int(b), (10 ** len(b) - 1) * 10 ** len(a))
    ensure(set(b) != {"9"}, "%s: period of nines", what)
    # shortest form
    ensure(not a or a[-1] != b[-1], "%s: %r starts its period late", what, plain)
    ensure(not any(len(b) % n == 0 and b == b[:n] * (len(b) // n) for n in range(1, len(b))), "%s: %r repeats its period", what, plain)
    return v, None


def strip(s, kw, neg, what):
    sign = kw.get("minus", "-") if neg else kw.get("plus", "")
    head, tail = kw.get("prefix", "") + sign + kw.get("infix", ""), kw.get("suffix", "")
    ensure(isinstance(s, str) and s.startswith(head) and s.endswith(tail) and len(s) > len(head) + len(tail), "%s: label %r, expected %r...%r", what, s, head, tail)
    return s[len(head):len(s) - len(tail)]


def declabels(labels, kw, what):
    "check labels of (value, text) to be made by a decimal texter"
    prec = []
    for v, s in labels:
        w = "%s: label %r of %s" % (what, s, v)
        got, n = decparse(strip(s, kw, v < 0, w), kw, w)
        ensure(got == abs(v), "%s is %s", w, got)
        prec.append((n, v, s))
    digits = [n for n, v, s in prec if n is not None]
    for n, v, s in prec:
        if n is None:
            continue
        need = 0
        while (v * 10 ** need).denominator != 1:
            need += 1
        ensure(n == (max(digits) if kw.get("equalprecision") else need), "%s: label %r of %s has %d digits (%r)", what, s, v, n, digits)
    if kw.get("equalprecision") and digits:
        need = 0
        while any((v * 10 ** need).denominator != 1 for n, v, s in prec if n is not None):
            need += 1
        ensure(max(digits) == need, "%s: %d digits where %d are enough", what, max(digits), need)


def check_decimal(c, ctx):
    from pyx.graph.axis import texter
    l, kw, kw2 = c
    t = texter.decimal(**kw)
    if kw2 is not None:
        t = t(**kw2)
        kw = dict(kw, **kw2)
    labels = run(t, l, ctx)
    declabels([(v, x.label) for v, x in labels], kw, "decimal(%r)" % kw)
    ctx.label("separators", bool(kw.get("thousandthpartsep") or kw.get("thousandsep")))


def expo(v, base):
    if not v:
        return 0
    e = 0
    v = abs(v)
    while v >= base ** (e + 1):
        e += 1
    while v < base ** e:
        e -= 1
    return e


def check_default(c, ctx):
    from pyx import text
    from pyx.graph.axis import texter
    l, kw, subs, kw2 = c
    call = dict(kw)
    if "base" in call:
        call["base"] = F(call["base"])
    skw = {}
    for n, sub in zip(("mantissatexter", "basetexter", "exponenttexter"), subs):
        sub = dict(sub or {})
        if n == "basetexter":
            sub.pop("suffix", None)
        skw[n] = sub
        for k, v in sub.items():
            call["%s_%s" % (n, k)] = v
    what = "default(%r)" % call
    t = texter.default(**call)
    if kw2 is not None:
        kw2 = dict(kw2)
        call2 = dict(kw2)
        if "base" in call2:
            call2["base"] = F(call2["base"])
        t = t(**call2)
        kw = dict(kw, **kw2)
        what += "(%r)" % call2
    base = F(kw.get("base", 10))
    for (n, d), *_ in l:
        den = (abs(F(n, d)) / base ** expo(F(n, d), base)).denominator
        while den % 2 == 0 or den % 5 == 0:
            den //= 2 if den % 2 == 0 else 5
        if den > 300:
            raise Skip          # endless periods
    labels = run(t, l, ctx)
    minexp = kw.get("minexponent", 4)
    minneg = kw.get("minnegexponent")
    minneg = minexp if minneg is None else minneg
    times = kw.get("multiplicationtex", r"\cdot{}")

    want = {}
    for i, (v, x) in enumerate(labels):
        e = expo(v, base)
        want[i] = not -minneg < e < minexp
    if kw.get("uniformexponent", True) and any(want.values()):
        for i, (v, x) in enumerate(labels):
            if v:
                want[i] = True
    unity = [abs(v) == base ** expo(v, base) for v, x in labels]
    skip = kw.get("skipmantissaunity", 2)
    allunity = all(u for i, u in enumerate(unity) if want[i])
    mant, exps = [], []
    for i, (v, x) in enumerate(labels):
        w = "%s: label of %s" % (what, v)
        if not want[i]:
            ensure(isinstance(x.label, str), "%s is %r", w, x.label)
            mant.append((v, x.label))
            continue
        ensure(isinstance(x.label, text.MultiEngineText), "%s is %r, expected an exponential", w, x.label)
        s = x.label.tex
        btext = kw_base(base, skw["basetexter"])
        j = s.rfind("^{")
        ensure(s.endswith("}") and s[:j].endswith(btext), "%s is %r", w, s)
        es, ms = s[j + 2:-1], s[:j - len(btext)]
        exps.append((F(expo(v, base)), es))
        us = x.label.unicode
        ensure(len(us) == 2 and us[1].text == es, "%s: exponent %r for unicode, %r for TeX", w, us[1].text, es)
        if unity[i] and (skip == 1 or skip == 2 and allunity):
            m = kw.get("minusunity", "-") if v < 0 else ""
            ensure(ms == m and us[0] == m + btext, "%s is %r or %r, expected the mantissa %r", w, s, us[0], m)
        else:
            ensure(ms.endswith(times), "%s is %r", w, s)
            ms = ms[:-len(times)]
            mant.append((v / base ** expo(v, base) if v else v, ms))
            ensure(us[0] == ms + "\u00b7" + btext, "%s: %r for unicode, %r for TeX", w, us[0], s)
    declabels(mant, skw["mantissatexter"], what + " mantissa")
    declabels(exps, skw["exponenttexter"], what + " exponent")
    ctx.label("exponential", bool(exps))
    ctx.label("both", bool(exps) and len(exps) < len(labels))


def kw_base(base, kw):
    return kw.get("prefix", "") + kw.get("plus", "") + str(base) + kw.get("suffix", "")


def check_rational(c, ctx):
    from math import gcd
    from pyx.graph.axis import texter
    l, kw, kw2 = c
    t = texter.rational(**kw)
    if kw2 is not None:
        t = t(**kw2)
        kw = dict(kw, **kw2)
    labels = run(t, l, ctx)
    g = lambda k: kw.get(k, dict(plus="", minus="-", minuspos=0, over=r"{{%s}\over{%s}}", equaldenom=False, skip1=True, skipnum0=True, skipnum1=True, skipdenom1=True).get(k, ""))
    den = 1
    for v, x in labels:
        den = den * v.denominator // gcd(den, v.denominator)
    for v, x in labels:
        n, d = (abs(v.numerator), v.denominator) if not g("equaldenom") else (abs(int(v * den)), den)
        sign = g("minus") if v < 0 else g("plus")
        s0, s1, s2 = [sign if g("minuspos") == i else "" for i in (0, 1, -1)]
        whole, num, dn = [[g(p + k) for k in ("prefix", "infix", "suffix")] for p in ("", "num", "denom")]
        nodenom = g("skipdenom1") and d == 1 and not any(dn) and not s2
        if n == 0 and g("skipnum0"):
            want = "0"
        elif g("skip1") and n == d == 1 and any(whole) and nodenom and not any(num) and not s1:
            want = whole[0] + s0 + whole[1] + whole[2]
        else:
            nt = num[0] + s1 + num[1] + ("" if n == 1 and g("skipnum1") and any(num) else str(n)) + num[2]
            body = nt if nodenom else g("over") % (nt, dn[0] + s2 + dn[1] + str(d) + dn[2])
            want = whole[0] + s0 + whole[1] + body + whole[2]
        got = x.label if isinstance(x.label, str) else x.label.tex
        ensure(got == want, "rational(%r): label %r of %s, expected %r", kw, got, v, want)
    ctx.label("equal denominators", bool(g("equaldenom")))


again = lambda s: st.one_of(st.none(), st.none(), s)
SUBS = [Sub("decimal", st.tuples(ticks, deckw, again(deckw)), check_decimal, quick=3000, thorough=100000),
        Sub("default", st.tuples(ticks, defkw, st.tuples(subkw, subkw, subkw), again(defkw)), check_default, quick=3000, thorough=100000),
        Sub("rational", st.tuples(ticks, ratkw, again(ratkw)), check_rational, quick=2500, thorough=60000)]
