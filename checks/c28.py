"""C28 exact rationals and merging of ticks"""
from fractions import Fraction
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip

PROP = "C28"
RULE = ("numbers given as strings with fractions and exponents, pairs, integers, fractions, rationals and floats to any power, products, quotients, absolute values and comparisons of them, and merged "
        "tick lists, compared with exact fractions; non-trivial: a denominator other than one, or lists sharing positions")

digits = st.text("0123456789", min_size=0, max_size=12)
sign = st.sampled_from(["", "", "-", "+"])
decimal = st.tuples(sign, digits, st.booleans(), digits, st.one_of(st.none(), st.tuples(st.sampled_from("eE"), sign, st.integers(0, 25))))
integer = st.one_of(st.integers(-9, 9), st.integers(-10 ** 20, 10 ** 20))
spec = st.one_of(
    st.tuples(st.just("string"), decimal, st.one_of(st.none(), decimal), st.sampled_from(["", " ", "\t"])),
    st.tuples(st.just("pair"), integer, integer, st.sampled_from(["tuple", "list"])),
    st.tuples(st.just("int"), integer),
    st.tuples(st.just("fraction"), integer, integer),
    st.tuples(st.just("rational"), integer, integer),
    st.tuples(st.just("float"), st.floats(-1e30, 1e30, allow_nan=False), st.one_of(st.none(), st.integers(1, 17))))
power = st.sampled_from([1, 1, 1, 1, 0, -1, 2, -2, 3, 5, -3])


def decimaltext(d):
    s, i, dot, f, e = d
    if not dot:
        f = ""
    if not (i + f):
        i = "0"
    t = s + i + ("." if dot else "") + f
    v = Fraction(int((i + f) or "0"), 10 ** len(f)) * (-1 if s == "-" else 1)
    if e:
        t += "%s%s%d" % tuple(e)
        v *= Fraction(10) ** (-e[2] if e[1] == "-" else e[2])
    return t, v


def make(c, p=1):
    "the rational and its exact value (None: not a number)"
    from pyx.graph.axis.tick import rational
    kw = {} if p == 1 else dict(power=p)
    if c[0] == "string":
        t, v = decimaltext(c[1])
        x = t
        if c[2]:
            t2, v2 = decimaltext(c[2])
            x = t + c[3] + "/" + c[3] + t2
            v = v / v2 if v2 else None
        x = c[3] + x + c[3]
    elif c[0] == "pair":
        x = (c[1], c[2]) if c[3] == "tuple" else [c[1], c[2]]
        v = Fraction(c[1], c[2]) if c[2] else None
    elif c[0] == "int":
        x, v = c[1], Fraction(c[1])
    elif c[0] == "fraction":
        if not c[2]:
            raise Skip
        x = v = Fraction(c[1], c[2])
    elif c[0] == "rational":
        if not c[2]:
            raise Skip
        x, v = rational((c[1], c[2])), Fraction(c[1], c[2])
    else:
        x = c[1]
        n = 10
        if c[2]:
            kw["floatprecision"] = n = c[2]
        v = Fraction("%.*g" % (n, x))
    if v is not None:
        v = None if v == 0 and p < 0 else v ** p
    return (lambda: rational(x, **kw)), v


def value(r):
    return Fraction(r.num, r.denom)


def check_make(c, ctx):
    s, p = c
    f, v = make(s, p)
    if v is None and p != 0:
        try:
            r = f()
        except ZeroDivisionError:
            return
        fail("%r to the power %d gives %s", s, p, r)
    if v is None:
        raise Skip
    r = f()
    ensure(value(r) == v, "%r to the power %d is %s, expected %s", s, p, r, v)
    if max(abs(r.num), abs(r.denom)) < 10 ** 300:         # beyond, conversions to float overflow
        ensure(abs(float(r) - float(v)) <= 1e-12 * abs(float(v)), "%r to the power %d is %r as a float", s, p, float(r))
    n, d = str(r).split("/")
    ensure(Fraction(int(n), int(d)) == v, "%r is written %s", s, r)
    ctx.nontrivial(v.denominator != 1)
    ctx.label(s[0])


def check_arith(c, ctx):
    from pyx.graph.axis.tick import rational
    a0, b0, op = c
    fa, va = make(a0)
    fb, vb = make(b0)
    if va is None or vb is None:
        raise Skip
    a, b = fa(), fb()
    what = "%s of %s and %s" % (op, va, vb)
    if op == "cmp":
        for n, got, want in [("<", a < b, va < vb), ("<=", a <= b, va <= vb), (">", a > b, va > vb), (">=", a >= b, va >= vb), ("==", a == b, va == vb), ("!=", a != b, va != vb)]:
            ensure(bool(got) == want, "%s %s %s is %r", a, n, b, got)
        ensure(a == rational(a) and not a < rational(a), "%s is not itself", a)
        x = float(vb)
        if max(abs(a.num), abs(a.denom)) < 10 ** 300 and abs(float(va) - x) > 1e-9 * abs(x):
            ensure((a < x) == (va < vb) and (a > x) == (va > vb) and not a == x, "comparing %s with %r", a, x)
        return
    if op == "abs":
        ensure(value(abs(a)) == abs(va), what)
    elif op == "mul":
        ensure(value(a * b) == va * vb, what)
    elif op in ("div", "idiv") and not vb:
        raise Skip
    elif op == "div":
        ensure(value(a / b) == va / vb, what)
    elif op == "imul":
        a *= b
        ensure(value(a) == va * vb, what)
        va = va * vb
    elif op == "idiv":
        a /= b
        ensure(value(a) == va / vb, what)
        va = va / vb
    ensure(value(a) == va and value(b) == vb, "%s changed its operands to %s and %s", what, a, b)
    ctx.nontrivial(va.denominator != 1 or vb.denominator != 1)
    ctx.label(op)


tickspec = st.tuples(st.integers(-6, 12), st.sampled_from([1, 2, 3, -2]), st.integers(1, 3), st.one_of(st.none(), st.integers(0, 3)), st.one_of(st.none(), st.integers(0, 3)),
                     st.one_of(st.none(), st.sampled_from(["a", "b", ""])))
ticklist = st.lists(tickspec, max_size=7)


def check_merge(c, ctx):
    from pyx.graph.axis import tick
    lists, equal = c

    def build(l):
        seen, out = set(), []
        for n, d, k, tl, ll, lab in l:
            if Fraction(n, d) not in seen:
                seen.add(Fraction(n, d))
                out.append(tick.tick((n * k, d * k), ticklevel=tl, labellevel=ll, label=lab))
        out.sort(key=value)
        return out

    def low(a, b):
        return b if a is None else a if b is None else min(a, b)

    model, got, n = {}, [], 0
    first = True
    for l in lists:
        l = build(l)
        was = list(got), [(value(t), t.ticklevel, t.labellevel, t.label) for t in l]
        new = tick.mergeticklists(got, l, **({} if equal is None else dict(mergeequal=equal)))
        ensure(list(got) == was[0] and len(got) == len(was[0]), "merging modifies its first argument")
        ensure([(value(t), t.ticklevel, t.labellevel, t.label) for t in l] == was[1], "merging modifies its second argument")
        got = new
        for v, tl, ll, lab in was[1]:
            if v in model:
                n += 1
                if equal != 0:
                    o = model[v]
                    model[v] = (low(o[0], tl), low(o[1], ll), lab if o[2] is None else o[2])
            else:
                model[v] = (tl, ll, lab)
        res = [(value(t), t.ticklevel, t.labellevel, t.label) for t in got]
        want = [(v,) + model[v] for v in sorted(model)]
        ensure(res == want, "merged ticks %r, expected %r (lists %r)", res, want, lists)
    a, b = tick.maxlevels(got)
    ensure(a == max([t.ticklevel + 1 for t in got if t.ticklevel is not None], default=0), "number of tick levels %r", a)
    ensure(b == max([t.labellevel + 1 for t in got if t.labellevel is not None], default=0), "number of label levels %r", b)
    ctx.nontrivial(n > 0)
    ctx.label("shared positions", n > 0)


SUBS = [Sub("make", st.tuples(spec, power), check_make, quick=8000, thorough=200000),
        Sub("arithmetic", st.tuples(spec, spec, st.sampled_from(["cmp", "cmp", "abs", "mul", "div", "imul", "idiv"])), check_arith, quick=8000, thorough=200000),
        Sub("merge", st.tuples(st.lists(ticklist, min_size=2, max_size=4), st.sampled_from([None, None, 1, 0])), check_merge, quick=5000, thorough=100000)]
