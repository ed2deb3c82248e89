"""C01 lengths: five independently scaled components, conversion, algebra, comparison"""
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close
from lib.gen import num, real, UNITS, METRE

PROP = "C01"
RULE = ("random expression trees over plain numbers, lengths of all five types in all units and the predefined unit "
        "constants, evaluated under random scale factors and default unit that are changed after construction, "
        "against a five-component model; non-trivial: at least two different length types or a scale factor != 1 "
        "with a non-user component")
TYPES = "tuvwx"

number = st.one_of(st.integers(-50, 50), real(-100, 100, 2), real(-3, 3, 4), st.floats(-1e6, 1e6))
nzero = st.one_of(st.integers(1, 20), st.integers(-20, -1), real(0.01, 50, 2))
leaf = st.one_of(
    st.tuples(st.just("len"), number, st.sampled_from(TYPES), st.sampled_from(UNITS)),
    st.tuples(st.just("lend"), number, st.sampled_from(TYPES)),
    st.tuples(st.just("lenu"), number),
    st.tuples(st.just("const"), st.sampled_from([p + u for p in ["", "u_", "t_", "v_", "w_", "x_"] for u in UNITS])))


def _ext(c):
    return st.one_of(
        st.tuples(st.sampled_from(["add", "sub"]), c, c),
        st.tuples(st.sampled_from(["addnum", "subnum", "numadd", "numsub"]), c, number),
        st.tuples(st.sampled_from(["mul", "rmul"]), c, number),
        st.tuples(st.just("div"), c, nzero),
        st.tuples(st.just("neg"), c))


expr = st.recursive(leaf, _ext, max_leaves=8)
scalef = st.one_of(st.just(1), st.sampled_from([2, 0.5, 3, 10]), real(0.1, 5, 2))
setting = st.fixed_dictionaries({}, optional=dict(u=scalef, v=scalef, w=scalef, x=scalef,
                                                  defaultunit=st.sampled_from(UNITS)))
case = st.fixed_dictionaries(dict(s0=setting, e=st.lists(expr, min_size=2, max_size=3), s1=setting, s2=setting, n=number))


def apply(unit, cur, s):
    kw = {(k if k == "defaultunit" else k + "scale"): v for k, v in s.items()}
    unit.set(**kw)
    cur.update(s)


class M:
    "model: five components in metres plus a bound of the rounding errors"
    def __init__(self, **c):
        self.c = {k: c.get(k, 0.0) for k in TYPES}
        self.a = {k: abs(v) for k, v in self.c.items()}

    def comb(self, o, f):
        r = M()
        for k in TYPES:
            r.c[k] = self.c[k] + f * o.c[k]
            r.a[k] = self.a[k] + o.a[k]
        return r

    def mul(self, f):
        r = M()
        for k in TYPES:
            r.c[k] = self.c[k] * f
            r.a[k] = self.a[k] * abs(f)
        return r

    def tom(self, cur):
        return sum(self.c[k] * (1 if k == "t" else cur[k]) for k in TYPES)

    def tol(self, cur):
        return 1e-12 * sum(self.a[k] * (1 if k == "t" else cur[k]) for k in TYPES) + 1e-300


def ev(unit, cur, e):
    op = e[0]
    if op == "len":
        return unit.length(e[1], type=e[2], unit=e[3]), M(**{e[2]: e[1] * METRE[e[3]]})
    if op == "lend":
        return unit.length(e[1], e[2]), M(**{e[2]: e[1] * METRE[cur["defaultunit"]]})
    if op == "lenu":
        return unit.length(e[1]), M(u=e[1] * METRE[cur["defaultunit"]])
    if op == "const":
        t, u = e[1].split("_") if "_" in e[1] else ("u", e[1])
        return getattr(unit, e[1]), M(**{t: METRE[u]})
    a, ma = ev(unit, cur, e[1])
    if op == "neg":
        return -a, ma.mul(-1)
    if op in ("add", "sub"):
        b, mb = ev(unit, cur, e[2])
        return (a + b, ma.comb(mb, 1)) if op == "add" else (a - b, ma.comb(mb, -1))
    n = e[2]
    if op in ("addnum", "subnum", "numadd", "numsub"):
        mn = M(u=n * METRE[cur["defaultunit"]])
        if op == "addnum":
            return a + n, ma.comb(mn, 1)
        if op == "numadd":
            return n + a, ma.comb(mn, 1)
        if op == "subnum":
            return a - n, ma.comb(mn, -1)
        return n - a, mn.comb(ma, -1)
    if op == "mul":
        return a * n, ma.mul(n)
    if op == "rmul":
        return n * a, ma.mul(n)
    if op == "div":
        return a / n, ma.mul(1 / n)
    raise KeyError(op)


def reset(unit):
    unit.set(uscale=1, vscale=1, wscale=1, xscale=1, defaultunit="cm")
    return dict(u=1, v=1, w=1, x=1, defaultunit="cm")


def check(c, ctx):
    from pyx import unit
    cur = reset(unit)
    try:
        apply(unit, cur, c["s0"])
        vals = [ev(unit, cur, e) for e in c["e"]]
        snaps = [dict(l.__dict__) for l, m in vals]
        for s in (None, c["s1"], c["s2"]):
            if s is not None:
                apply(unit, cur, s)
            for l, m in vals:
                v, tol = m.tom(cur), m.tol(cur)
                close(unit.tom(l), v, tol, "tom")
                for u in UNITS:
                    close(getattr(unit, "to" + u)(l), v / METRE[u], tol / METRE[u], "to%s under %r", u, cur)
            n = c["n"]
            for u in UNITS:
                want = n * METRE[cur["defaultunit"]] * cur["u"] / METRE[u]
                close(getattr(unit, "to" + u)(n), want, 1e-12 * abs(want) + 1e-300, "to%s of a plain number under %r", u, cur)
            (a, ma), (b, mb) = vals[0], vals[1]
            va, vb, tol = ma.tom(cur), mb.tom(cur), ma.tol(cur) + mb.tol(cur)
            if abs(vb) > 1e6 * mb.tol(cur):
                q = a / b
                ensure(isinstance(q, float), "length/length is %r", type(q))
                close(q, va / vb, 1e-9 * (abs(va / vb) + ma.tol(cur) / abs(vb) * 1e9), "length/length")
            if abs(va - vb) > 2 * tol:
                ensure((a < b) == (va < vb) and (a > b) == (va > vb) and (a <= b) == (va < vb) and (a >= b) == (va > vb)
                       and not a == b and a != b, "comparison of %r m and %r m under %r", va, vb, cur)
            mn = n * METRE[cur["defaultunit"]] * cur["u"]
            if abs(va - mn) > 2 * (ma.tol(cur) + 1e-12 * abs(mn)):
                ensure((a < n) == (va < mn) and (n > a) == (va < mn) and (a > n) == (va > mn) and a != n,
                       "comparison of %r m with the number %r under %r", va, n, cur)
            ensure(a == a + 0 * b and a == 1 * a and a <= a and a >= a and not a < a, "reflexive comparison")
        for (l, m), s in zip(vals, snaps):
            ensure(l.__dict__ == s, "length changed by being used: %r -> %r", s, l.__dict__)
        used = {k for l, m in vals for k in TYPES if m.a[k]}
        ctx.nontrivial(len(used) > 1 or any(k != "u" and cur.get(k, 1) != 1 for k in used))
        ctx.label("scaled", any(cur[k] != 1 for k in "uvwx"))
        ctx.label("defaultunit_changed", cur["defaultunit"] != "cm")
    finally:
        reset(unit)


def check_alg(c, ctx):
    "algebraic laws between expressions (metamorphic)"
    from pyx import unit
    cur = reset(unit)
    try:
        apply(unit, cur, c["s0"])
        (a, ma), (b, mb) = [ev(unit, cur, e) for e in c["e"][:2]]
        n = c["n"]
        tol = 4 * (ma.tol(cur) + mb.tol(cur)) * (1 + abs(n))

        def same(x, y, what):
            for k in TYPES:
                close(getattr(x, k), getattr(y, k), 4e-12 * (ma.a[k] + mb.a[k]) * (1 + abs(n)) + 1e-300,
                      "%s, component %s", what, k)
            close(unit.tom(x), unit.tom(y), tol, what)
        same(a + b, b + a, "a+b = b+a")
        same(a - b, -(b - a), "a-b = -(b-a)")
        same(a - b, a + -1 * b, "a-b = a+(-1)*b")
        same((a + b) * n, n * a + n * b, "(a+b)*n = n*a+n*b")
        same(a + b - b, a, "(a+b)-b = a")
        if abs(n) > 1e-3:
            same(a * n / n, a, "a*n/n = a")
        close(sum([a, b], unit.length(0)) / unit.t_m, unit.tom(a) + unit.tom(b), tol, "sum of lengths")
        ctx.nontrivial(any(ma.a[k] for k in TYPES) and any(mb.a[k] for k in TYPES))
    finally:
        reset(unit)


SUBS = [Sub("model", case, check, quick=6000, thorough=120000),
        Sub("laws", case, check_alg, quick=2500, thorough=40000)]
