"""C37 MetaPost-like paths: control points as chosen by mpost itself"""
import cmath, logging, math, os, re, shutil, subprocess, tempfile
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip
from lib.gen import real

PROP = "C37"
RULE = ("random lists of knots and links are built with pyx.metapost.path and compared, control point by control point, with a direct solution of Hobby's equations and with the path which the mpost program (double arithmetic) chooses for the same description; "
        "non-trivial: at least one control point had to be chosen for at least three knots, or a line joins curves")


def prepare():
    os.environ["SOURCE_DATE_EPOCH"] = "1000000000"
    logging.getLogger("pyx").setLevel(logging.CRITICAL)


# ---- descriptions -----------------------------------------------------------------------------------
# knots: ["s", x, y], ["r", x, y, lspec, rspec or None] with a spec ["curl", c] or ["dir", degrees];
# links: ["t", lt, lat, rt or None, rat or None], ["c", x1, y1, x2, y2], ["l", keep]

coord = st.tuples(real(-100, 100, 1), real(-100, 100, 1))
nice = st.tuples(st.integers(-3, 3).map(lambda i: 10.0 * i), st.integers(-3, 3).map(lambda i: 10.0 * i))
pt = st.one_of(coord, coord, nice)
spec = st.one_of(st.tuples(st.just("curl"), st.sampled_from([1, 0, 0.5, 2, 5, 1, 1000])), st.tuples(st.just("dir"), st.one_of(st.sampled_from([0, 90, -45, 180]), real(-180, 180, 0)))).map(list)
rspec = st.one_of(st.none(), spec)
knot = st.one_of(st.tuples(st.just("s"), pt), st.tuples(st.just("s"), pt), st.tuples(st.just("r"), pt, spec, rspec)).map(list)
tens = st.one_of(st.just(1), st.sampled_from([0.75, 0.5, 1.5, 3, 10]), real(0.75, 4, 1))
link = st.one_of(st.just(["t", 1, False, None, None]), st.just(["t", 1, False, None, None]), st.tuples(st.just("t"), tens, st.booleans(), st.one_of(st.none(), tens), st.one_of(st.none(), st.booleans())).map(list),
                 st.tuples(st.just("c"), coord, coord).map(list), st.tuples(st.just("l"), st.booleans()).map(list))
one = st.fixed_dictionaries(dict(knots=st.lists(knot, min_size=2, max_size=7), links=st.lists(link, min_size=7, max_size=7), closed=st.booleans(), begin=spec, end=spec, unit=st.booleans(), brk=st.lists(st.integers(0, 9), min_size=7, max_size=7), dup=st.integers(0, 12)))
many = st.fixed_dictionaries(dict(paths=st.lists(one, min_size=1, max_size=8)))


def normal(c):
    "canonical description: list of (knot, link) with begin- and endknots"
    ks = [list(k) for k in c["knots"]]
    n = len(ks)
    if c["dup"] < n - 1 and n > 3:
        ks[c["dup"] + 1][1] = ks[c["dup"]][1]
    return ks, c["links"][:n if c["closed"] else n - 1]


def rs(k):
    "left and right specification of a rough knot"
    return k[2], (k[3] or k[2])


def build(c):
    from pyx import unit
    import pyx.metapost.path as m
    ks, ls = normal(c)
    u = c["unit"]

    def deg(v):
        return v if u else math.radians(v)

    def kw(s, nc, na):
        return {nc: s[1]} if s[0] == "curl" else {na: deg(s[1])}
    L = (lambda v: v * unit.t_pt) if u else (lambda v: v)
    sfx = "" if u else "_pt"
    K = {n: getattr(m, n + sfx) for n in ("beginknot", "endknot", "smoothknot", "roughknot")}
    elems = []
    n = len(ks)
    for i, k in enumerate(ks):
        x, y = L(k[1][0]), L(k[1][1])
        if not c["closed"] and i in (0, n - 1):
            s = c["begin"] if i == 0 else c["end"]
            elems.append(K["beginknot" if i == 0 else "endknot"](x, y, **kw(s, "curl", "angle")))
        elif broken(c, i):
            elems.append(K["endknot"](x, y, **kw(c["end"], "curl", "angle")))
            elems.append(K["beginknot"](L(k[1][0] + 5), L(k[1][1] - 7), **kw(c["begin"], "curl", "angle")))
        elif k[0] == "s":
            elems.append(K["smoothknot"](x, y))
        else:
            d = kw(k[2], "lcurl", "langle")
            if k[3]:
                d.update(kw(k[3], "rcurl", "rangle"))
            elems.append(K["roughknot"](x, y, **d))
        if i < len(ls):
            l = ls[i]
            if l[0] == "t":
                elems.append(m.tensioncurve(*l[1:]) if l != ["t", 1, False, None, None] else m.curve())
            elif l[0] == "c":
                elems.append(getattr(m, "controlcurve" + sfx)((L(l[1][0]), L(l[1][1])), (L(l[2][0]), L(l[2][1]))))
            else:
                elems.append(m.line(keepangles=l[1]))
    return elems


def broken(c, i):
    "the path ends and begins again at an inner knot of an open path"
    return not c["closed"] and 0 < i < len(c["knots"]) - 1 and c["brk"][i] == 0


def angle(a, b):
    return math.degrees(math.atan2(b[1] - a[1], b[0] - a[0]))


def runs(c):
    """[('curves', start, [(link, end knot position, spec left, spec right)..], begin spec, end spec, cyclic) or ('line', a, b) or ('move', p)]

    begin/end specifications are None at an explicit side"""
    ks, ls = normal(c)
    n = len(ks)
    P = [tuple(k[1]) for k in ks]
    segs = []       # (a, b, link, spec at a, spec at b) with None for smooth
    for i, l in enumerate(ls):
        j = (i + 1) % n
        a = P[i]
        if broken(c, i):
            a = (P[i][0] + 5, P[i][1] - 7)
        sa = c["begin"] if not c["closed"] and (i == 0 or broken(c, i)) else None if ks[i][0] == "s" else rs(ks[i])[1]
        sb = c["end"] if not c["closed"] and (j == n - 1 or broken(c, j)) else None if ks[j][0] == "s" else rs(ks[j])[0]
        segs.append([a, P[j], l, sa, sb, (not c["closed"] and i == 0) or broken(c, i), (not c["closed"] and j == n - 1) or broken(c, j)])
    m = len(segs)
    # lines turn the smooth knots into rough ones
    for i, s in enumerate(segs):
        if s[2][0] != "l":
            continue
        prv = segs[i - 1] if (i or c["closed"]) else None
        nxt = segs[(i + 1) % m] if (i < m - 1 or c["closed"]) else None
        for o, k, bk in ((prv, 4, 5), (nxt, 3, 6)):
            if o is None or o[2][0] == "l" or o is s:
                continue
            if s[bk]:
                continue        # the path is broken here
            if s[2][1]:
                if s[0] != s[1]:
                    o[k] = ["dir", angle(s[0], s[1])]
                else:
                    o[k] = ["dir", 0]
            elif o[k] is None:
                o[k] = ["curl", 1]
    return segs


def mp(c):
    "MetaPost statements, and the items to be compared with"
    segs = runs(c)
    m = len(segs)
    out = []        # MetaPost path expressions
    plan = []       # per segment: ("l",) or ("p", path number, index)
    start = 0
    cyclic = c["closed"] and all(s[2][0] != "l" for s in segs)
    if c["closed"] and not cyclic:
        start = [i for i, s in enumerate(segs) if s[2][0] == "l"][0]
    order = [(start + i) % m for i in range(m)]

    def P(p):
        return "(%.10f,%.10f)" % p

    def S(s):
        return "" if s is None else "{curl %s}" % s[1] if s[0] == "curl" else "{dir %.12f}" % s[1]

    def lk(l):
        if l[0] == "c":
            return "..controls %s and %s.." % (P(tuple(l[1])), P(tuple(l[2])))
        lt, lat, rt, rat = l[1:]
        rt = lt if rt is None else rt
        rat = lat if rat is None else rat
        return "..tension %s%s and %s%s.." % ("atleast " if lat else "", max(0.75, lt), "atleast " if rat else "", max(0.75, rt))
    plan = [None] * m
    cur = None
    for q, i in enumerate(order):
        s = segs[i]
        if s[2][0] == "l":
            plan[i] = ("l",)
            cur = None
            continue
        if cur is None or (q and s[5]):
            cur = [P(s[0])]
            out.append(cur)
        expl = s[2][0] == "c"
        plan[i] = ("p", len(out) - 1, sum(1 for e in cur if e.startswith("..")))
        if s[3] is not None and not expl:
            cur.append(S(s[3]))
        cur.append(lk(s[2]))
        if s[4] is not None and not expl:
            cur.append(S(s[4]))
        cur.append("cycle" if cyclic and q == m - 1 else P(s[1]))
    if cyclic and segs[0][3] is not None and False:
        pass
    return ["".join(e) for e in out], plan, segs


def run_mp(exprs):
    d = tempfile.mkdtemp(prefix="c37")
    try:
        with open(os.path.join(d, "a.mp"), "w") as f:
            f.write("path p; numeric n;\n")
            for e in exprs:
                f.write("p := %s;\nmessage \"PATH \" & decimal(length p);\nfor i=0 upto length p - 1: show point i of p, postcontrol i of p, precontrol i+1 of p, point i+1 of p; endfor\n" % e.replace("..", "\n.."))
            f.write("end\n")
        r = subprocess.run(["mpost", "-numbersystem=double", "-interaction=nonstopmode", "a.mp"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        log = open(os.path.join(d, "a.log"), encoding="latin-1").read()
    finally:
        shutil.rmtree(d)
    assert "\n!" not in log, log
    log = re.sub(r"\n(?!>>|PATH|\()", "", log)
    res = []
    for l in re.split(r"(PATH [\d]+|>> \([^)]*\))", log):
        if l.startswith("PATH"):
            res.append([])
        elif l.startswith(">> ("):
            res[-1].append(tuple(float(v) for v in l[4:-1].split(",")))
    return [[r[i:i + 4] for i in range(0, len(r), 4)] for r in res]


# ---- Hobby's equations -------------------------------------------------------------------------------

def vel(a, b, t):
    n = 2 + math.sqrt(2) * (math.sin(a) - math.sin(b) / 16) * (math.sin(b) - math.sin(a) / 16) * (math.cos(a) - math.cos(b))
    return min(4.0, n / (3 * t * (1 + (math.sqrt(5) - 1) / 2 * math.cos(a) + (3 - math.sqrt(5)) / 2 * math.cos(b))))


def red(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def hobby(z, tens, begin, end):
    """control points for the complex points z and tensions [(right, left, atleast right, atleast left)..]

    begin, end: ("curl", c) or ("dir", radians), or both None for a cycle (z[-1] == z[0])"""
    n = len(z) - 1
    d = [z[k + 1] - z[k] for k in range(n)]
    al = [1 / t[0] for t in tens]
    be = [None] + [1 / t[1] for t in tens]
    cyc = begin is None
    psi = [0.0] + [cmath.phase(d[k] / d[k - 1]) for k in range(1, n)] + [0.0]
    if cyc:
        psi[0] = psi[n] = cmath.phase(d[0] / d[-1])
    N = n if cyc else n + 1
    M, R_ = np.zeros((N, N)), np.zeros(N)
    for k in range(N):
        if not cyc and k == 0:
            if begin[0] == "dir":
                M[0, 0], R_[0] = 1, red(begin[1] - cmath.phase(d[0]))
            else:
                chi = al[0] ** 2 * begin[1] / be[1] ** 2
                q = min(4.0, ((3 - al[0]) * chi + be[1]) / (al[0] * chi + 3 - be[1]))
                M[0, 0], M[0, 1], R_[0] = 1, q, -q * psi[1]
        elif not cyc and k == n:
            if end[0] == "dir":
                M[n, n], R_[n] = 1, red(end[1] - cmath.phase(d[n - 1]))
            else:
                chi = be[n] ** 2 * end[1] / al[n - 1] ** 2
                M[n, n - 1], M[n, n], R_[n] = min(4.0, ((3 - be[n]) * chi + al[n - 1]) / (be[n] * chi + 3 - al[n - 1])), 1, 0
        else:
            p = (k - 1) % n
            bk = be[k] if k else be[n]
            lp, ln = abs(d[p]), abs(d[k % n])
            A = al[p] / (bk ** 2 * lp)
            B = (3 - al[p]) / (bk ** 2 * lp)
            C = (3 - be[k + 1]) / (al[k] ** 2 * ln)
            D = be[k + 1] / (al[k] ** 2 * ln)
            M[k, p] += A
            M[k, k] += B + C
            M[k, (k + 1) % N] += D
            R_[k] = -B * psi[k] - D * psi[k + 1]
    if np.linalg.cond(M / np.abs(M).max(1)[:, None]) > 1e5:
        raise Skip("ill-conditioned")
    th = list(np.linalg.solve(M, R_))
    if cyc:
        th.append(th[0])
    out = []
    for k in range(n):
        a, b = th[k], -psi[k + 1] - th[k + 1]
        if not cyc and k == n - 1:
            b = -th[n]
        r, s = vel(a, b, tens[k][0]), vel(b, a, tens[k][1])
        sa, sb = math.sin(a), math.sin(b)
        if (tens[k][2] or tens[k][3]) and min(abs(sa), abs(sb)) < 1e-6:
            raise Skip("the side of the bounding triangle is a matter of rounding")
        if sa * sb > 0:
            # the tangents cross at the distances |sin b|/S and |sin a|/S
            S = (abs(sa) * math.cos(b) + abs(sb) * math.cos(a)) * (1 + 2 ** -12)
            if S > 0:
                if tens[k][2]:
                    r = min(r, abs(sb) / S)
                if tens[k][3]:
                    s = min(s, abs(sa) / S)
        out.append((z[k], z[k] + cmath.exp(1j * a) * d[k] * r, z[k + 1] - cmath.exp(-1j * b) * d[k] * s, z[k + 1]))
    return out


def reference(c, segs):
    "control points of all segments and whether mpost agrees (its double arithmetic uses a wrong curl ratio for unequal tensions)"
    m = len(segs)
    res = [None] * m
    agree = True
    S = []
    for s in segs:
        a, b = complex(*s[0]), complex(*s[1])
        S.append([a, b, s[2], s[3], s[4], s[5], s[6]])
    # coinciding knots and given controls
    for i, s in enumerate(S):
        if s[2][0] == "c":
            res[i] = (s[0], complex(*s[2][1]), complex(*s[2][2]), s[1])
        elif s[2][0] == "t" and s[0] == s[1]:
            res[i] = (s[0],) * 4
        else:
            continue
        nxt = S[(i + 1) % m] if (i < m - 1 or c["closed"]) and not s[6] else None
        prv = S[i - 1] if (i or c["closed"]) and not s[5] else None
        if nxt and nxt[3] is None:
            v = s[1] - res[i][2]
            nxt[3] = ("curl", 1) if abs(v) < 1e-5 else ("dir", cmath.phase(v), 1)
        if prv and prv[4] is None:
            v = res[i][1] - s[0]
            prv[4] = ("curl", 1) if abs(v) < 1e-5 else ("dir", cmath.phase(v), 1)
    for s in S:
        for k in (3, 4):
            if s[k] is not None and s[k][0] == "dir" and len(s[k]) == 2:
                s[k] = ("dir", math.radians(s[k][1]))

    def tn(l):
        lt, lat, rt, rat = l[1:]
        rt = lt if rt is None else rt
        rat = lat if rat is None else rat
        return max(0.75, lt), max(0.75, rt), lat, rat

    def run(idx, cyc):
        nonlocal agree
        z = [S[i][0] for i in idx] + [S[idx[-1]][1]]
        t = [tn(S[i][2]) for i in idx]
        b, e = (None, None) if cyc else (S[idx[0]][3], S[idx[-1]][4])
        for q, o in ((b, t[0]), (e, t[-1])):
            if q and q[0] == "curl" and o[0] != o[1] and not (len(idx) == 1 and b[0] == e[0] == "curl"):
                agree = False
        for i, r in zip(idx, hobby(z, t, b, e)):
            res[i] = r
    todo = [i for i in range(m) if res[i] is None and S[i][2][0] == "t"]
    starts = [i for i in todo if S[i][3] is not None]
    if todo and not starts:
        assert c["closed"] and len(todo) == m
        run(todo, True)
    for i in starts:
        idx = [i]
        while S[idx[-1]][4] is None:
            idx.append((idx[-1] + 1) % m)
        run(idx, False)
    assert all(r is not None for r, s in zip(res, S) if s[2][0] != "l"), (res, S)
    return [r and tuple((w.real, w.imag) for w in r) for r in res], agree


def ill(c):
    "angles near 180 degrees, where the direction of turning is a matter of rounding"
    segs = runs(c)
    m = len(segs)
    P = []
    for i, s in enumerate(segs):
        if s[2][0] == "l":
            continue
        if 0 < math.hypot(s[0][0] - s[1][0], s[0][1] - s[1][1]) < 0.01:
            return True
        chord = angle(s[0], s[1])
        for k in (3, 4):
            if s[k] is not None and s[k][0] == "dir" and abs((s[k][1] - chord) % 360 - 180) < 1e-3:
                return True
        nxt = segs[(i + 1) % m] if i < m - 1 or c["closed"] else None
        if s[2][0] == "c" and any(0 < math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-3 for a, b in ((s[0], s[2][1]), (s[1], s[2][2]))):
            return True
        if nxt and nxt[2][0] != "l":
            # explicit controls give a direction
            a = angle(s[2][2], s[1]) if s[2][0] == "c" else chord
            b = angle(nxt[0], nxt[2][1]) if nxt[2][0] == "c" else angle(nxt[0], nxt[1])
            if abs((a - b) % 360 - 180) < 1e-3:
                return True
    return False


def items(p):
    from pyx import path
    out = []
    for i in p.pathitems:
        n = type(i).__name__
        if n == "moveto_pt":
            out.append(("M", i.x_pt, i.y_pt))
        elif n == "lineto_pt":
            out.append(("L", i.x_pt, i.y_pt))
        elif n == "curveto_pt":
            out.append(("C", i.x1_pt, i.y1_pt, i.x2_pt, i.y2_pt, i.x3_pt, i.y3_pt))
        elif n == "closepath":
            out.append(("Z",))
        else:
            fail("unexpected path item %s", n)
    return out


def near(a, b, scale):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * scale for x, y in zip(a, b))


def degenerate(c):
    "closed: at least two different positions"
    segs = runs(c)
    return all(s[0] == s[1] for s in segs)


def compare(c, got, segs, ref, who):
    want = []
    for i, s in enumerate(segs):
        if i == 0 or s[5]:
            want.append(("M",) + tuple(s[0]))
        if s[2][0] == "l":
            if c["closed"] and i == len(segs) - 1:
                continue
            want.append(("L",) + tuple(s[1]))
        else:
            a, b1, b2, b = ref[i]
            want.append(("C",) + tuple(b1) + tuple(b2) + tuple(s[1]))
    if c["closed"]:
        want.append(("Z",))
    if [w[0] for w in want] != [g[0] for g in got]:
        fail("metapost path has the items %s instead of %s", "".join(g[0] for g in got), "".join(w[0] for w in want))
    for w, g in zip(want, got):
        scale = max([100.0] + [abs(v) for v in w[1:]])
        if not near(w[1:], g[1:], scale):
            fail("metapost path: %r instead of %r (%s)", g, w, who)


def one_path(c, ctx):
    import pyx.metapost.path as m
    segs = runs(c)
    ref, agree = reference(c, segs)
    elems = build(c)
    got = items(m.path(elems))
    compare(c, got, segs, ref, "Hobby's equations")
    # the knots and links are only a description and can be used again
    ensure(items(m.path(elems)) == got, "using the same knots and links again gives a different path")
    kinds = {s[2][0] for s in segs}
    if ("t" in kinds and len(segs) > 1) or len(kinds) > 1:
        ctx.nontrivial()
    for k in sorted(kinds):
        ctx.label(k)
    ctx.label("closed" if c["closed"] else "open")
    return got, segs, agree


def check_one(c, ctx):
    if ill(c) or degenerate(c):
        raise Skip("ill-conditioned")
    one_path(c, ctx)


def check_many(case, ctx):
    use = []
    for c in case["paths"]:
        if ill(c) or degenerate(c):
            continue
        try:
            got, segs, agree = one_path(c, ctx)
        except Skip:
            continue
        if agree:
            use.append((c, got, segs))
    if not use:
        raise Skip("ill-conditioned")
    exprs, plans = [], []
    for c, got, segs in use:
        e, plan, segs = mp(c)
        plans.append([q and (q[0], q[1] + len(exprs), q[2]) if q[0] == "p" else q for q in plan])
        exprs += e
    refs = run_mp(exprs)
    assert len(refs) == len(exprs), (exprs, refs)
    for (c, got, segs), plan in zip(use, plans):
        compare(c, got, segs, [None if q[0] == "l" else refs[q[1]][q[2]] for q in plan], "mpost")


SUBS = [Sub("equations", one, check_one, quick=6000, thorough=150000),
        Sub("mpost", many, check_many, quick=500, thorough=15000)]
