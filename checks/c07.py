"""C07 splitting, reversing, joining, adding and transforming paths"""
import math
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close, Skip
from lib import refpath as R, arclen as A, gfx
from lib.gen import real, PT, METRE, angle

PROP = "C07"
RULE = ("random paths (open and closed subpaths, lines, curves, arcs) as path or normpath; the traced geometry of every "
        "result is compared with the reference geometry of the operation, and all operands afterwards with what they "
        "were; histories apply several operations to a pool of paths, in place and not; non-trivial: at least two "
        "segments involved")

frac = st.one_of(st.sampled_from([0.5, 0.25]), real(0.001, 0.999, 3), real(0.001, 0.999, 6))
paths = R.solid_strategy(maxlen=5, arct=False, span=60)
case = st.fixed_dictionaries(dict(items=paths, s=st.lists(frac, min_size=0, max_size=4, unique=True),
                                  obj=st.sampled_from(["path", "normpath"]), arg=st.sampled_from(["pt", "unit", "param", "mixed"]),
                                  single=st.booleans()))


class Poly:
    "what refpath.compare needs, from sampled points"
    def __init__(self, length, at, closed):
        self.len, self.at, self.closed = length, at, closed


def piece(sp, a, b):
    def at(rel):
        return sp.points([a + float(r) * (b - a) for r in rel])
    return Poly(b - a, at, False)


def wrapped(sp, a, b):
    "from a over the closing point to b"
    l = sp.len - a + b

    def at(rel):
        return sp.points([(a + float(r) * l) if a + float(r) * l <= sp.len else a + float(r) * l - sp.len for r in rel])
    return Poly(l, at, False)


def whole(sp):
    return Poly(sp.len, lambda rel: sp.points([float(r) * sp.len for r in rel]), sp.closed)


def rev(p):
    return Poly(p.len, lambda rel: p.at(1 - np.asarray(rel)), p.closed)


def snap(p):
    n = p.normpath()
    return [(q.pts.tolist(), q.closed) for q in R.polys(R.from_normpath(n))]


def geom(p):
    return R.polys(R.from_normpath(p.normpath()))


def tolof(ref, subs):
    return 2e-4 + 3e-5 * R.extent(R.polys(subs)) + 1e-5 * ref.len


def check_split(c, ctx):
    from pyx import unit
    subs = R.interpret(c["items"])
    ref = A.Path(subs)
    p = R.build(c["items"])
    if c["obj"] == "normpath":
        p = p.normpath()
    tol = tolof(ref, subs)
    ss = []
    for f in sorted(c["s"]):
        i, l = ref.locate(f * ref.len)
        if 0.05 < l < ref.subs[i].len - 0.05 and (not ss or f * ref.len - ss[-1][2] > 0.05):
            ss.append((i, l, f * ref.len))
    if c["single"]:
        ss = ss[:1]
    before = snap(p)
    spt = [s[2] for s in ss]
    params = p.arclentoparam_pt(spt) if spt else []
    us = [s * unit.t_pt for s in spt]
    if c["arg"] == "pt":
        arg, fn = spt, p.split_pt
    elif c["arg"] == "unit":
        arg, fn = us, p.split
    elif c["arg"] == "param":
        arg, fn = params, p.split
    else:
        arg, fn = [a if i % 2 else b for i, (a, b) in enumerate(zip(us, params))], p.split
    got = fn(arg[0] if c["single"] and arg else arg)
    # model
    want = [[]]
    for i, sp in enumerate(ref.subs):
        cut = [l for j, l, s in ss if j == i]
        if not cut:
            want[-1].append(whole(sp))
            continue
        mid = [piece(sp, a, b) for a, b in zip(cut, cut[1:])]
        if sp.closed:
            segs = [wrapped(sp, cut[-1], cut[0])] + mid
        else:
            segs = [piece(sp, 0, cut[0])] + mid + [piece(sp, cut[-1], sp.len)]
        want[-1].append(segs[0])
        want += [[s] for s in segs[1:]]
    ensure(len(got) == len(want), "split at %d positions: %d parts, expected %d", len(ss), len(got), len(want))
    for k, (w, g) in enumerate(zip(want, got)):
        R.compare(w, geom(g), tol, "part %d of split at %r" % (k, spt), eps=0.02, fail=fail)
        for sp in R.from_normpath(g):
            for a, b in zip(sp.segs, sp.segs[1:]):
                close(a.end(), b.start(), 1e-4, "gap within part %d", k)
    close(sum(g.arclen_pt() for g in got), ref.len, tol, "sum of the lengths of the parts")
    ensure(snap(p) == before, "split changes the path")
    # the parts are independent of the path
    from pyx import path
    for g in got:
        if g.normpath().normsubpaths and not R.from_normpath(g)[-1].closed:
            g.join(path.line_pt(1, 2, 30, 4))
    ensure(snap(p) == before, "joining something to a part of a split path changes the path")
    ctx.nontrivial(bool(ss))
    ctx.label("closed", any(ref.subs[s[0]].closed for s in ss))
    ctx.label("parts", len(want) > 2)


def check_reversed(c, ctx):
    from pyx import path
    subs = R.interpret(c["items"])
    ref = A.Path(subs)
    p = R.build(c["items"])
    if c["obj"] == "normpath":
        p = p.normpath()
    before = snap(p)
    q = p.reversed()
    want = [rev(whole(sp)) for sp in reversed(ref.subs)]
    R.compare(want, geom(q), tolof(ref, subs), "reversed", fail=fail)
    ensure(snap(p) == before, "reversed changes the path")
    R.compare([whole(s) for s in ref.subs], geom(q.reversed()), tolof(ref, subs), "reversed twice", fail=fail)
    ctx.nontrivial(sum(len(s.tabs) for s in ref.subs) > 1)


# joining and adding

jcase = st.fixed_dictionaries(dict(a=paths, b=paths, oa=st.sampled_from(["path", "normpath"]), ob=st.sampled_from(["path", "normpath"]),
                                   op=st.sampled_from(["joined", "lshift", "join", "add", "iadd"]), meet=st.booleans()))


def shift(items, dx, dy):
    out = []
    for it in items:
        it = list(it)
        if it[0] in ("M", "L", "C"):
            for i in range(1, len(it), 2):
                it[i] += dx
                it[i + 1] += dy
        elif it[0] in ("arc", "arcn"):
            it[1] += dx
            it[2] += dy
        out.append(it)
    return out


def check_join(c, ctx):
    ia, ib = c["a"], c["b"]
    if c["meet"]:
        e = R.interpret(ia)[-1].cur()
        b = R.interpret(ib)[0].first
        ib = shift(ib, e[0] - b[0], e[1] - b[1])
    sa, sb = R.interpret(ia), R.interpret(ib)
    joining = c["op"] in ("joined", "lshift", "join")
    if joining and (sa[-1].closed or sb[0].closed):
        # rejected as documented
        from pyx import normpath
        pa, pb = R.build(ia), R.build(ib)
        if c["oa"] == "normpath":
            pa = pa.normpath()
        if c["ob"] == "normpath":
            pb = pb.normpath()
        try:
            pa.joined(pb)
        except normpath.NormpathException:
            ctx.label("closed")
            return
        fail("joining a closed subpath is accepted")
    pa, pb = R.build(ia), R.build(ib)
    if c["oa"] == "normpath":
        pa = pa.normpath()
    if c["ob"] == "normpath":
        pb = pb.normpath()
    if joining:
        j = R.Subpath(sa[-1].first)
        j.segs = list(sa[-1].segs)
        if j.cur() != sb[0].first:
            j.segs.append(R.Line(j.cur(), sb[0].first))
        j.segs += sb[0].segs
        want = sa[:-1] + [j] + sb[1:]
    else:
        want = sa + sb
    ba, bb = snap(pa), snap(pb)
    op = c["op"]
    if op == "joined":
        r = pa.joined(pb)
    elif op == "lshift":
        r = pa << pb
    elif op == "join":
        pa.join(pb)
        r = pa
    elif op == "add":
        r = pa + pb
    else:
        r = pa
        r += pb
        ensure(r is pa, "+= creates a new path")
    ref = A.Path(want)
    tol = tolof(ref, want)
    R.compare([whole(s) for s in ref.subs], geom(r), tol, op, fail=fail)
    ensure(type(r).__name__ == ("path" if c["oa"] == "path" else "normpath"), "%s of a %s is a %s", op, c["oa"], type(r).__name__)
    if op in ("joined", "lshift", "add"):
        ensure(snap(pa) == ba, "%s changes the left operand", op)
    ensure(snap(pb) == bb, "%s changes the right operand", op)
    # the result is independent of the operands
    from pyx import path
    if not R.from_normpath(r.normpath())[-1].closed:
        keep = snap(r)
        n = r.normpath()
        if c["oa"] == "normpath":
            r.join(path.line_pt(3, 4, -70, 5))
            if op in ("joined", "lshift", "add"):
                ensure(snap(pa) == ba, "joining to the result of %s changes the left operand", op)
            ensure(snap(pb) == bb, "joining to the result of %s changes the right operand", op)
    ctx.nontrivial()
    ctx.label(op)
    ctx.label("subpaths", len(want) > 1)


# transformation

tcase = st.fixed_dictionaries(dict(items=paths, obj=st.sampled_from(["path", "normpath"]),
                                   m=st.tuples(*[real(-3, 3, 2)] * 4), v=st.tuples(real(-100, 100, 1), real(-100, 100, 1))))


def check_transformed(c, ctx):
    from pyx import trafo
    a, b, cc, d = c["m"]
    if abs(a * d - b * cc) < 0.05:
        raise Skip
    m = (a, cc, b, d, c["v"][0], c["v"][1])          # PS order
    t = trafo.trafo_pt(((a, b), (cc, d)), tuple(c["v"]))
    subs = R.interpret(c["items"])
    p = R.build(c["items"])
    if c["obj"] == "normpath":
        p = p.normpath()
    before = snap(p)
    want = gfx.tsubs(subs, m)
    w = R.polys(want)
    ref = A.Path(subs)
    if any(s.length() < 0.01 for s in R.from_normpath(p.normpath())) or any(q.len < 0.05 for q in w):
        raise Skip
    tol = 5 * tolof(ref, subs) + 3e-5 * R.extent(w)
    R.compare(w, geom(p.transformed(t)), tol, "transformed", fail=fail)
    ensure(snap(p) == before, "transformed changes the path")
    ctx.nontrivial(a * d - b * cc < 0 or ref.subs[0].closed)


# histories

pick = st.integers(0, 9)
hop = st.one_of(st.tuples(st.just("split"), pick, frac, st.booleans()),
                st.tuples(st.just("reversed"), pick), st.tuples(st.just("joined"), pick, pick), st.tuples(st.just("join"), pick, pick),
                st.tuples(st.just("add"), pick, pick), st.tuples(st.just("iadd"), pick, pick),
                st.tuples(st.just("shift"), pick, st.integers(-30, 30)), st.tuples(st.just("path"), pick),
                st.tuples(st.just("copy"), pick), st.tuples(st.just("normpath"), pick))
hcase = st.fixed_dictionaries(dict(paths=st.lists(R.solid_strategy(maxlen=3, arct=False, span=40), min_size=2, max_size=3),
                                   ops=st.lists(hop, min_size=2, max_size=6)))


def lines(poly, n=200):
    "model of a path: sampled subpaths"
    return (poly.at(np.linspace(0, 1, n)), poly.closed, poly.len)


class M:
    "model subpath: a reference subpath"


def check_history(c, ctx):
    from pyx import trafo
    pool = []
    for items in c["paths"]:
        pool.append([R.build(items).normpath(), R.interpret(items)])

    def verify(what):
        for k, (p, subs) in enumerate(pool):
            w = [q for q in R.polys(subs)]
            R.compare(w, geom(p), 3e-3 + 6e-5 * R.extent(w), "path %d after %s" % (k, what), eps=0.05, fail=fail)

    for op in c["ops"]:
        name = op[0]
        p, subs = pool[op[1] % len(pool)]
        if len(op) > 2 and name in ("joined", "join", "add", "iadd"):
            q, qs = pool[op[2] % len(pool)]
        if name == "split":
            ref = A.Path(subs)
            if len(ref.subs) != len(subs):
                continue
            i, l = ref.locate(op[2] * ref.len)
            if not 0.1 < l < ref.subs[i].len - 0.1 or ref.subs[i].knotdist(l) < 0.1:
                continue
            parts = p.split_pt([float(ref.cum[i] + l)])
            # reference split of one subpath at a length
            sp = ref.subs[i]
            seg, t, k = sp.locate(l)
            sa, sb = cutseg(seg, t)
            segs = [x.seg for x in sp.tabs]
            one = R.Subpath(segs[0].start())
            two = R.Subpath(sa.end())
            one.segs = segs[:k] + [sa]
            two.segs = [sb] + segs[k + 1:]
            if sp.closed:
                two.segs = two.segs + one.segs
                want = [subs[:i] + [two] + subs[i + 1:]]
            else:
                want = [subs[:i] + [one], [two] + subs[i + 1:]]
            ensure(len(parts) == len(want), "split into %d parts, expected %d", len(parts), len(want))
            for x, w in zip(parts, want):
                pool.append([x, w])
        elif name == "reversed":
            pool.append([p.reversed(), revsubs(subs)])
        elif name in ("joined", "join"):
            if subs[-1].closed or qs[0].closed or p is q:
                continue
            j = R.Subpath(subs[-1].first)
            j.segs = list(subs[-1].segs)
            if math.hypot(j.cur()[0] - qs[0].first[0], j.cur()[1] - qs[0].first[1]) > 0:
                j.segs.append(R.Line(j.cur(), qs[0].first))
            j.segs += qs[0].segs
            want = subs[:-1] + [j] + qs[1:]
            if name == "joined":
                pool.append([p.joined(q), want])
            else:
                p.join(q)
                pool[op[1] % len(pool)][1] = want
        elif name == "add":
            pool.append([p + q, subs + qs])
        elif name == "iadd":
            if p is q:
                continue
            p += q
            pool[op[1] % len(pool)][1] = subs + qs
        elif name == "shift":
            t = trafo.translate_pt(op[2], 5) * trafo.rotate(90)
            pool.append([p.transformed(t), gfx.tsubs(subs, (0, 1, -1, 0, op[2], 5))])
        elif name == "path":
            pool.append([p.path().normpath(), subs])
        elif name == "copy":
            pool.append([p.copy(), subs])
        pool = pool[-6:]
        if sum(len(x[1]) for x in pool) > 60:
            break
        verify(name)
    ctx.nontrivial(len(pool) > len(c["paths"]))


def cutseg(seg, t):
    if isinstance(seg, R.Line):
        m = tuple(seg.eval([t])[0])
        return R.Line(seg.p, m), R.Line(m, seg.q)
    if isinstance(seg, R.Cubic):
        a, b, c, d = [np.array(v) for v in seg.p]
        ab, bc, cd = a + (b - a) * t, b + (c - b) * t, c + (d - c) * t
        abc, bcd = ab + (bc - ab) * t, bc + (cd - bc) * t
        m = abc + (bcd - abc) * t
        return R.Cubic(a, ab, abc, m), R.Cubic(m, bcd, cd, d)
    if isinstance(seg, R.Arc):
        m = seg.a1 + (seg.a2 - seg.a1) * t
        return R.Arc(seg.x, seg.y, seg.r, seg.a1, m), R.Arc(seg.x, seg.y, seg.r, m, seg.a2)
    raise Skip


def revseg(s):
    if isinstance(s, R.Line):
        return R.Line(s.q, s.p)
    if isinstance(s, R.Cubic):
        return R.Cubic(*s.p[::-1])
    if isinstance(s, R.Arc):
        return R.Arc(s.x, s.y, s.r, s.a2, s.a1)
    return gfx.TSeg(revseg(s.seg), s.m)


def revsubs(subs):
    out = []
    for s in reversed(subs):
        r = R.Subpath(s.cur())
        r.segs = [revseg(g) for g in reversed(s.segs)]
        r.closed = s.closed
        out.append(r)
    return out


SUBS = [Sub("split", case, check_split, quick=1200, thorough=30000),
        Sub("reversed", case, check_reversed, quick=600, thorough=10000),
        Sub("join", jcase, check_join, quick=1200, thorough=30000),
        Sub("transformed", tcase, check_transformed, quick=800, thorough=20000),
        Sub("histories", hcase, check_history, quick=600, thorough=20000)]
