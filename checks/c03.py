"""C03 a path denotes the PostScript geometry of its elements"""
import math
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close
from lib import refpath as R
from lib.gen import num, posnum, real, angle, PT

PROP = "C03"
RULE = ("random valid sequences of all path elements (absolute, relative, arcs of both orientations, tangent arcs, "
        "multi-elements, several open and closed subpaths) in pts or in several units, and the shape helpers; the "
        "normpath is compared by arc-length sampling with an independent PostScript path interpreter; non-trivial: "
        "at least two drawing elements, one of them curved or relative")

form = st.sampled_from(["pt", "pt", "cm", "t_pt", "inch", "mm"])
case = st.fixed_dictionaries(dict(items=R.items_strategy(), form=form, eps=st.sampled_from([None, None, 1e-5, 1e-3, "none"])))


def tolof(ps, form):
    return 2e-5 * R.extent(ps) + 1e-4


def nontriv(items):
    d = [i for i in items if i[0] not in ("M", "m", "Z")]
    return len(d) >= 2 and any(i[0] not in ("L", "ml") for i in d)


def check(c, ctx):
    items = c["items"]
    p = R.build(items, c["form"])
    want = R.polys(R.interpret(items))
    if c["eps"] is None:
        n = p.normpath()
    elif c["eps"] == "none":
        n = p.normpath(epsilon=None)
    else:
        n = p.normpath(epsilon=c["eps"])
    tol = tolof(want, c["form"])
    R.compare(want, R.polys(R.from_normpath(n)), tol, "normpath", fail=fail)
    # consecutive items of a normsubpath share their end points, closed ones come back
    for sp in R.from_normpath(n):
        for a, b in zip(sp.segs, sp.segs[1:]):
            close(a.end(), b.start(), 1e-3 if c["eps"] == 1e-3 else 1e-4, "gap within a subpath")
        if sp.closed:
            close(sp.segs[-1].end(), sp.segs[0].start(), 1e-3 if c["eps"] == 1e-3 else 1e-4, "closed subpath does not come back")
    # points of begin and end
    w = [q for q in want if q.len > 1e-3]
    if w and len(w) == len(want):
        close(p.atbegin_pt(), tuple(w[0].pts[0]), tol, "atbegin_pt")
        close(p.atend_pt(), tuple(w[-1].pts[-1]), tol, "atend_pt")
        from pyx import unit
        close([unit.topt(v) for v in p.atbegin()], tuple(w[0].pts[0]), tol, "atbegin")
        close([unit.topt(v) for v in p.atend()], tuple(w[-1].pts[-1]), tol, "atend")
    # conversion back to a path keeps the geometry
    R.compare(want, R.polys(R.from_normpath(n.path().normpath())), tol, "normpath.path()", fail=fail)
    ctx.nontrivial(nontriv(items))
    for k in set(i[0] for i in items):
        ctx.label(k)
    ctx.label("subpaths", len(want) > 1)


# shape helpers

co = st.one_of(st.integers(-10, 10), real(-100, 100, 2))
size = st.one_of(st.integers(1, 10), real(0.1, 100, 2))
shape = st.one_of(
    st.tuples(st.just("line"), co, co, co, co),
    st.tuples(st.just("curve"), co, co, co, co, co, co, co, co),
    st.tuples(st.just("rect"), co, co, st.one_of(size, size.map(lambda v: -v)), st.one_of(size, size.map(lambda v: -v))),
    st.tuples(st.just("circle"), co, co, size, st.sampled_from([None, 0.1, 1, 0.01])),
    st.tuples(st.just("ellipse"), co, co, size, size, angle))
scase = st.fixed_dictionaries(dict(shape=shape, form=st.sampled_from(["pt", "cm", "t_pt", "mm"])))


def check_shape(c, ctx):
    from pyx import path
    s, form = c["shape"], c["form"]
    name, a = s[0], list(s[1:])
    fn = getattr(path, name + ("_pt" if form == "pt" else ""))
    kw = {}
    if name == "circle":
        e = a.pop()
        if e is not None:
            kw["arcepsilon"] = e
    k = 4 if name == "ellipse" else len(a)
    args = [v if form == "pt" else R.conv(v, form) for v in a[:k]] + a[k:]
    p = fn(*args, **kw)
    got = R.polys(R.from_normpath(p.normpath()))
    if name == "line":
        want = [["M", a[0], a[1]], ["L", a[2], a[3]]]
    elif name == "curve":
        want = [["M", a[0], a[1]], ["C"] + a[2:]]
    elif name == "rect":
        x, y, w, h = a
        want = [["M", x, y], ["L", x + w, y], ["L", x + w, y + h], ["L", x, y + h], ["Z"]]
    if name in ("line", "curve", "rect"):
        w = R.polys(R.interpret(want))
        R.compare(w, got, tolof(w, form), name, fail=fail)
    else:
        x, y = a[:2]
        ra, rb, phi = (a[2], a[2], 0) if name == "circle" else (a[2], a[3], a[4])
        ensure(len(got) == 1 and got[0].closed, "%s is not a single closed subpath", name)
        g = got[0]
        # every point on the curve, in the canonical frame
        c_, s_ = math.cos(math.radians(phi)), math.sin(math.radians(phi))
        q = g.pts - np.array([x, y])
        u = (q[:, 0] * c_ + q[:, 1] * s_) / ra
        v = (-q[:, 0] * s_ + q[:, 1] * c_) / rb
        rr = np.hypot(u, v)
        eps = kw.get("arcepsilon", 0.1)
        lim = 1e-4 + math.radians(eps) ** 2 + 3e-5 * (abs(x) + abs(y)) / min(ra, rb) * 0.1
        ensure(abs(rr - 1).max() < lim, "%s: a point is at relative radius %r", name, float(rr[np.argmax(abs(rr - 1))]))
        # once around, counterclockwise, starting at the end of the first axis
        ph = np.unwrap(np.arctan2(v, u))
        close(ph[0], 0, 1e-3, "%s: starting angle", name)
        close(ph[-1] - ph[0], 2 * math.pi, 1e-3 + 2 * lim, "%s: swept angle", name)
        ensure(np.diff(ph).min() > -1e-6, "%s is not traced monotonically", name)
        ensure(np.diff(ph).max() < 0.3, "%s has a gap of %g rad", name, np.diff(ph).max())
    ctx.nontrivial()
    ctx.label(name)


# histories of path editing: the cached normpath never goes stale

op = st.one_of(
    st.tuples(st.just("append"), R.items_strategy(maxlen=1, minlen=0)),
    st.tuples(st.just("extend"), R.items_strategy(maxlen=3, minlen=0)),
    st.tuples(st.just("iadd"), R.items_strategy(maxlen=3, minlen=0)),
    st.tuples(st.just("iadd normpath"), R.items_strategy(maxlen=3, minlen=0)),
    st.tuples(st.just("add normpath"), R.items_strategy(maxlen=3, minlen=0)),
    st.tuples(st.just("add"), R.items_strategy(maxlen=3, minlen=0)),
    st.tuples(st.just("normpath"), st.just(None)), st.tuples(st.just("arclen"), st.just(None)),
    st.tuples(st.just("bbox"), st.just(None)), st.tuples(st.just("transformed"), st.just(None)),
    st.tuples(st.just("reversed"), st.just(None)))
hcase = st.fixed_dictionaries(dict(items=R.items_strategy(maxlen=3), ops=st.lists(op, min_size=1, max_size=7)))


def seq(items):
    "pathitems: a path whose first element is a valid continuation of any path"
    return list(R.build(items).pathitems)


def check_history(c, ctx):
    from pyx import trafo
    items = list(c["items"])
    p = R.build(items)
    n = 0
    exact = True            # no normpath added: the number of elements is known
    for name, arg in c["ops"]:
        other = R.build(arg) if arg is not None else None
        if name.endswith("normpath") and arg is not None:
            # a normpath has its own beginning, i.e. an arc is not connected to the path before
            if not all(len(nsp) for nsp in other.normpath()):
                continue
            if arg[0][0] in ("arc", "arcn"):
                arg = [["M"] + [float(v) for v in other.atbegin_pt()]] + list(arg)
                other = R.build(arg)
        if name == "append":
            for it in other.pathitems:
                p.append(it)
        elif name == "extend":
            p.extend(list(other.pathitems))
        elif name == "iadd":
            p += other
        elif name == "iadd normpath":
            p += other.normpath()
            exact = False
        elif name in ("add", "add normpath"):
            if name == "add":
                q = p + other
            else:
                q = p + other.normpath()
                exact = False
            w = R.polys(R.interpret(items))
            R.compare(w, R.polys(R.from_normpath(p.normpath())), tolof(w, "pt"), "left operand after +", fail=fail)
            w = R.polys(R.interpret(arg))
            R.compare(w, R.polys(R.from_normpath(other.normpath())), tolof(w, "pt"), "right operand after +", fail=fail)
            p = q
        elif name == "normpath":
            p.normpath()
            p.normpath(epsilon=1e-3)
        elif name == "arclen":
            p.arclen_pt()
        elif name == "bbox":
            p.bbox()
        elif name == "transformed":
            p.transformed(trafo.rotate(30))
        elif name == "reversed":
            p.reversed()
        if arg is not None:
            items = items + list(arg)
            n += 1
        ensure(not exact or len(p) == len(items), "len is %d after adding, expected %d", len(p), len(items))
        w = R.polys(R.interpret(items))
        R.compare(w, R.polys(R.from_normpath(p.normpath())), tolof(w, "pt"), "path after %s" % name, fail=fail)
    ctx.nontrivial(n > 0)


bad = st.sampled_from(["L", "C", "l", "c", "arct", "Z", "ml"])


def check_start(c, ctx):
    "a path without current point is rejected by PathException"
    from pyx import path
    item = dict(L=["L", 1, 2], C=["C", 1, 2, 3, 4, 5, 6], l=["l", 1, 2], c=["c", 1, 2, 3, 4, 5, 6],
                arct=["arct", 1, 2, 3, 5, 1], Z=["Z"], ml=["ml", [[1, 2]]])[c[0]]
    p = R.build([item, ["L", 3, 4]])
    for what in ("normpath", "bbox"):
        try:
            getattr(p, what)()
        except path.PathException:
            pass
        else:
            fail("path starting with %s accepted by %s", c[0], what)
    ctx.nontrivial()


def check_collinear(c, ctx):
    "a tangent arc whose corner is straight is the line to its first point (PLRM)"
    from pyx import path
    x0, y0, dx, dy, f, r = c
    p1 = (x0 + dx, y0 + dy)
    p2 = (x0 + dx + f * dx, y0 + dy + f * dy)
    p = path.path(path.moveto_pt(x0, y0), path.arct_pt(p1[0], p1[1], p2[0], p2[1], r))
    L = math.hypot(dx, dy)
    tol = 1e-6 * (r + L + abs(x0) + abs(y0)) + 1e-4
    close(p.normpath().atend_pt(), p1, tol, "end of a straight arct")
    close(p.normpath().arclen_pt(), L, tol, "length of a straight arct")
    ctx.nontrivial()


nz = st.one_of(st.integers(1, 20), real(1, 50, 1), real(1, 50, 3)).flatmap(lambda v: st.sampled_from([v, -v]))

SUBS = [Sub("elements", case, check, quick=6000, thorough=150000),
        Sub("shapes", scase, check_shape, quick=1500, thorough=20000),
        Sub("history", hcase, check_history, quick=1200, thorough=25000),
        Sub("no_currentpoint", st.tuples(bad), check_start, quick=20, thorough=20, shards=1),
        Sub("straight_arct", st.tuples(co, co, nz, nz, real(0.2, 5, 2), size), check_collinear, quick=1200, thorough=20000)]
