"""C10 bounding boxes behave as rectangles with an empty element"""
import math
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, close
from lib.gen import real, PT, METRE, UNITS, num

PROP = "C10"
RULE = ("histories of operations (union, intersection, in place and not, points, enlargement, transformation, copies) on a "
        "pool of boxes including empty ones, in pts and units, mirrored by a model of closed rectangles; non-trivial: "
        "an operation combining two non-empty boxes or transforming one")

co = st.one_of(st.integers(-6, 6), real(-100, 100, 1))
box = st.one_of(st.none(), st.tuples(co, co, co, co), st.tuples(co, co, co, co))
pick = st.integers(0, 9)
opt = st.one_of(st.none(), st.integers(0, 5), real(0, 5, 1))
op = st.one_of(
    st.tuples(st.sampled_from(["add", "iadd", "mul", "imul", "set"]), pick, pick),
    st.tuples(st.just("copy"), pick),
    st.tuples(st.just("point"), pick, co, co),
    st.tuples(st.sampled_from(["enlarge", "enlarged", "enlarge_pt", "enlarged_pt"]), pick, st.one_of(st.integers(0, 5), real(0, 5, 1)), opt, opt, opt, opt),
    st.tuples(st.sampled_from(["transform", "transformed"]), pick, st.tuples(*[st.one_of(st.integers(-2, 2), real(-2, 2, 1))] * 4), co, co))
case = st.fixed_dictionaries(dict(boxes=st.lists(box, min_size=2, max_size=4), unit=st.sampled_from(["pt", "cm", "mm", "t"]),
                                  ops=st.lists(op, min_size=1, max_size=8)))


def norm(b):
    return None if b is None or b[0] > b[2] or b[1] > b[3] else tuple(b)


def check(c, ctx):
    from pyx import bbox, unit, trafo
    pool = []
    for b in c["boxes"]:
        if b is None:
            pool.append([bbox.empty(), None])
        else:
            x0, x1 = sorted((b[0], b[2]))
            y0, y1 = sorted((b[1], b[3]))
            w = (x0, y0, x1, y1)
            if c["unit"] == "pt":
                o = bbox.bbox_pt(*w)
            elif c["unit"] == "cm":
                o = bbox.bbox(*[v / PT["cm"] for v in w])
            elif c["unit"] == "mm":
                o = bbox.bbox(*[v / PT["mm"] * unit.mm for v in w])
            else:
                o = bbox.bbox(*[v * unit.t_pt for v in w])
            pool.append([o, w])

    def inpt(l):
        return unit.tom(l) / METRE["pt"]

    def verify(what):
        for k, (o, w) in enumerate(pool):
            if w is None:
                ensure(not o, "box %d after %s is %r, expected an empty one", k, what, (o.llx_pt, o.lly_pt, o.urx_pt, o.ury_pt))
                for m in ("highrestuple_pt", "lowrestuple_pt", "rect", "width_pt", "height_pt", "left_pt", "right_pt", "top_pt", "bottom_pt", "center_pt"):
                    try:
                        getattr(o, m)()
                    except ValueError:
                        pass
                    else:
                        fail("%s of an empty box does not raise ValueError", m)
                continue
            ensure(bool(o), "box %d after %s is empty, expected %r", k, what, w)
            e = 1e-9 * max(1, max(abs(v) for v in w)) + 1e-9
            close(o.highrestuple_pt(), w, e, "box %d after %s", k, what)
            x0, y0, x1, y1 = w
            lo = o.lowrestuple_pt()
            hi = o.highrestuple_pt()
            ensure(all(float(v).is_integer() for v in lo) and lo[0] <= hi[0] and lo[1] <= hi[1] and lo[2] >= hi[2] and lo[3] >= hi[3]
                   and lo[0] > hi[0] - 1.000001 and lo[1] > hi[1] - 1.000001 and lo[2] < hi[2] + 1.000001 and lo[3] < hi[3] + 1.000001, "lowres box %r of %r", lo, hi)
            close((o.left_pt(), o.bottom_pt(), o.right_pt(), o.top_pt(), o.width_pt(), o.height_pt()) + tuple(o.center_pt()),
                  (x0, y0, x1, y1, x1 - x0, y1 - y0, (x0 + x1) / 2, (y0 + y1) / 2), 2 * e, "edges in pt")
            close([inpt(v) for v in (o.left(), o.bottom(), o.right(), o.top(), o.width(), o.height()) + tuple(o.center())],
                  (x0, y0, x1, y1, x1 - x0, y1 - y0, (x0 + x1) / 2, (y0 + y1) / 2), 2 * e, "edges")
            for m in ("rect", "path"):
                if x1 - x0 > 1e-3 and y1 - y0 > 1e-3:
                    p = getattr(o, m)()
                    close(p.bbox().highrestuple_pt(), w, 1e-4 + 1e-6 * max(abs(v) for v in w), "rect of a box")
        for o, w in pool:
            for o2, w2 in pool:
                want = w is not None and w2 is not None and norm((max(w[0], w2[0]), max(w[1], w2[1]), min(w[2], w2[2]), min(w[3], w2[3]))) is not None
                if w is not None and w2 is not None:
                    gap = max(max(w[0], w2[0]) - min(w[2], w2[2]), max(w[1], w2[1]) - min(w[3], w2[3]))
                    if abs(gap) < 1e-9:
                        continue
                ensure(bool(o.intersects(o2)) == want, "intersects(%r, %r)", w, w2)

    verify("construction")
    for x in c["ops"]:
        name = x[0]
        i = x[1] % len(pool)
        o, w = pool[i]
        if name in ("add", "iadd", "mul", "imul", "set"):
            o2, w2 = pool[x[2] % len(pool)]
            if name in ("add", "iadd"):
                r = w2 if w is None else w if w2 is None else (min(w[0], w2[0]), min(w[1], w2[1]), max(w[2], w2[2]), max(w[3], w2[3]))
            elif name == "set":
                r = w2
            else:
                r = None if w is None or w2 is None else norm((max(w[0], w2[0]), max(w[1], w2[1]), min(w[2], w2[2]), min(w[3], w2[3])))
                if w and w2 and r is None or r is not None:
                    gap = max(max(w[0], w2[0]) - min(w[2], w2[2]), max(w[1], w2[1]) - min(w[3], w2[3]))
                    if abs(gap) < 1e-9 and gap != 0:
                        continue          # touching up to rounding
                    if gap == 0 and c["unit"] != "pt":
                        continue
            ctx.nontrivial(w is not None and w2 is not None and o is not o2)
            if name == "add":
                pool.append([o + o2, r])
            elif name == "mul":
                pool.append([o * o2, r])
            elif name == "set":
                o.set(o2)
                pool[i][1] = r
            else:
                if name == "iadd":
                    o += o2
                else:
                    o *= o2
                ensure(o is pool[i][0], "in-place operation creates a new box")
                pool[i][1] = r
        elif name == "copy":
            pool.append([o.copy(), w])
        elif name == "point":
            px, py = x[2:]
            o.includepoint_pt(px, py)
            pool[i][1] = (px, py, px, py) if w is None else (min(w[0], px), min(w[1], py), max(w[2], px), max(w[3], py))
        elif name.startswith("enlarge"):
            al, bo, le, to, ri = x[2:]
            if name.endswith("_pt"):
                kw = dict(all_pt=al, bottom_pt=bo, left_pt=le, top_pt=to, right_pt=ri)
            else:
                kw = {k: (v if v is None else v / PT["cm"] if c["unit"] in ("pt", "cm") else v / PT["mm"] * unit.mm if c["unit"] == "mm" else v * unit.t_pt)
                      for k, v in dict(all=al, bottom=bo, left=le, top=to, right=ri).items()}
            bo, le, to, ri = [al if v is None else v for v in (bo, le, to, ri)]
            r = None if w is None else (w[0] - le, w[1] - bo, w[2] + ri, w[3] + to)
            if name.startswith("enlarged"):
                pool.append([getattr(o, name)(**kw), r])
            else:
                getattr(o, name)(**kw)
                pool[i][1] = r
        else:
            a, b, cc, d = x[2]
            if abs(a * d - b * cc) < 1e-6:
                continue
            t = trafo.trafo_pt(((a, b), (cc, d)), (x[3], x[4]))
            r = None
            if w is not None:
                q = [(a * u + b * v + x[3], cc * u + d * v + x[4]) for u in (w[0], w[2]) for v in (w[1], w[3])]
                r = (min(p[0] for p in q), min(p[1] for p in q), max(p[0] for p in q), max(p[1] for p in q))
                ctx.nontrivial()
            if name == "transformed":
                pool.append([o.transformed(t), r])
            else:
                o.transform(t)
                pool[i][1] = r
        ctx.label(name)
        verify(name)


SUBS = [Sub("histories", case, check, quick=4000, thorough=100000)]
