"""C16 attribute lists: merging, clearing, changeable attributes, type checks"""
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail
from lib import prog as P, refpath as R
from lib.gen import real

PROP = "C16"
RULE = ("random lists of attributes of generated attribute classes (exclusive, sorted before others, both, clearing, with inheritance) and of all real style, colour, text and decorator attributes, merged and compared "
        "with the documented rule; nested changeable attributes selected with any index; wrong kinds of attributes; non-trivial: merging drops or moves an attribute, selection nests, a wrong kind is rejected")

# ---- generated classes -------------------------------------------------------------------------
# class i = [kind, parent or None, exclusive-with (ancestor steps), before: classes < n]

classes = st.lists(st.fixed_dictionaries(dict(kind=st.sampled_from(["attr", "excl", "before", "beforeexcl"]), parent=st.integers(0, 9), inherit=st.booleans(), up=st.integers(0, 1),
                                              before=st.lists(st.integers(0, 9), max_size=3))), min_size=2, max_size=6)
use = st.tuples(st.sampled_from(["new", "new", "new", "new", "clear", "clearall"]), st.integers(0, 9)).map(list)
abstract = st.fixed_dictionaries(dict(classes=classes, uses=st.lists(use, max_size=10), defaults=st.lists(use, max_size=4)))


def make(specs):
    "classes, set of ancestors of each (with itself), spec"
    from pyx import attr
    base = dict(attr=attr.attr, excl=attr.exclusiveattr, before=attr.sortbeforeattr, beforeexcl=attr.sortbeforeexclusiveattr)
    cls, anc = [], []
    for i, s in enumerate(specs):
        par = s["parent"] % i if i and s["inherit"] else None
        # a class has the merge method of its own kind, a parent is only for isinstance
        bases = (base[s["kind"]],) if par is None else (base[s["kind"]], cls[par][1])
        mark = type("mark%d" % i, (() if par is None else (cls[par][1],)), {})
        cls.append((type("c%d" % i, (base[s["kind"]], mark), {}), mark))
        anc.append({i} | (anc[par] if par is not None else set()))
    return cls, anc


def runabstract(c, ctx):
    from pyx import attr
    specs = c["classes"]
    n = len(specs)
    cls, anc = make(specs)

    def exclusive(i):
        "the class this one excludes: itself or its parent"
        s = specs[i]
        if s["up"] and i and s["inherit"]:
            return s["parent"] % i
        return i

    def before(i):
        return [b % n for b in specs[i]["before"]]

    def inst(u):
        if u[0] == "clearall":
            return attr.clear
        i = u[1] % n
        k, m = cls[i]
        if u[0] == "clear":
            return attr.clearclass(m)
        kind = specs[i]["kind"]
        if kind == "attr":
            return k()
        if kind == "excl":
            return k(cls[exclusive(i)][1])
        b = [cls[j][1] for j in before(i)]
        if kind == "before":
            return k(b)
        return k(cls[exclusive(i)][1], b)

    def model(uses, insts, start=()):
        out = list(start)          # (class index, object)
        for u, o in zip(uses, insts):
            if u[0] == "clearall":
                out = []
                continue
            i = u[1] % n
            if u[0] == "clear":
                out = [x for x in out if i not in anc[x[0]]]
                continue
            kind = specs[i]["kind"]
            pos = None
            if "before" in kind:
                for k, x in enumerate(out):
                    if anc[x[0]] & set(before(i)):
                        pos = k
                        break
            drop = set()
            if "excl" in kind:
                drop = {k for k, x in enumerate(out) if exclusive(i) in anc[x[0]]}
            if pos is None:
                pos = len(out)
            out = [x for k, x in enumerate(out[:pos]) if k not in drop] + [(i, o)] + [x for k, x in enumerate(out) if k >= pos and k not in drop]
        return out
    a = [inst(u) for u in c["uses"]]
    d = [inst(u) for u in c["defaults"]]
    given, keep = list(a), list(a)
    keepd = list(d)
    got = attr.mergeattrs(given)
    exp = [o for i, o in model(c["uses"], a)]
    ensure([id(x) for x in got] == [id(x) for x in exp], "merged list: %r instead of %r", [type(x).__name__ for x in got], [type(x).__name__ for x in exp])
    ensure([id(x) for x in given] == [id(x) for x in keep], "merging changed the list given")
    # refine = check + merge defaults first
    got = attr.refineattrs(given, d, [attr.attr])
    exp2 = [o for i, o in model(c["defaults"] + c["uses"], d + a)]
    ensure([id(x) for x in got] == [id(x) for x in exp2], "refined list: %r instead of %r", [type(x).__name__ for x in got], [type(x).__name__ for x in exp2])
    ensure([id(x) for x in given] == [id(x) for x in keep] and [id(x) for x in d] == [id(x) for x in keepd], "refining changed the lists given")
    ensure(attr.refineattrs(None, d, [attr.attr]) is None, "refining None")
    # checks
    allowed = [i for i in range(n) if specs[i]["up"] == 0]
    ac = tuple(cls[i][1] for i in allowed)
    insts = [(u, o) for u, o in zip(c["uses"], a)]
    ok = [u[0] == "new" and bool(anc[u[1] % n] & set(allowed)) for u, o in insts]
    ensure([id(x) for x in attr.getattrs(a, ac)] == [id(o) for k, (u, o) in zip(ok, insts) if k], "getattrs")
    try:
        attr.checkattrs(a, ac)
        ensure(all(ok), "checkattrs accepted an attribute which is not allowed")
    except TypeError as e:
        ensure(not all(ok), "checkattrs refused allowed attributes: %s", e)
        first = insts[ok.index(False)][1]
        ensure(repr(first) in str(e), "checkattrs names the wrong attribute: %s instead of %r", e, first)
        ctx.label("refused")
    for bad in (None, 1, "attr", attr.attr, attr.changelist([attr.clear])):
        try:
            attr.mergeattrs(a + [bad])
        except TypeError:
            continue
        fail("mergeattrs accepted %r", bad)
    if exp != a:
        ctx.nontrivial(any(u[0] == "new" for u in c["uses"]))
        ctx.label("changed by merging")


# ---- real attributes ----------------------------------------------------------------------------

REAL = {}


def real_kinds():
    "kind -> (list of instances, clear, kinds it clears besides its own, kinds of which the one given later wins over it)"
    from pyx import style, color, deco, text, deformer, pattern, unit
    if REAL:
        return REAL
    r = dict(
        linecap=[style.linecap.butt, style.linecap.round, style.linecap.square, style.linecap(1)],
        linejoin=[style.linejoin.miter, style.linejoin.round, style.linejoin.bevel],
        miterlimit=[style.miterlimit(5), style.miterlimit.lessthan90deg],
        dash=[style.dash([1, 2]), style.dash([3], 1, rellengths=False)],
        linestyle=[style.linestyle.solid, style.linestyle.dashed, style.linestyle.dotted],
        linewidth=[style.linewidth.thick, style.linewidth.THIN, style.linewidth(1)],
        fillrule=[style.fillrule.even_odd, style.fillrule.nonzero_winding],
        color=[color.rgb.red, color.cmyk.Tan, color.gray.black, color.hsb(0.1, 0.2, 0.3), color.gradient.Rainbow.getcolor(0.3)],
        transparency=[color.transparency(0.3), color.transparency(0)],
        stroked=[deco.stroked, deco.stroked([color.rgb.red])],
        filled=[deco.filled, deco.filled([color.rgb.red])],
        hatched=[deco.linehatched(0.1, 45), deco.crosslinehatched0] if hasattr(deco, "crosslinehatched0") else [deco.linehatched(0.1, 45), deco.linehatched(0.2, 0)],
        arrow=[deco.earrow.normal, deco.barrow.small, deco.arrow()],
        mathmode=[text.mathmode], phantom=[text.phantom],
        parbox=[text.parbox(3), text.parbox(4, baseline=text.parbox.middle)],
        valign=[text.valign.top, text.valign.middle],
        vshift=[text.vshift.mathaxis, text.vshift(0.4), text.vshift.middlezero],
        size=[text.size.large, text.size(-2)],
        halign=[text.halign.left, text.halign.center, text.halign.right],
        smoothed=[deformer.smoothed(1), deformer.smoothed(0.5)], cycloid=[deformer.cycloid(1), deformer.cycloid(0.2)], parallel=[deformer.parallel(0.1), deformer.parallel(-1)],
    )
    clear = dict(linecap=style.linecap.clear, linejoin=style.linejoin.clear, miterlimit=style.miterlimit.clear, dash=style.dash.clear, linestyle=style.linestyle.clear, linewidth=style.linewidth.clear,
                 fillrule=style.fillrule.clear, color=color.clear, transparency=getattr(color.transparency, "clear", None), stroked=deco.stroked.clear, filled=deco.filled.clear, hatched=deco.linehatched.clear, arrow=deco.arrow.clear,
                 mathmode=text.clearmathmode, phantom=text.clearphantom, parbox=text.parbox.clear, valign=text.valign.clear, vshift=text.vshift.clear, size=text.size.clear, halign=text.halign.clear,
                 smoothed=deformer.smoothed.clear, cycloid=deformer.cycloid.clear, parallel=deformer.parallel.clear)
    REAL.update({k: (v, clear[k]) for k, v in r.items()})
    return REAL


KINDS = ["linecap", "linejoin", "miterlimit", "dash", "linestyle", "linewidth", "fillrule", "color", "transparency", "stroked", "filled", "hatched", "arrow",
         "mathmode", "phantom", "parbox", "valign", "vshift", "size", "halign", "smoothed", "cycloid", "parallel"]
GROUPS = [KINDS[:13], KINDS[13:20], KINDS[20:], KINDS]
MULTI = {"arrow", "phantom", "vshift", "size", "smoothed", "cycloid", "parallel"}     # kinds of which several may be there
realuse = st.tuples(st.sampled_from(["new", "new", "new", "new", "clear", "clearall"]), st.integers(0, 99), st.integers(0, 5)).map(list)
realcase = st.fixed_dictionaries(dict(group=st.integers(0, 3), uses=st.lists(realuse, min_size=1, max_size=10)))
# which kinds are documented (class comments, order of application) to come before others
BEFORE = [("linewidth", "dash"), ("linewidth", "linestyle")]


def runreal(c, ctx):
    from pyx import attr
    R_ = real_kinds()
    kinds = GROUPS[c["group"]]
    lst, exp = [], []            # exp: (kind, obj)
    for what, k, i in c["uses"]:
        kind = kinds[k % len(kinds)]
        if what == "clearall":
            lst.append(attr.clear)
            exp = []
        elif what == "clear":
            if R_[kind][1] is None:
                continue
            lst.append(R_[kind][1])
            exp = [x for x in exp if x[0] != kind]
        else:
            o = R_[kind][0][i % len(R_[kind][0])]
            lst.append(o)
            if kind == "hatched":
                exp = [x for x in exp if x[0] not in ("filled",)]
            if kind not in MULTI:
                exp = [x for x in exp if x[0] != kind]
            exp.append((kind, o))
    got = attr.mergeattrs(list(lst))
    ensure(sorted(map(id, got)) == sorted(id(o) for k, o in exp), "merged to %r instead of %r", [type(x).__name__ for x in got], [k for k, o in exp])
    kindof = {}
    for k, o in exp:
        kindof[id(o)] = k
    order = [kindof[id(o)] for o in got]
    for a, b in BEFORE:
        if a in order and b in order:
            ensure(order.index(a) < order.index(b), "%s after %s in %r", a, b, order)
            ctx.label("sorted before")
    # local text attributes are innermost: behind parbox, valign and vshift; a parbox is inside of valign, both inside of vshift
    rank = dict(vshift=0, valign=1, parbox=2, mathmode=3, phantom=3, halign=3)
    r = [rank[k] for k in order if k in rank]
    ensure(r == sorted(r), "text attributes in the wrong order: %r", order)
    if "size" in order and "mathmode" in order:
        ensure(order.index("size") < order.index("mathmode"), "size within math mode: %r", order)
    # several of one kind stay in the order given
    for k in MULTI - {"size", "vshift"}:
        ensure([id(o) for o in got if kindof[id(o)] == k] == [id(o) for kk, o in exp if kk == k], "order of the %ss changed", k)
    ctx.nontrivial(len(exp) < len(lst) or [id(x) for x in got] != [id(x) for x in lst])
    # merging is idempotent, and merging in two steps is the same
    again = attr.mergeattrs(got)
    if len(set(order) & {"size", "vshift"}) == 0:
        ensure([id(x) for x in again] == [id(x) for x in got], "merging twice changes the list")


# ---- changeable attributes ------------------------------------------------------------------------

def changeables(depth=2):
    leaf = st.integers(0, 9).map(lambda i: ["attr", i])
    lists = st.tuples(st.just("list"), st.lists(st.one_of(leaf, leaf, st.just(["none"])), min_size=1, max_size=5), st.booleans()).map(list)
    multi = st.tuples(st.just("multi"), st.booleans(), st.lists(lists, min_size=1, max_size=4)).map(list)
    return st.one_of(leaf, lists, lists, multi)


changecase = st.fixed_dictionaries(dict(attrs=st.one_of(st.none(), st.lists(changeables(), max_size=4)), total=st.integers(1, 6), index=st.integers(0, 5)))


def runchange(c, ctx):
    from pyx import attr
    pool = [attr.attr() for i in range(10)]
    MISS = object()

    def build(a):
        if a[0] == "attr":
            return pool[a[1]]
        if a[0] == "none":
            return None
        if a[0] == "list":
            return attr.changelist([build(x) for x in a[1]], cyclic=a[2])
        inner = [build(x) for x in a[2]]
        return attr.multichangeattr({i + 1: x for i, x in enumerate(inner)} if a[1] else [None] + inner)

    def pick(a, index, total):
        if a[0] == "attr":
            return pool[a[1]]
        if a[0] == "none":
            return None
        if a[0] == "list":
            i = index
            if a[2]:
                while i >= len(a[1]):
                    i -= len(a[1])
            return pick(a[1][i], index, total) if i < len(a[1]) else None
        if total > len(a[2]):
            return MISS
        return pick(a[2][total - 1], index, total)
    index, total = c["index"] % c["total"], c["total"]
    if c["attrs"] is None:
        ensure(attr.selectattrs(None, index, total) is None, "selecting from None")
        return
    objs = [build(a) for a in c["attrs"]]
    exp = [pick(a, index, total) for a in c["attrs"]]
    first = next((x for x in exp if x is None or x is MISS), 0)
    try:
        got = attr.selectattrs(objs, index, total)
    except (KeyError, IndexError, ValueError):
        ensure(MISS in exp, "selection failed")
        return
    ensure(first is not MISS, "selection for a missing total gave %r", got)
    if first is None:
        ensure(got is None, "selected %r instead of None", got)
        ctx.label("none")
    else:
        ensure(got is not None and [id(x) for x in got] == [id(x) for x in exp], "selected wrong attributes")
    for o, e in zip(objs, exp):
        if e is not MISS:
            ensure(attr.selectattr(o, index, total) is e, "single selection")
    ctx.nontrivial(any(a[0] != "attr" for a in c["attrs"]) and total > 1)


# ---- wrong kinds --------------------------------------------------------------------------------

wrong = st.fixed_dictionaries(dict(method=st.sampled_from(["stroke", "fill", "draw", "insert", "canvas", "text"]), good=st.lists(P.styles(), max_size=2), pos=st.integers(0, 3),
                                   bad=st.sampled_from(["text", "deformer-ok", "clip", "number", "none", "class", "string", "deco", "style", "trafo-ok", "changelist"]), path=P.path_strategy(3)))


def runwrong(c, ctx):
    from pyx import canvas, text, deformer, deco, style, attr, color, trafo, path
    bad = {"text": text.mathmode, "deformer-ok": deformer.smoothed(0.1), "clip": canvas.clip(path.rect(0, 0, 1, 1)), "number": 3, "none": None, "class": attr.attr, "string": "red",
           "deco": deco.stroked, "style": style.linewidth(1), "trafo-ok": trafo.translate(1, 2), "changelist": attr.changelist([color.rgb.red])}[c["bad"]]
    m = c["method"]
    allowed = {"stroke": {"deformer-ok", "deco", "style", "trafo-ok"}, "fill": {"deformer-ok", "deco", "style", "trafo-ok"}, "draw": {"deformer-ok", "deco", "style", "trafo-ok"},
               "insert": {"clip", "style", "trafo-ok"}, "canvas": {"clip", "style", "trafo-ok"}, "text": {"text", "trafo-ok"}}[m]
    ok = c["bad"] in allowed
    if m == "text" and c["bad"] in ("style",):
        return
    cv = canvas.canvas()
    cv.stroke(path.line(0, 0, 1, 1))
    good = [P.realattr(a) for a in c["good"]] if m not in ("text",) else []
    attrs = list(good)
    attrs.insert(min(c["pos"], len(attrs)), bad)
    p = R.build(c["path"])
    n = len(cv.items)
    try:
        if m in ("stroke", "fill", "draw"):
            getattr(cv, m)(p, attrs)
        elif m == "insert":
            cv.insert(canvas.canvas(), attrs)
        elif m == "canvas":
            canvas.canvas(attrs)
        else:
            text.UnicodeEngine().text(0, 0, "x", attrs)
    except TypeError as e:
        ensure(not ok, "%s refused %s: %s", m, c["bad"], e)
        ensure(len(cv.items) == n, "%s left something on the canvas although it failed", m)
        ctx.nontrivial()
        return
    ensure(ok, "%s accepted %s", m, c["bad"])


SUBS = [
    Sub("merge", abstract, runabstract, quick=6000, thorough=200000),
    Sub("real", realcase, runreal, quick=6000, thorough=200000),
    Sub("change", changecase, runchange, quick=3000, thorough=100000),
    Sub("wrong", wrong, runwrong, quick=1200, thorough=20000),
]
