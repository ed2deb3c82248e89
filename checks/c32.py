"""C32 graph data sources"""
import io, logging, math, os, struct, tempfile, shutil
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip, close

PROP = "C32"
RULE = ("random data files (comments, column names, strings, numbers, ragged rows, skipped lines), config files, map files, lists of points, expressions over columns, functions on linear and logarithmic axes, joined data; compared with own readers and "
        "a direct evaluation of the expressions; non-trivial: names and ragged rows or strings or skipped lines, an expression with at least two columns, several data joined")


def prepare():
    logging.getLogger("pyx").setLevel(logging.ERROR)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)


# ---- files -------------------------------------------------------------------------------------------

number = st.one_of(st.integers(-99, 99).map(str), st.sampled_from(["1.5", "-2e3", "+.25", "1e-3", "nan", "-inf", "007"]))
token = st.one_of(number, number, number, st.sampled_from(["abc", "x\"x", "1,5", "-", "a#b", "b!", "\"a b\"", "\"\"", "\"1\"", "\"a\"b", "\"open", "a\\b", "ä"]))
row = st.lists(token, min_size=1, max_size=4)
name = st.sampled_from(["A", "B", "C", "a1", "x", "y_2", "\"n m\"", "3"])
sepr = st.sampled_from([" ", "  ", "\t", " \t "])
line = st.one_of(row.map(lambda r: ["row", r]), row.map(lambda r: ["row", r]), row.map(lambda r: ["row", r]), st.just(["empty", []]), st.tuples(st.just("comment"), st.lists(name, max_size=4)).map(list))
filecase = st.fixed_dictionaries(dict(head=st.lists(st.one_of(st.just(["empty", []]), st.tuples(st.just("comment"), st.lists(name, max_size=4)).map(list)), max_size=3), lines=st.lists(line, max_size=12), sep=sepr, lead=st.sampled_from(["", " "]), mark=st.sampled_from(["#", "%", "!", "## ", "# ", "!!\t"]),
                                      skiphead=st.integers(0, 4), skiptail=st.integers(0, 4), every=st.sampled_from([1, 1, 2, 3]), cols=st.lists(st.integers(0, 4), min_size=1, max_size=3), real=st.booleans(), copy=st.booleans(), eol=st.booleans(), twice=st.booleans()))


def tokens(line):
    "words, or strings in quotes which are followed by space"
    out = []
    line = line.strip()
    while line:
        if line[0] == '"':
            end = line.find('"', 1)
            while end >= 0 and not (end + 1 == len(line) or line[end + 1].isspace()):
                end = line.find('"', end + 1)
            if end >= 0:
                out.append((line[1:end], True))
                line = line[end + 1:].lstrip()
                continue
        i = 0
        while i < len(line) and not line[i].isspace():
            i += 1
        out.append((line[:i], False))
        line = line[i:].lstrip()
    return out


def tovalue(t):
    try:
        return t[0] if t[1] else float(t[0])
    except ValueError:
        return t[0]


def reference(text, skiphead, skiptail, every):
    names, rows = [], []
    for l in text.split("\n"):
        l = l.strip()
        if not l:
            continue
        if l[0] in "#%!":
            i = 0
            while i < len(l) and l[i] == l[0]:
                i += 1
            t = tokens(l[i:])
            if not rows and t:
                names = [x[0] for x in t]
        else:
            rows.append([len(rows) + 1] + [tovalue(t) for t in tokens(l)])
    n = len(rows)
    rows = [r for i, r in enumerate(rows) if i >= skiphead and (i - skiphead) % every == 0]
    w = max([len(r) for r in rows] + [0])        # (the lines skipped at the end have columns as well)
    rows = [r for r in rows if r[0] <= n - skiptail]
    return names, [r + [None] * (w - len(r)) for r in rows], w


def runfile(c, ctx):
    from pyx.graph import data
    text = ""
    rows = 0
    for kind, t in c["head"] + c["lines"]:
        if kind == "comment" and rows and rows <= c["skiphead"]:
            raise Skip()         # (comments after skipped lines in front of the first data used)
        rows += kind == "row"
        text += c["lead"] + (c["mark"] if kind == "comment" else "") + c["sep"].join(t) + "\n"
    if not c["eol"]:
        text = text.rstrip("\n")
    names, ref, width = reference(text, c["skiphead"], c["skiptail"], c["every"])
    if not ref:
        raise Skip()             # (no data)
    full, w0 = reference(text, c["skiphead"], 0, c["every"])[1:]
    cols = [x for x in c["cols"] if x < width]
    kw = {"k%d" % i: x for i, x in enumerate(cols)}
    opt = dict(skiphead=c["skiphead"], skiptail=c["skiptail"], every=c["every"], copy=c["copy"])
    if c["real"]:
        d = tempfile.mkdtemp(prefix="c32-")
        try:
            fn = os.path.join(d, "data.dat")
            with open(fn, "w") as f:
                f.write(text)
            o = data.file(fn, **opt, **kw)
            if c["twice"]:
                other = data.file(fn, skiphead=0, skiptail=0, every=1, z=0)
                all_ = reference(text, 0, 0, 1)[1]
                ensure(other.columns["z"] == [r[0] for r in all_], "line numbers of the whole file: %r", other.columns["z"])
                o = data.file(fn, **opt, **kw)
        finally:
            shutil.rmtree(d)
    else:
        o = data.file(io.StringIO(text), **opt, **kw)
    for k, x in kw.items():
        ensure(same(o.columns[k], [r[x] for r in ref]), "column %d is %r instead of %r", x, o.columns[k], [r[x] for r in ref])
    used = {}
    if c["copy"]:
        for i, n in enumerate(names[:max(0, width - 1)]):
            used[n] = i + 1
        for n, i in used.items():
            if n not in kw:
                ensure(n in o.columns, "no column %r", n)
                ensure(same(o.columns[n], [r[i] for r in ref]), "column %r is %r instead of %r", n, o.columns[n], [r[i] for r in ref])
    ensure(set(o.columns) - set(names) == set(kw) - set(names), "columns are %r", sorted(o.columns))
    ensure(c["copy"] or set(o.columns) == set(kw), "columns are %r with copy unset", sorted(o.columns))
    ensure(sorted(o.columnnames) == sorted(o.columns), "column names %r", o.columnnames)
    if c["copy"]:
        for n, i in used.items():          # and a column by its name
            p = data.file(io.StringIO(text), **dict(opt, q=n))
            ensure(same(p.columns["q"], [r[i] for r in ref]), "column %r by its name", n)
            break
    ctx.nontrivial(bool(used) or len(set(len(r) for r in ref)) > 1 or c["skiphead"] or c["skiptail"])
    ctx.label("names", bool(used))
    ctx.label("skipped", len(ref) < rows)


# ---- expressions -------------------------------------------------------------------------------------

COLS = ["a", "b", "t"]


@st.composite
def expr(draw, depth=3):
    k = draw(st.sampled_from(["col", "col", "dollar", "num", "ctx", "call"] if depth == 0 else ["bin", "bin", "bin", "fn", "neg", "col", "dollar", "call"]))
    if k == "col": return draw(st.sampled_from(COLS))
    if k == "dollar": return draw(st.sampled_from(["$0", "$1", "$2", "$3", "$-1", "$-2", "$(1)", "$(i-1)", "$(0+2)", "$('b')"]))
    if k == "num": return draw(st.sampled_from(["2", "0.5", "3", "0", "pi", "e"]))
    if k == "ctx": return draw(st.sampled_from(["i", "f(a)", "b0"]))
    if k == "call": return "f(%s)" % draw(st.sampled_from(["$1", "b", "i"]))
    if k == "neg": return "-" + draw(expr(depth - 1))
    if k == "fn": return "%s(%s)" % (draw(st.sampled_from(["neg", "abs", "sgn", "sqrt", "exp", "log", "sin", "cosd", "tand", "asin", "acosd", "atan", "atand", "asind", "acos", "sind", "cos", "tan"])), draw(expr(depth - 1)))
    return "(%s)%s(%s)" % (draw(expr(depth - 1)), draw(st.sampled_from(["+", "-", "*", "/", "**"])), draw(expr(depth - 1)))


val = st.one_of(st.integers(-5, 5), st.integers(-50, 50).map(lambda i: i / 10))
exprcase = st.fixed_dictionaries(dict(rows=st.lists(st.tuples(val, val, val).map(list), min_size=1, max_size=5), exprs=st.lists(st.one_of(expr(), st.sampled_from(["a", "b"]), st.integers(-3, 3)), min_size=1, max_size=3), names=st.permutations(["x", "a", "u"]), kind=st.sampled_from(["points", "values", "file", "nolines"]), copy=st.booleans(),
                                      i=st.sampled_from([2, 3])))
MATH = dict(neg=lambda x: -x, abs=abs, sgn=lambda x: -1 if x < 0 else 1, sqrt=math.sqrt, exp=math.exp, log=math.log, sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan,
            sind=lambda x: math.sin(math.radians(x)), cosd=lambda x: math.cos(math.radians(x)), tand=lambda x: math.tan(math.radians(x)), asind=lambda x: math.degrees(math.asin(x)), acosd=lambda x: math.degrees(math.acos(x)), atand=lambda x: math.degrees(math.atan(x)), pi=math.pi, e=math.e)


def evaluate(e, env):
    try:
        v = eval(e, {"__builtins__": {}}, env)
    except (ArithmeticError, ValueError):
        return None
    except TypeError as e:
        if "complex" in str(e):
            raise Skip()
        raise
    return v


def runexpr(c, ctx):
    from pyx.graph import data
    import re
    rows = c["rows"]
    if c["kind"] == "points":
        src = data.points(rows, a=1, b=2, t=3)
        table = [[i + 1] + r for i, r in enumerate(rows)]
    elif c["kind"] == "nolines":
        src = data.points(rows, addlinenumbers=0, a=0, b=1, t=2)
        table = [list(r) for r in rows]
    elif c["kind"] == "file":
        src = data.file(io.StringIO("# a b t\n" + "".join(" ".join(map(repr, r)) + "\n" for r in rows)))
        table = [[i + 1] + [float(x) for x in r] for i, r in enumerate(rows)]
        rows = [r[1:] for r in table]
        src.columndata = src.orgdata.columndata      # (column numbers are those of the file itself)
    else:
        src = data.values(a=[r[0] for r in rows], b=[r[1] for r in rows], t=[r[2] for r in rows])
        table = None
    f = lambda x: 3 * x + 1
    context = dict(i=c["i"], f=f, b=77, b0=5, unused=1)
    kw = dict(zip(c["names"], c["exprs"]))
    before = {k: list(v) for k, v in src.columns.items()}
    want = {}
    for n, e in kw.items():
        if isinstance(e, int):
            if table is None or not -len(table[0]) <= e < len(table[0]):
                raise Skip()
            want[n] = [r[e] for r in table]
            continue
        if "$" in e and table is None:
            e2 = re.sub(r"\$\('b'\)", "b", e)
            if "$" in e2:
                raise Skip()
        col = []
        for k, r in enumerate(rows):
            def pick(x):
                if isinstance(x, str):
                    return dict(zip(COLS, r))[x]
                return table[k][x]
            env = dict(MATH, i=c["i"], f=f, b0=5, **dict(zip(COLS, r)))
            env["COL"] = pick
            e2 = re.sub(r"\$(-?\d+)", r"COL(\1)", e).replace("$", "COL")
            if c["kind"] == "nolines" and any(x in e2 for x in ("COL(3)",)):
                raise Skip()
            if "i" in e2 and c["kind"] == "nolines" and "COL(i-1)" in e2 and c["i"] > 3:
                raise Skip()
            v = evaluate(e2, env)
            if isinstance(v, complex) or (isinstance(v, (int, float)) and abs(v) > 1e100):
                raise Skip()
            col.append(v)
        want[n] = col
    try:
        o = data.data(src, context=context, copy=c["copy"], **kw)
    except TypeError as e:
        if "complex" in str(e) or any(v is None for w in want.values() for v in w):
            raise Skip()
        raise
    for n in kw:
        ensure(same(o.columns[n], want[n]), "%s=%r gives %r instead of %r", n, kw[n], o.columns[n], want[n])
    if c["copy"]:
        for n in COLS:
            if n not in kw:
                ensure(same(o.columns[n], before[n]), "column %r changed", n)
    ensure(set(o.columns) == (set(kw) | (set(COLS) if c["copy"] else set())), "columns are %r", sorted(o.columns))
    ensure(all(same(src.columns[k], v) for k, v in before.items()), "the source data changed")
    ensure(set(context) == {"i", "f", "b", "b0", "unused"} and context["b"] == 77, "the context changed")
    ctx.nontrivial(any(isinstance(e, str) and len(e) > 6 for e in kw.values()))
    ctx.label(c["kind"])
    ctx.label("missing", any(v is None for w in want.values() for v in w))


# ---- points, values, config and map files -----------------------------------------------------------------

confcase = st.lists(st.tuples(st.sampled_from(["s1", "s2", "b", "aa", "Z", "s10"]), st.dictionaries(st.sampled_from(["x", "y", "Name", "q w"]), st.sampled_from(["1", "-2.5", "abc", "1 2", "3e2", ""]), max_size=3)), min_size=1, max_size=5, unique_by=lambda t: t[0])


def runconf(c, ctx):
    from pyx.graph import data
    text = "".join("[%s]\n%s\n" % (s, "".join("%s = %s\n" % o for o in opts.items())) for s, opts in c)
    rows = sorted(c)
    names = sorted({k for s, o in c for k in o})
    o = data.conffile(io.StringIO(text), sec=0)
    ensure(o.columns["sec"] == [s for s, x in rows], "sections %r", o.columns["sec"])
    ensure(set(o.columns) == set(names) | {"sec"}, "columns %r", sorted(o.columns))
    for n in names:
        w = []
        for s, x in rows:
            try:
                w.append(float(x[n]) if n in x else None)
            except ValueError:
                w.append(x[n])
        ensure(same(o.columns[n], w), "option %r gives %r instead of %r", n, o.columns[n], w)
    ctx.nontrivial(len({frozenset(x) for s, x in c}) > 1)


pointcase = st.fixed_dictionaries(dict(rows=st.lists(st.lists(st.integers(0, 99), min_size=1, max_size=4), min_size=1, max_size=5), rect=st.booleans(), lines=st.booleans(), cols=st.dictionaries(st.sampled_from(["x", "y", "z"]), st.integers(-4, 5), max_size=3)))


def runpoints(c, ctx):
    from pyx.graph import data
    rows = [r[:len(c["rows"][0])] + [7] * (len(c["rows"][0]) - len(r)) for r in c["rows"]] if c["rect"] else c["rows"]
    n = len(rows[0])
    bad = any(len(r) != n for r in rows)
    off = 1 if c["lines"] else 0
    wrong = any(v > n - 1 + off for v in c["cols"].values())
    if any(v < -(n - 1 + off) for v in c["cols"].values()):
        raise Skip()         # (the last column counted from the end)
    try:
        o = data.points(rows, addlinenumbers=c["lines"], **c["cols"])
    except ValueError:
        ensure(bad or wrong, "points %r with %r refused", rows, c["cols"])
    else:
        ensure(not bad and not wrong, "points %r with %r accepted", rows, c["cols"])
        table = [[i + 1] * off + r for i, r in enumerate(rows)]
        for k, v in c["cols"].items():
            ensure(o.columns[k] == [r[v] for r in table], "column %d of %r is %r", v, rows, o.columns[k])
        ensure(sorted(o.columns) == sorted(c["cols"]), "columns")
        ctx.nontrivial(len(rows) > 1 and c["cols"])
    vals = {k: r for k, r in zip("abcd", c["rows"])}
    bad = len({len(r) for r in vals.values()}) > 1
    try:
        o = data.values(**vals)
    except ValueError:
        ensure(bad, "values %r refused", vals)
    else:
        ensure(not bad, "values %r accepted", vals)
        ensure(o.columns == vals and sorted(o.columnnames) == sorted(vals), "values %r give %r", vals, o.columns)


delta = st.one_of(st.integers(-60, 60), st.integers(-200000, 200000))
seg = st.fixed_dictionaries(dict(rank=st.integers(0, 5), org=st.tuples(st.integers(-400000, 400000), st.integers(-300000, 300000)), strokes=st.lists(st.tuples(delta, delta), max_size=5), wrap=st.booleans()))
cbdcase = st.fixed_dictionaries(dict(segs=st.lists(seg, min_size=1, max_size=4), minrank=st.sampled_from([None, 1, 2]), maxrank=st.sampled_from([None, 3, 4])))


def runcbd(c, ctx):
    from pyx.graph import data
    body, dic, want = b"", b"", []
    base = 40 + 28 * len(c["segs"])
    for i, s in enumerate(c["segs"]):
        x, y = s["org"]
        pts = [(x, y)]
        b = struct.pack("<3i2h", x, y, i + 1, len(s["strokes"]), 0)
        for dx, dy in s["strokes"]:
            x, y = x + dx, y + dy
            pts.append((x, y))
            if -64 <= dx < 64 and -128 <= dy < 128:
                b += bytes([dy & 0xff, (dx & 0xff) | 0x40])
            else:
                u, v = struct.pack("<i", dx), struct.pack("<i", dy)
                b += bytes([u[2], u[3] & ~0x40, u[0], u[1], v[2], v[3], v[0], v[1]])
        lo, hi = (-600000, 600000) if s["wrap"] else (-5, 5)
        dic += struct.pack("<6i2h", i + 1, 0, 0, hi, lo, base + len(body), len(b), s["rank"])
        body += b
        if s["wrap"]:
            pts = [(p + 360 * 3600 if p < 0 else p, q) for p, q in pts]
        if (c["minrank"] is None or s["rank"] >= c["minrank"]) and (c["maxrank"] is None or s["rank"] <= c["maxrank"]):
            want += ([(None, None)] if want else []) + [(p / 3600, q / 3600) for p, q in pts]
    if not want:
        raise Skip()

    class F(io.BytesIO):
        pass
    f = F(struct.pack("<5i20s", 0x20770002, 40, len(c["segs"]), 28, 100, b"") + dic + body)
    o = data.cbdfile(f, minrank=c["minrank"], maxrank=c["maxrank"], x=1, y=2)
    ensure(same(list(zip(o.columns["x"], o.columns["y"])), want), "map is %r instead of %r", list(zip(o.columns["x"], o.columns["y"])), want)
    try:
        data.cbdfile(F(struct.pack("<5i20s", 0x20770001, 40, 0, 28, 100, b"")), x=1)
    except ValueError:
        pass
    else:
        fail("bad magic number accepted")
    ctx.nontrivial(any(s["strokes"] for s in c["segs"]))


# ---- files that change ----------------------------------------------------------------------------------

fname = st.text(st.sampled_from(list("abz09.-_ ~$%#^&{}é\u00dfΩ語\\:=+,'") + ["\t"]), min_size=1, max_size=8).map(lambda s: "d" + s)
cell = st.integers(-9, 99)
fileop = st.fixed_dictionaries(dict(op=st.sampled_from(["write", "read", "read", "read", "other", "touch"]), name=st.integers(0, 1), dir=st.integers(0, 1), kind=st.sampled_from(["file", "file", "conf"]), rows=st.lists(st.tuples(cell, cell).map(list), min_size=1, max_size=3),
                                    expr=st.sampled_from(["$1", "$1\t+ 1", "f($1)\t*  2", "größe+$1", "($1\n -\n 3)", "y-$1", "$1 if $1<5 else 7", "$1&3", "$1%4", "{1:2}[1]+$1", "$1>3 and 2 or 1", "'~^_\\\\'"]), opt=st.integers(0, 2)))
histcase = st.fixed_dictionaries(dict(names=st.lists(fname, min_size=2, max_size=2, unique=True), ops=st.lists(fileop, min_size=1, max_size=8), relative=st.booleans()))

EVAL = {"$1": lambda a: a, "$1\t+ 1": lambda a: a + 1, "f($1)\t*  2": lambda a: (a + 100) * 2, "größe+$1": lambda a: 1000 + a, "($1\n -\n 3)": lambda a: a - 3, "y-$1": None, "$1 if $1<5 else 7": lambda a: a if a < 5 else 7,
        "$1&3": None, "$1%4": lambda a: a % 4, "{1:2}[1]+$1": lambda a: 2 + a, "$1>3 and 2 or 1": lambda a: 2 if a > 3 else 1, "'~^_\\\\'": lambda a: "~^_\\"}
ESCAPED = {"$": r"\$", "&": r"\&", "#": r"\#", "_": r"\_", "%": r"\%", "^": r"\string^", "~": r"\string~", "<": "{$<$}", ">": "{$>$}", "{": r"{$\{$}", "}": r"{$\}$}", "\\": r"{$\setminus$}", "|": r"{$\mid$}"}


def escaped(s):
    return "".join("~" if x in " \t\n" else ESCAPED.get(x, x) for x in s)


CLOCK = [0]


def runhist(c, ctx):
    from pyx.graph import data
    base = tempfile.mkdtemp(prefix="c32-")
    cwd = os.getcwd()
    state, changed, reads = {}, set(), {}
    try:
        for i in (0, 1):
            os.mkdir(os.path.join(base, "d%d" % i))

        def write(key, kind, rows):
            fn = os.path.join(base, "d%d" % key[0], c["names"][key[1]])
            with open(fn, "w") as f:
                if kind == "file":
                    f.write("".join("%d %d\n" % tuple(r) for r in rows))
                else:
                    f.write("".join("[s%d]\na = %d\nb = %d\n" % (i, *r) for i, r in enumerate(rows)))
            CLOCK[0] += 1        # (files written within the resolution of the clock cannot be told apart)
            os.utime(fn, (1e9 + CLOCK[0], 1e9 + CLOCK[0]))
            state[key] = kind, rows

        for o in c["ops"]:
            key = o["dir"], o["name"]
            if o["op"] == "write" or key not in state:
                write(key, o["kind"], o["rows"])
            elif o["op"] == "other":
                os.remove(os.path.join(base, "d%d" % key[0], c["names"][key[1]]))
                write(key, o["kind"], o["rows"])
            elif o["op"] == "touch":
                write(key, *state[key])
            kind, rows = state[key]
            fn = os.path.join(base, "d%d" % key[0], c["names"][key[1]])
            if c["relative"]:
                os.chdir(os.path.join(base, "d%d" % key[0]))
                fn = c["names"][key[1]]
            context = dict(f=lambda x: x + 100, größe=1000)
            if kind == "conf":
                d = data.conffile(fn, s=0, x="a", y="b")
                ensure(d.columns["s"] == ["s%d" % i for i in range(len(rows))], "sections %r", d.columns["s"])
                ensure(d.columns["x"] == [r[0] for r in rows] and d.columns["y"] == [r[1] for r in rows], "%r read as %r", rows, d.columns)
                title = "%s: s=0, x=a, y=b" % escaped(fn)
            else:
                d = data.file(fn, context=context, every=1 + o["opt"] % 2, y=2, x=o["expr"] if EVAL[o["expr"]] else "$1")
                want = rows[::1 + o["opt"] % 2]
                ensure(d.columns["y"] == [r[1] for r in want], "%r read as %r", want, d.columns)
                f = EVAL[o["expr"]] or (lambda a: a)
                ensure(same(d.columns["x"], [f(r[0]) for r in want]), "%r for %r is %r", o["expr"], want, d.columns["x"])
                title = "%s: x=%s, y=2" % (escaped(fn), escaped(o["expr"] if EVAL[o["expr"]] else "$1"))
            ensure(d.title == title, "the title is %r instead of %r", d.title, title)
            k = (fn, kind)
            if k in reads and reads[k] != (key, rows):
                changed.add(k)
            reads[k] = key, rows
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)
    ctx.nontrivial(bool(changed))
    ctx.label("changed", bool(changed))
    ctx.label("non-ASCII", any(not n.isascii() for n in c["names"]))


# ---- functions ------------------------------------------------------------------------------------------

FX = ["sin(x)", "x**2", "1/x", "sqrt(x)", "log(x)", "k*x+1", "h(x)", "exp(x)", "x", "1/(x-2)"]
funcase = st.fixed_dictionaries(dict(f=st.sampled_from(FX), spaces=st.booleans(), min=st.sampled_from([None, None, 1, -3]), max=st.sampled_from([None, None, 5]), points=st.sampled_from([2, 3, 10]), axis=st.sampled_from(["lin", "log", "neglog", "rev"]), form=st.sampled_from(["xy", "yx", "fxy", "param", "paramfxy"]), rng=st.sampled_from([(1, 100), (0.5, 2), (2, 1000)])))


def runfun(c, ctx):
    from pyx import graph
    from pyx.graph import data, axis
    lo, hi = c["rng"]
    if c["axis"] == "neglog":
        lo, hi = -hi, -lo
    a, b = c["min"] if c["min"] is not None else lo, c["max"] if c["max"] is not None else hi
    if "log" in c["axis"] and (a <= 0 <= b or a <= 0 < b or a >= 0 > b):
        raise Skip()
    if c["axis"] == "log" and a <= 0 or c["axis"] == "neglog" and b >= 0:
        raise Skip()
    ax = axis.logarithmic(min=lo, max=hi) if "log" in c["axis"] else axis.linear(min=lo, max=hi, reverse=c["axis"] == "rev")
    h = lambda x: 3 - x if x > 1.5 else 1 / 0
    context = dict(k=2.5, h=h)
    n = c["points"]
    if c["form"].startswith("param"):
        a, b = (1 if c["min"] is None else c["min"]), (100 if c["max"] is None else c["max"])
        ts = [a + (b - a) * i / (n - 1) for i in range(n)]
        if c["form"] == "param":
            e = "x, y = t, 2*t+k" if c["spaces"] else "x,y=(t,2*t+k)"
            o = data.paramfunction("t", a, b, e, points=n, context=context)
        else:
            o = data.paramfunctionxy(lambda t: (t, 2 * t + 2.5), a, b, points=n)
        ensure(same(o.columns["x"], ts) or max(abs(p - q) for p, q in zip(o.columns["x"], ts)) < 1e-9, "parameters %r", o.columns["x"])
        ensure(all(abs(y - 2 * x - 2.5) < 1e-9 for x, y in zip(o.columns["x"], o.columns["y"])), "values")
        ensure(sorted(o.columns) == ["x", "y"] and len(o.columns["x"]) == n, "columns")
        return
    xn, yn = ("y", "x") if c["form"] == "yx" else ("x", "y")
    e = c["f"].replace("x", xn).replace("e" + xn + "p", "exp")
    if c["form"] == "fxy":
        g = lambda x: eval(e, {}, dict(MATH, k=2.5, h=h, x=x))
        o = data.functionxy(g, min=c["min"], max=c["max"], points=n)
    else:
        o = data.function(("%s(%s)=%s" if not c["spaces"] else " %s ( %s ) = %s ") % (yn, xn, e), min=c["min"], max=c["max"], points=n, context=context)
    gr = graph.graphxy(width=5, height=4, **{xn: ax, yn: axis.linear(min=-10, max=10)})
    cols = o.dynamiccolumns(gr, {})
    if "log" in c["axis"]:
        s = -1 if c["axis"] == "neglog" else 1
        xs = [s * math.exp(math.log(s * a) + (math.log(s * b) - math.log(s * a)) * i / (n - 1)) for i in range(n)]
    else:
        xs = [a + (b - a) * i / (n - 1) for i in range(n)]
    for p, q in zip(cols[xn], xs):
        close(p, q, 1e-9 * max(1, abs(q)), "arguments %r instead of %r", cols[xn], xs)
    for p, q in zip(cols[xn], cols[yn]):
        w = evaluate(e, dict(MATH, k=2.5, h=h, **{xn: p}))
        ensure((w is None) == (q is None) and (w is None or abs(w - q) <= 1e-9 * max(1, abs(w))), "%s at %r is %r instead of %r", e, p, q, w)
    ensure(len(cols[xn]) == n == len(cols[yn]), "number of points")
    ensure(sorted(o.columnnames) == ["x", "y"], "names")
    # the same function in another graph has the range of that graph
    g2 = graph.graphxy(width=5, height=4, **{xn: axis.linear(min=7, max=9), yn: axis.linear(min=-10, max=10)})
    cols = o.dynamiccolumns(g2, {})
    a, b = c["min"] if c["min"] is not None else 7, c["max"] if c["max"] is not None else 9
    close(cols[xn][0], a, 1e-9, "begin in another graph")
    close(cols[xn][-1], b, 1e-9, "end in another graph")
    ctx.nontrivial(c["axis"] != "lin" and n > 2)
    ctx.label(c["axis"])


# ---- joined data, splitatvalue ----------------------------------------------------------------------------

joincase = st.lists(st.tuples(st.lists(st.sampled_from("abcd"), max_size=3, unique=True), st.integers(0, 3), st.booleans()), min_size=1, max_size=4)


def runjoin(c, ctx):
    from pyx.graph import data
    ds = []
    k = 0
    for names, n, asdata in c:
        cols = {}
        for x in sorted(names):
            cols[x] = [k + i for i in range(n)]
            k += n
        d = data.values(title="t%d" % len(ds), **cols)
        if asdata and cols:
            d = data.data(d, title="t%d" % len(ds))
        ds.append((d, n if names else 0, cols))
    o = data.join([d for d, n, cols in ds])
    allnames = set().union(*[set(x[2]) for x in ds])
    for x in allnames:
        w = []
        for d, n, cols in ds:
            w += cols.get(x, [None] * n)
        ensure(o.columns[x] == w, "joined column %r is %r instead of %r", x, o.columns[x], w)
    ensure(set(o.columns) == allnames == set(o.columnnames), "columns %r", sorted(o.columns))
    ensure(o.title == " + ".join("t%d" % i for i in range(len(ds))), "title %r", o.title)
    ctx.nontrivial(len({frozenset(x[0]) for x in c}) > 1)


splitcase = st.tuples(val, st.lists(val, min_size=1, max_size=6))


def runsplit(c, ctx):
    from pyx.graph import data
    v, pts = c
    pts = sorted(pts)
    k = sum(1 for p in pts if p < v)
    want = k if len(pts) == 1 else (None if k % 2 else k // 2)
    got = data.splitatvalue(v, *pts)
    ensure(got == (want, v), "splitatvalue(%r, %r) is %r", v, pts, got)
    ctx.nontrivial(len(pts) > 1)


SUBS = [
    Sub("file", filecase, runfile, quick=2500, thorough=100000),
    Sub("expression", exprcase, runexpr, quick=3000, thorough=100000),
    Sub("conffile", confcase, runconf, quick=800, thorough=20000),
    Sub("points", pointcase, runpoints, quick=1500, thorough=40000),
    Sub("history", histcase, runhist, quick=800, thorough=30000),
    Sub("map", cbdcase, runcbd, quick=600, thorough=20000),
    Sub("function", funcase, runfun, quick=500, thorough=15000),
    Sub("join", joincase, runjoin, quick=1000, thorough=30000),
    Sub("split", splitcase, runsplit, quick=1000, thorough=30000),
]
