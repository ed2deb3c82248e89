"""C26 the parsers of TeX messages remove the messages they stand for and nothing else"""
import logging
import os
import re
import shutil
import string
import tempfile
from hypothesis import strategies as st
from lib.core import Sub, ensure, fail, Skip

PROP = "C26"
RULE = ("random TeX output composed of messages in TeX's notation (file loading with nested files, quoted names, lines broken at any width; font definitions; graphics; box, font, package, rerun and bbl "
        "warnings; start and end messages) and of other text; what a parser leaves is compared with the other text; string helpers against references working character by character; "
        "non-trivial: a message of the parser and other text, or two messages")
SUBS = []


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, r):
        self.got.append(r.getMessage())


def prepare():
    logging.getLogger("pyx").setLevel(logging.WARNING)


class Logged:
    def __enter__(self):
        l = logging.getLogger("pyx")
        self.h, self.keep, self.prop = Log(), l.handlers[:], l.propagate
        l.handlers, l.propagate, l.manager.disable = [self.h], False, 0
        return self.h.got

    def __exit__(self, *a):
        l = logging.getLogger("pyx")
        l.handlers, l.propagate, l.manager.disable = self.keep, self.prop, logging.CRITICAL


def wrap(s, n):
    "break lines longer than n, as TeX does"
    return "\n".join("\n".join(l[i:i + n] for i in range(0, max(len(l), 1), n)) for l in s.split("\n"))


flat = lambda s: s.replace("\n", "")

# ------------------------------------------------------------------ helpers

toks = st.lists(st.sampled_from(list("abX()\"\n") + ["XX", "(b", "aXb"]), max_size=24).map("".join)


def check_help(c, ctx):
    from pyx import text
    s = c["s"]
    ensure(text.index_all("X", s) == [i for i in range(len(s)) if s[i] == "X"], "index_all")
    # remove_pattern
    p = re.compile(c["p"])
    for nl in (True, False):
        r, m = text.remove_pattern(p, s, ignore_nl=nl)
        if nl:
            pos = [i for i, x in enumerate(s) if x != "\n"]
            t = flat(s)
        else:
            pos = list(range(len(s)))
            t = s
        w = p.search(t)
        ensure((m is None) == (w is None), "pattern %r in %r: %r, expected %r", c["p"], s, m, w)
        if w is None:
            ensure(r == s, "text changed to %r", r)
        else:
            ensure(m.group() == w.group() and m.start() == w.start() and m.groups() == w.groups(), "match %r, expected %r", m, w)
            # the newlines inside of the match are removed with it
            a, b = pos[w.start()], pos[w.end() - 1] + 1
            ensure(r == s[:a] + s[b:], "%r without %r is %r, expected %r", s, c["p"], r, s[:a] + s[b:])
            ctx.label("match")
            ctx.nontrivial("\n" in s[a:b])
    # nested brackets
    if '"' not in s:
        out, level = [], 0
        ok = True
        for x in s:
            if x == "(":
                level += 1
            if level < 2:
                out.append(x)
            if x == ")":
                level -= 1
                if level < 0:
                    ok = False
        want = "".join(out) if ok and level == 0 else s
        got = text.remove_nested_brackets(s)
        ensure(got == want, "brackets of %r: %r, expected %r", s, got, want)
        ctx.label("nested", got != s)
        ctx.nontrivial(got != s)


SUBS.append(Sub("helpers", st.fixed_dictionaries(dict(s=toks, p=st.sampled_from(["X+", "a.*b", "aX", r"\(b?\)", "XX", "a[^X]b", "(a)(b)?X", r"b\)"]))), check_help, quick=6000, thorough=60000))


# ------------------------------------------------------------------ files being loaded

WORDS = ["Document Class: article 2019/12/20 v1.4l", "LaTeX2e <2020-02-02> patch level 2", "L3 programming layer <2020-02-14>", "text", "! Undefined control sequence.", "ABD: EveryShipout", "*", "x=1,y=2"]
OTHER = ["! Undefined control sequence.", "l.1 text", "*", "Babel 3.40", "! Missing $ inserted.", "PyX", "?", "some [1] text <2>"]
name = st.text(string.ascii_lowercase + "0123456789-_.", min_size=1, max_size=12).filter(lambda s: s.strip(".") and not s.startswith("-"))


@st.composite
def file_(draw, depth=2):
    q = draw(st.integers(0, 2)) == 0
    d = draw(st.lists(name, max_size=3))
    if q and draw(st.booleans()):
        d.append(draw(st.sampled_from(["Program Files", "Program Files (x86)", "my dir", "a (b) c"])))
    f = dict(n=d + [draw(name) + draw(st.sampled_from([".sty", ".cls", ".tex", ".aux", ".fd", ".def", ""]))], q=q, x=draw(st.integers(0, 6 if depth == 2 else 1)) > 0, inner=[])
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 4]))):
        k = draw(st.sampled_from(["t", "t", "b", "f"]))
        if k == "f" and depth:
            f["inner"].append(draw(file_(depth - 1)))
        else:
            f["inner"].append([k, draw(st.sampled_from(WORDS))])
    f["sep"] = draw(st.sampled_from([" ", "\n"]))
    return f


@st.composite
def load_(draw):
    items = []
    for _ in range(draw(st.integers(1, 5))):
        items.append(draw(file_()) if draw(st.integers(0, 2)) else draw(st.sampled_from(OTHER)))
    return dict(items=items, wrap=draw(st.sampled_from([0, 79, 79, 40, 20, 13])), nl=draw(st.booleans()))


def show(f, root):
    p = os.path.join(root, *f["n"])
    s = "(" + ('"%s"' % p if f["q"] else p)
    for x in f["inner"]:
        s += f["sep"]
        if isinstance(x, dict):
            s += show(x, root)
        else:
            s += "(%s)" % x[1] if x[0] == "b" else x[1]
    return s + ")"


def create(f, root):
    if f["x"]:
        try:
            os.makedirs(os.path.join(root, *f["n"][:-1]), exist_ok=True)
            with open(os.path.join(root, *f["n"]), "x"):
                pass
        except (FileExistsError, NotADirectoryError, IsADirectoryError):
            raise Skip
    for x in f["inner"]:
        if isinstance(x, dict):
            create(x, root)


def broken(s, f):
    "line breaks at places PyX cannot undo: between the bracket and the quote of a name"
    return re.search(r'\(\n"', s)


def check_load(c, ctx):
    from pyx import text, config
    root = tempfile.mkdtemp(prefix="c26-")
    try:
        pre = c.get("chroot") and root or ""
        for x in c["items"]:
            if isinstance(x, dict):
                create(x, root)
        sep = "\n" if c["nl"] else " "
        parts = [show(x, root) if isinstance(x, dict) else x for x in c["items"]]
        s = sep.join(parts)
        if c["wrap"]:
            s = wrap(s, c["wrap"])
        if broken(s, None):
            raise Skip
        files = [x for x in c["items"] if isinstance(x, dict)]
        bad = [x for x in files if not os.path.isfile(os.path.join(root, *x["n"]))]
        got = text.texmessage.load(s)
        if not bad:
            want = sep.join("" if isinstance(x, dict) else x for x in c["items"])
            ensure(flat(got).replace(" ", "") == flat(want).replace(" ", ""), "load leaves %r of %r, expected %r", got, s, want)
            ctx.label("all found")
        else:
            # a name which is no file: everything is kept
            ensure(got == s, "load leaves %r of %r, where %s does not exist", got, s, bad[0]["n"])
            ctx.label("missing file")
        ctx.label("quoted", any(x["q"] for x in files))
        ctx.label("wrapped", c["wrap"] > 0)
        ctx.label("nested", any(x["inner"] for x in files))
        ctx.nontrivial(len(c["items"]) > 1 and len(files) > 0)
    finally:
        shutil.rmtree(root)


SUBS.append(Sub("load", load_(), check_load, quick=2400, thorough=20000))


@st.composite
def defs_(draw):
    kind = draw(st.sampled_from(["def", "graphics"]))
    items = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 2)):
            items.append(dict(n=draw(st.lists(name, max_size=2)) + [draw(name) + draw(st.sampled_from([".fd", ".def", ".eps", ".fd", ".eps", ".png"]))], q=draw(st.booleans()), x=draw(st.integers(0, 5)) > 0))
        else:
            items.append(draw(st.sampled_from(OTHER)))
    return dict(kind=kind, items=items, wrap=draw(st.sampled_from([0, 0, 79, 30])))


def check_defs(c, ctx):
    from pyx import text
    root = tempfile.mkdtemp(prefix="c26-")
    try:
        parts, want, names, hit = [], [], [], 0
        for x in c["items"]:
            if not isinstance(x, dict):
                parts.append(x)
                want.append(x)
                continue
            create(dict(x, inner=[]), root)
            p = os.path.join(root, *x["n"])
            q = '"%s"' % p if x["q"] else p
            s = "(%s)" % q if c["kind"] == "def" else "<%s>" % q
            parts.append(s)
            if p.endswith((".fd", ".def") if c["kind"] == "def" else (".eps",)):
                hit += 1
                names.append(p)
            else:
                want.append(s)
        missing = not all(os.path.isfile(p) for p in names)
        s = " ".join(parts)
        if c["wrap"]:
            s = wrap(s, c["wrap"])
        got = getattr(text.texmessage, "load_" + c["kind"])(s)
        if missing:
            ensure(got == s, "load_%s leaves %r of %r, though a file does not exist", c["kind"], got, s)
        else:
            ensure(flat(got).split() == flat(" ".join(want)).split() if not c["wrap"] else flat(got).replace(" ", "") == "".join(want).replace(" ", ""),
                   "load_%s leaves %r of %r, expected %r", c["kind"], got, s, want)
        ctx.label(c["kind"])
        ctx.label("missing", missing)
        ctx.nontrivial(hit >= 2)
    finally:
        shutil.rmtree(root)


SUBS.append(Sub("defs", defs_(), check_defs, quick=1600, thorough=16000))


# ------------------------------------------------------------------ warnings

@st.composite
def warn_(draw):
    items = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["box", "font", "package", "rerun", "nobbl", "other", "other"]))
        items.append([k, draw(st.integers(0, 11)), draw(st.integers(0, 3))])
    return dict(items=items, first=draw(st.sampled_from(["", "\n", "*"])))


def warning(k, a, n):
    "(kind, lines, lines removed by the parser for certain)"
    if k == "box":
        s = ["%s \\%sbox (%s) in paragraph at lines 1--%d" % (["Overfull", "Underfull"][a % 2], "hv"[a % 3 // 2], ["12.3pt too wide", "badness 10000"][a % 2], n)]
        s += ["\\OT1/cmr/m/n/10 some text%d" % i for i in range(n)]
        return "\n".join(s) + "\n\n"
    if k == "font":
        s = ["LaTeX Font Warning: Font shape `T1/xyz/m/n' undefined"] + ["(Font)              using `T1/cmr/m/n' instead on input line %d." % i for i in range(n)]
        return "\n".join(s) + "\n"
    if k == "package":
        p = ["hyperref", "babel", "my-pack"][a % 3]
        s = ["Package %s Warning: Something is wrong" % p] + [("(%s)          continued %d" % (p, i)) for i in range(n)]
        return "\n".join(s) + "\n"
    if k == "rerun":
        return "LaTeX Warning: Label(s) may have changed. Rerun to get cross-references right.\n"
    if k == "nobbl":
        return ["No file texput.bbl.\n", "*No file x.bbl.\n", "  No file my.file.bbl.\n"][a % 3]
    return ["! Undefined control sequence.\n", "l.7 \\foo\n", "Some LaTeX Font Warning: here\n", "Package without colon Warning\n", "No file texput.toc.\n", "LaTeX Warning: Reference `x' undefined.\n",
            "xOverfull \\hbox\n", "Hello\n"][a % 8]


KINDS = {"box": "box_warning", "font": "font_warning", "package": "package_warning", "rerun": "rerun_warning", "nobbl": "nobbl_warning"}


def check_warn(c, ctx):
    from pyx import text
    parts = [(k, warning(k, a, n)) for k, a, n in c["items"]]
    pre = "start\n" if c["first"] != "\n" else "\n"
    s = pre + "".join(t for k, t in parts)
    lines = lambda t: [l for l in t.split("\n") if l.strip()]
    for k, fn in KINDS.items():
        with Logged() as got:
            r = getattr(text.texmessage, fn)(s)
        want = pre + "".join("\n" if j == k else t for j, t in parts)
        n = sum(1 for j, t in parts if j == k)
        ensure(len(got) == n, "%s: %d warnings for %d messages in %r: %r", fn, len(got), n, s, got)
        ensure(lines(r) == lines(want), "%s leaves %r of %r, expected %r", fn, r, s, want)
        for g, t in zip(got, [t for j, t in parts if j == k]):
            body = lines(t)
            ensure(all(l.strip(" *") in g for l in body), "%s logs %r for %r", fn, g, t)
        ctx.label(k, n > 0)
    # all of them in any order leave the rest
    r = s
    with Logged() as got:
        for fn in KINDS.values():        # nobbl_warning takes preceding empty lines, which belong to a box warning
            r = getattr(text.texmessage, fn)(r)
    ensure(lines(r) == lines(pre + "".join(t for j, t in parts if j == "other")), "all parsers leave %r of %r", r, s)
    with Logged() as got:
        ensure(text.texmessage.ignore(s) == "" and not got, "ignore")
        ensure(text.texmessage.warn(s) == "" and len(got) == 1 and "start" in got[0] or pre == "\n", "warn")
    ctx.nontrivial(len({k for k, t in parts}) >= 2)


SUBS.append(Sub("warnings", warn_(), check_warn, quick=1600, thorough=16000))


# ------------------------------------------------------------------ start, end, missing files

@st.composite
def ends_(draw):
    return dict(tex=draw(st.sampled_from(["TeX", "e-TeX", "pdfTeX", "pdfeTeX", "LuaHBTeX"])), version=draw(st.sampled_from(["Version 3.14159265 (TeX Live 2019/Debian)", "3.14"])),
                start=draw(st.booleans()), err=draw(st.integers(0, 4)) > 0, more=draw(st.sampled_from(["", "more text", "*! Undefined control sequence.\n<*> \\raiseerror\n               %\n"])),
                aux=draw(st.sampled_from([None, "(./texput.aux)", "(texput.aux)", '("/my dir/texput.aux")', '("/a (b)/texput.aux")', "(/tmp/x/tex\nput.aux)"])), see=draw(st.booleans()),
                log=draw(st.sampled_from(["Transcript written on texput.log.", "Transcript written on /tmp/xyz/texput.log.", 'Transcript written on "/tmp/my dir/texput.log".', None, "Transcript written on other.log."])),
                wrap=draw(st.sampled_from([0, 79, 25])), other=draw(st.sampled_from(OTHER)), nofile=draw(st.lists(st.sampled_from(["aux", "nav", "toc", "./aux", "./nav"]), max_size=4)))


def check_ends(c, ctx):
    from pyx import text
    T = text.texmessage
    s = ("This is %s, %s\n" % (c["tex"], c["version"])) if c["start"] else "Hello\n"
    s += "*! Undefined control sequence.\n<*> \\raiseerror\n               %\n" if c["err"] else ""
    s += c["more"]
    try:
        r = T.start(s)
        ensure(c["start"] and (c["err"] or "raiseerror" in c["more"]), "start accepts %r", s)
        ensure(r == (c["more"] if c["err"] else ""), "start leaves %r of %r", r, s)
    except text.TexResultError:
        ensure(not c["start"] or not (c["err"] or "raiseerror" in c["more"]), "start fails for %r", s)
        ctx.label("start error")
    # end
    o = c["other"]
    s = o + "\n" + (c["aux"] + "\n" if c["aux"] else "") + ("(see the transcript file for additional information)\n" if c["see"] else "")
    log = c["log"] or ""
    s += wrap(log, c["wrap"]) if c["wrap"] else log
    s += "\n"
    try:
        r = T.end(s)
        ensure(c["log"] and "other" not in c["log"], "end accepts %r", s)
        ensure(r.split() == o.split(), "end leaves %r of %r", r, s)
    except text.TexResultError:
        ensure(not c["log"] or "other" in c["log"], "end fails for %r", s)
        ctx.label("end error")
    # missing files
    s = o + "".join("\nNo file %stexput.%s." % (("./", f[2:]) if f.startswith("./") else ("", f)) for f in c["nofile"]) + "\n"
    for e, fn in (("aux", T.no_aux), ("nav", T.no_nav), ("toc", T.no_file("toc"))):
        r = fn(s)
        want = o + "".join("\n" if f.endswith(e) else "\nNo file %stexput.%s." % (("./", f[2:]) if f.startswith("./") else ("", f)) for f in c["nofile"]) + "\n"
        ensure(r == want, "no_%s leaves %r of %r", e, r, s)
    ctx.nontrivial(c["start"] or bool(c["log"]))


SUBS.append(Sub("ends", ends_(), check_ends, quick=800, thorough=8000))
