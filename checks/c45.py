"""C45 compiled extensions and external tools"""
import atexit, base64, importlib.machinery, importlib.util, json, os, random, shutil, subprocess, sys, sysconfig, tempfile
from hypothesis import strategies as st
from lib import core
from lib.core import Sub, ensure, fail, Skip
from checks import c25

PROP = "C45"
RULE = ("the C extensions are compiled from the current sources: random bytes, keys and prefixes through the compiled and the Python coder, generated fonts through the reader with the compiled coder, batches under the address and undefined "
        "behaviour sanitizers; random trees of files searched through the kpathsea bindings, kpsewhich and a stand-in for locate; non-trivial: data longer than the prefix, a file found under several formats or places")

_D = {}
COMPILE = ["gcc", "-O2", "-fPIC", "-shared", "-I" + sysconfig.get_path("include")]


def compiled(src, out, *opts):
    r = subprocess.run(COMPILE + list(opts[:-1] if opts and opts[-1].startswith("-l") else opts) + [src, "-o", out] + ([opts[-1]] if opts and opts[-1].startswith("-l") else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("%s cannot be compiled: %s" % (src, r.stdout[-2000:]))


def load(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location(name, path, loader=loader))
    loader.exec_module(m)
    return m


def prepare():
    "a copy of the package with the extensions in place, as setup.py installs them"
    d = tempfile.mkdtemp(prefix="c45-ext-")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    os.chmod(d, 0o755)
    shutil.copytree(os.path.join(core.REPO, "pyx"), os.path.join(d, "pyx"), ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.log"))
    compiled(os.path.join(core.REPO, "pyx/font/_t1code.c"), os.path.join(d, "pyx/font/_t1code.so"))
    compiled(os.path.join(core.REPO, "pyx/pykpathsea.c"), os.path.join(d, "pyx/pykpathsea.so"), "-lkpathsea")
    compiled(os.path.join(core.REPO, "pyx/font/_t1code.c"), os.path.join(d, "_t1code.so"), "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")
    _D["dir"] = d
    _D["asan"] = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    _D["c"] = load("_t1code", os.path.join(d, "pyx/font/_t1code.so"))
    c25.prepare()


# ---- coding of Type 1 fonts ----------------------------------------------------------------------------

def decode(code, r, n):
    out = bytearray()
    for x in code:
        out.append(x ^ (r >> 8))
        r = ((x + r) * 52845 + 22719) % 65536
    return bytes(out[n:])


def encode(data, r, prefix):
    out = bytearray()
    for x in prefix + data:
        y = x ^ (r >> 8)
        out.append(y)
        r = ((y + r) * 52845 + 22719) % 65536
    return bytes(out)


data = st.one_of(st.tuples(st.just("hex"), st.binary(max_size=12).map(bytes.hex)), st.tuples(st.just("hex"), st.binary(max_size=80).map(bytes.hex)), st.tuples(st.just("rand"), st.integers(0, 3000), st.integers(0, 9)), st.tuples(st.just("fill"), st.integers(0, 300), st.sampled_from([0, 255, 128])))
codecase = st.fixed_dictionaries(dict(data=data.map(list), r=st.one_of(st.sampled_from([55665, 4330, 0, 65535]), st.integers(0, 65535)), n=st.sampled_from([0, 1, 2, 4, 4, 5, 16]), prefix=st.one_of(st.just(b"PyX!".hex()), st.binary(max_size=6).map(bytes.hex))))


def content(d):
    if d[0] == "hex":
        return bytes.fromhex(d[1])
    if d[0] == "fill":
        return bytes([d[2]]) * d[1]
    return random.Random(d[2]).randbytes(d[1])


def runcode(c, ctx):
    from pyx.font import t1code
    d, p = content(c["data"]), bytes.fromhex(c["prefix"])
    for mod in (_D["c"], t1code):
        name = "the extension" if mod is _D["c"] else "the Python code"
        got = mod.decoder(d, c["r"], c["n"])
        ensure(type(got) is bytes and got == decode(d, c["r"], c["n"]), "%s decodes %d bytes wrongly with key %d and prefix %d", name, len(d), c["r"], c["n"])
        got = mod.encoder(d, c["r"], p)
        ensure(type(got) is bytes and got == encode(d, c["r"], p), "%s encodes %d bytes wrongly with key %d", name, len(d), c["r"])
        ensure(mod.decoder(got, c["r"], len(p)) == d, "%s does not decode what it encodes", name)
    ctx.nontrivial(len(d) > c["n"] > 0)
    ctx.label("short", len(d) < c["n"])
    ctx.label("long", len(d) > 1000)


BATCH = """
import sys, json
sys.path.insert(0, sys.argv[1])
import _t1code
assert _t1code.__file__.startswith(sys.argv[1])
for d, r, n, p in json.load(sys.stdin):
    d, p = bytes.fromhex(d), bytes.fromhex(p)
    for i in range(2):
        _t1code.decoder(d, r, n)
        _t1code.decoder(_t1code.encoder(d, r, p), r, len(p))
print("done")
"""


def runsanitize(c, ctx):
    batch = [(content(x["data"]).hex(), x["r"], x["n"], x["prefix"]) for x in c]
    env = dict(os.environ, LD_PRELOAD=_D["asan"], ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", PYTHONMALLOC="malloc")
    r = subprocess.run([sys.executable, "-I", "-c", BATCH, _D["dir"]], input=json.dumps(batch), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    lines = [l for l in r.stderr.split("\n") if "ERROR" in l or "runtime error" in l or "Error" in l]
    ensure(r.returncode == 0 and r.stdout == "done\n", "the extension fails under the sanitizers: %s", "; ".join(lines)[:400])
    ctx.nontrivial(sum(len(b[0]) > 2 * b[2] > 0 for b in batch) > 2)


def runfont(c, ctx):
    from pyx.font import t1file
    old = t1file.decoder, t1file.encoder
    t1file.decoder, t1file.encoder = _D["c"].decoder, _D["c"].encoder
    try:
        FONT.check(c, ctx)
    finally:
        t1file.decoder, t1file.encoder = old


FONT = [s for s in c25.SUBS if s.name == "file"][0]


# ---- files ---------------------------------------------------------------------------------------------

EXT = dict(tfm=[".tfm"], afm=[".afm"], pfm=[".pfm"], fontmap=[".map"], pict=[".eps", ".epsi"], tex_ps_header=["", ".pro"], type1=[".pfa", ".pfb"], vf=[".vf"], dvips_config=[], ttf=[".ttf"], t42=[".t42"], otf=[".otf"], pyx=[])
KNOWN = ["tfm", "afm", "fontmap", "pict", "tex_ps_header", "type1", "vf", "dvips_config"]
VARS = dict(tfm="TFMFONTS", afm="AFMFONTS", fontmap="TEXFONTMAPS", pict="TEXPICTS", tex_ps_header="TEXPSHEADERS", type1="T1FONTS", vf="VFFONTS", dvips_config="TEXCONFIG")
stem = st.sampled_from(["foo", "bar", "x-y", "a.b", "foo.tfm", "foofoo", "fö"])
ext = st.sampled_from([".tfm", ".afm", ".map", ".eps", ".epsi", ".pro", ".pfa", ".pfb", ".vf", "", ".enc", ".cfg", ".ps"])
place = st.sampled_from(["p", "p", "q", "q/r", "q/r/s"])
ask = st.tuples(stem, st.one_of(st.just(""), ext), st.lists(st.sampled_from(KNOWN), min_size=1, max_size=2, unique=True), st.sampled_from([None, None, None, "pfm", "pyx"]))
known = st.lists(st.tuples(st.integers(0, 11), st.integers(0, 3)), max_size=5)
treecase = st.fixed_dictionaries(dict(known=known, files=st.lists(st.tuples(place, stem, ext), max_size=12, unique=True), asks=st.lists(ask, min_size=1, max_size=5), order=st.booleans(), installed=st.lists(st.tuples(st.sampled_from(["cmr10", "cmsy10", "psfonts", "8r", "tex", "texps", "config", "nofile", "cmr10.tfm", "ptmr8r", "ptmr7t", "texc.pro", "8r.enc", "pdftex.map"]), st.lists(st.sampled_from(KNOWN), min_size=1, max_size=2, unique=True)), max_size=3)))

LOCATE = """
import os, sys, json
sys.path.insert(0, sys.argv[1])
import logging
from pyx import config
assert config.__file__.startswith(sys.argv[1])
logging.disable(logging.CRITICAL)
q = json.load(sys.stdin)
config.methods = [config.locator_classes[q["method"]]()]
out = []
for name, formats in q["asks"]:
    try:
        with config.open(name, [getattr(config.format, f) for f in formats]) as f:
            out.append(os.fsencode(f.name).decode())
    except IOError as e:
        out.append(None)
    except Exception as e:
        out.append("error " + repr(e))
print(json.dumps([out, config.has_pykpathsea]))
"""


def runkpathsea(c, ctx):
    d = tempfile.mkdtemp(prefix="c45-")
    try:
        for p in ("p", "q", "q/r", "q/r/s", "home", "cwd"):
            os.mkdir(os.path.join(d, p))
        for p, s, e in c["files"]:
            with open(os.path.join(d, p, s + e), "w") as f:
                f.write(p)
        dirs = ["%s/p" % d, "%s/q//" % d]
        if c["order"]:
            dirs.reverse()
        env = {k: v for k, v in os.environ.items() if not k.startswith("TEX") and k not in VARS.values() and k != "PYXRC"}
        env.update({v: ":".join(dirs) + ":" for v in VARS.values()})
        env.update(HOME=os.path.join(d, "home"), TEXMFVAR=os.path.join(d, "home"), MKTEXTFM="0", MKTEXPK="0", MKTEXMF="0", LC_ALL="C.UTF-8")
        mine = [[s + e, f + ([x] if x else [])] for s, e, f, x in c["asks"]] + directed(c, c["files"], KNOWN)
        asks = mine + [[n, f] for n, f in c["installed"]]
        res = {}
        for m in ("pykpathsea", "kpsewhich"):
            r = subprocess.run([sys.executable, "-c", LOCATE, _D["dir"]], input=json.dumps(dict(method=m, asks=[[n, [x for x in f if x in KNOWN or m == "pykpathsea"]] for n, f in asks])), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=os.path.join(d, "cwd"))
            ensure(r.returncode == 0, "%s fails: %s", m, r.stderr[-400:])
            res[m], has = json.loads(r.stdout)
            ensure(has, "the extension is not found in the package")
        # (kpsewhich guesses a format instead of an unknown one)
        for (name, formats), a, b in zip(asks, res["pykpathsea"], res["kpsewhich"]):
            if a and b and a.startswith(d + "/q") and b.startswith(d + "/q") and os.path.basename(a) == os.path.basename(b):
                continue         # (the order of the folders below another one is not specified)
            ensure(a == b, "%s of formats %s found at %s by the extension, at %s by kpsewhich", name, formats, a, b)
        own = 0
        files = {(p, s + e) for p, s, e in c["files"]}
        for (name, formats), a in zip(mine, res["pykpathsea"]):
            cands = {name} | {name + e for f in formats for e in EXT[f] + [".enc"] * (f == "tex_ps_header")}
            if a is None:
                # (a file with the extension of the format is there)
                ensure(name.endswith(".tfm") or not any((p, name + e) in files for f in formats if f in ("tfm", "afm", "vf", "type1") for e in EXT[f] for p in ("p", "q", "q/r", "q/r/s")), "%s of formats %s not found", name, formats)
            elif a.startswith(d):
                ensure((os.path.relpath(os.path.dirname(a), d), os.path.basename(a)) in files and os.path.basename(a) in cands, "%s of formats %s found at %s", name, formats, a)
                own += 1
        ctx.nontrivial(own >= 1 and len(set(asks[i][0] for i in range(len(asks)))) > 1)
        ctx.label("own", own)
        ctx.label("installed", any(a and not a.startswith(d) for a in res["kpsewhich"]))
    finally:
        shutil.rmtree(d)


def directed(c, files, formats):
    "questions for existing files: the name with or without the extension, for the format of the extension or a given one"
    out = []
    for i, mode in c["known"]:
        if files:
            s, e = files[i % len(files)][1:3]
            own = [f for f in formats if e and e in EXT[f]] or [formats[i % len(formats)]]
            out.append([s + e * (mode % 2), own[:1] if mode < 2 else [formats[i % len(formats)]] + own[:1] if own[0] != formats[i % len(formats)] else own[:1]])
    return out


SCRIPT = """#!/bin/sh
# prints all files whose name contains the argument, as locate does
while IFS= read -r l; do
  case "$l" in *"$1"*) printf '%s\\n' "$l";; esac
done < "$(dirname "$0")/db"
"""
locstem = st.sampled_from(["foo", "bar", "a b", "foo.bar", "fö", "oo"])
locext = st.sampled_from([".tfm", ".eps", ".epsi", ".pro", "", ".pfa", ".pfb", ".tfm.gz", ".map"])
LOCFORMATS = ["tfm", "pict", "type1", "dvips_config", "fontmap", "pyx"]
loccase = st.fixed_dictionaries(dict(known=known, files=st.lists(st.tuples(st.sampled_from(["p", "p/foo.d", "q", "foo.tfm", "q/a b.d"]), locstem, locext, st.sampled_from([True, True, True, False])), max_size=8, unique_by=lambda t: t[:3]),
                                     asks=st.lists(st.tuples(locstem, st.one_of(st.just(""), locext), st.lists(st.sampled_from(LOCFORMATS), min_size=1, max_size=2, unique=True)), min_size=1, max_size=4), installed=st.sampled_from([True, True, True, False])))


def runlocate(c, ctx):
    from pyx import config
    import configparser
    d = tempfile.mkdtemp(prefix="c45-")
    old = config.methods, config.opener_cache, config.config
    try:
        db = []
        for p, s, e, exists in c["files"]:
            os.makedirs(os.path.join(d, p), exist_ok=True)
            db.append((os.path.join(d, p, s + e), exists))
            if exists:
                with open(db[-1][0], "w") as f:
                    f.write("%s/%s" % (p, s + e))
        os.mkdir(os.path.join(d, "bin"))
        tool = os.path.join(d, "bin", "loc")
        with open(tool, "w") as f:
            f.write(SCRIPT)
        os.chmod(tool, 0o755)
        with open(os.path.join(d, "bin", "db"), "w") as f:
            f.write("".join(p + "\n" for p, e in db))
        cp = configparser.ConfigParser()
        cp.read_dict({"filelocator": {"locate": tool if c["installed"] else os.path.join(d, "nosuchtool")}})
        config.config = cp
        config.methods = [config.locator_classes["locate"]()]
        config.opener_cache = {}
        found = 0
        for name, formats in [(s + e, f) for s, e, f in c["asks"]] + directed(c, c["files"], LOCFORMATS):
            if any(x and name.endswith(x) for f in formats for x in EXT[f]):
                cands = [name]
            else:
                cands = [name + x for f in formats for x in (EXT[f] or [""])]
            want = None
            for cand in cands:
                hits = [(p, ex) for p, ex in db if os.path.basename(p) == cand]
                if hits:
                    want = hits[0]
                    break
            try:
                with config.open(name, [getattr(config.format, f) for f in formats]) as f:
                    got = os.path.join(d, f.read().decode())
            except IOError:
                got = None
            if not c["installed"] or not want or not want[1]:
                ensure(got is None, "%s of formats %s found at %s", name, formats, got)
            else:
                ensure(got == want[0], "%s of formats %s found at %s instead of %s", name, formats, got, want[0])
                found += 1
        ctx.nontrivial(found)
        ctx.label("found", found)
    finally:
        config.methods, config.opener_cache, config.config = old
        shutil.rmtree(d)


SUBS = [
    Sub("coder", codecase, runcode, quick=3000, thorough=100000),
    Sub("sanitizer", st.lists(codecase, min_size=3, max_size=40), runsanitize, quick=60, thorough=1500),
    Sub("fonts", FONT.strategy, runfont, quick=400, thorough=10000),
    Sub("kpathsea", treecase, runkpathsea, quick=50, thorough=1500),
    Sub("locate", loccase, runlocate, quick=400, thorough=10000),
]
