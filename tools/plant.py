"""Plant bugs: plant(...) writes /verif/seeded/<id> after trying the demonstration on a scratch copy of /repo.

python3 tools/plant.py catch [ID...]   run the property's check on a patched scratch copy of /repo
python3 tools/plant.py demo [ID...]    run the demonstrations, unpatched and patched
python3 tools/plant.py tests [ID...]   apply all given patches together to /repo, run the stable tests, undo
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "gallery", "www"))
    return d, r


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **kw)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)


DEMO = """#!/bin/bash
# run with cwd = the repository; exit 0: the property holds for this input
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3-vt "$here/demo.py"
"""


def plant(id, prop, edits, demo, needs, breaks):
    d, r = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "BAD EDIT: %d occurrences in %s of %r" % (s.count(old), f, old[:80]))
                return False
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"] + sorted({f for f, *_ in edits}), r).stdout
        out = os.path.join(SEEDED, id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        b = sh(["bash", os.path.join(out, "demo.sh")], r)
        ok = a.returncode == 0 and b.returncode != 0
        print(id, prop, "ok" if ok else "BAD DEMO: unpatched %d, patched %d\n%s\n%s" % (a.returncode, b.returncode, a.stdout[-800:], b.stdout[-800:]))
        if ok:
            print("    ", b.stdout.strip().splitlines()[-1:])
        return ok
    finally:
        shutil.rmtree(d)


def ids(args):
    return args or sorted(os.path.basename(p) for p in glob.glob(SEEDED + "/*"))


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "tests":
        applied = []
        try:
            for i in ids(args):
                p = os.path.join(SEEDED, i, "patch.diff")
                if subprocess.run(["git", "-C", "/repo", "apply", p]).returncode == 0:
                    applied.append(i)
            subprocess.run(["bash", "/opt/vp/build.sh"])
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant-tests.json"])
            t = json.load(open("/tmp/plant-tests.json"))
            print("applied", applied, "failed", t["failed"])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
        return
    for i in ids(args):
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        d, r = copy()
        try:
            a = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], r)
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stdout)
                continue
            if cmd == "demo":
                u = sh(["bash", os.path.join(SEEDED, i, "demo.sh")], "/repo").returncode
                p = sh(["bash", os.path.join(SEEDED, i, "demo.sh")], r).returncode
                print(i, "ok" if u == 0 and p else "BAD", u, p)
            else:
                t = time.time()
                c = sh(["python3-vt", "run.py", meta["property"], "--tier", "quick", "--seed", os.environ.get("VERIF_SEED", "1")], VERIF, VERIF_REPO=r)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                print("%-28s %s %-6s %4.0fs %s" % (i, meta["property"], "CAUGHT" if c.returncode == 1 and v else "missed rc=%d" % c.returncode,
                                                 time.time()-t, (v or [""])[0][:100]), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
