"""from fx import fx: fx(file, [(old, new), ..], message, "C21", ..): edit /repo, commit as fix:, register under the properties"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fx(file, edits, msg, *props):
    "file is None for edits = [(file, [(old, new), ..]), ..]"
    for f, es in [(file, edits)] if file else edits:
        p = '/repo/' + f
        s = open(p).read()
        for o, n, *k in es:
            assert s.count(o) == (k[0] if k else 1), (s.count(o), o)
            s = s.replace(o, n)
        open(p, 'w').write(s)
    subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', 'fix: ' + msg])
    subprocess.check_call([sys.executable, os.path.join(V, "tools", "addfix.py"), *props])
