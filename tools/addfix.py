"""python3 tools/addfix.py Cxx [Cyy..]: register the last fix: commit of /repo under these properties"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = os.path.join(V, "tools", "fixmap.json")
m = json.load(open(name))
sub = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s"], capture_output=True, text=True).stdout.strip()
assert sub.startswith("fix:"), sub
m[sub] = sys.argv[1:]
json.dump(m, open(name, "w"), indent=1)
subprocess.run([sys.executable, os.path.join(V, "tools", "fixed.py")])
