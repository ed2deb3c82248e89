"""rewrite the "fixed" list of known_findings.json from the fix: commits of /repo (maps commit subject -> property)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(os.path.join(V, "tools", "fixmap.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        if s not in M:
            print("NO PROPERTY FOR", s)
        else:
            fixed.append("fixed: property=%s %s %s" % (M[s][0], h, M[s][1] if len(M[s]) > 1 else s[5:]))
name = os.path.join(V, "known_findings.json")
data = json.load(open(name)) if os.path.exists(name) else dict(findings=[])
data["fixed"] = fixed
json.dump(data, open(name, "w"), indent=1)
open(name, "a").write("\n")
print(len(fixed), "fixed", len(data["findings"]), "findings")
