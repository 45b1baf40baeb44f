"""Rewrite known_findings.json's "fixed" list from the fix: commits of /repo (ids assigned in FIXES by subject prefix)."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(HERE, "known_findings.json")
d = json.load(open(P))
old = {l.split()[2]: l.split()[1].split("=")[1] for l in d["fixed"]}
FIXES = json.load(open(os.path.join(HERE, "tools", "fix_ids.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5fa3a47..HEAD"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    s = s[len("fix: "):]
    pid = old.get(h) or FIXES[s]
    out.append("fixed: property=%s %s %s" % (pid, h, s))
d["fixed"] = out
json.dump(d, open(P, "w"), indent=1)
open(P, "a").write("\n")
