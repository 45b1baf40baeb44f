"""Rewrite the table of planted bugs at the end of DESIGN.md.

usage: python3 tools/seed_table.py [RESULTS]    (RESULTS: lines "id Cxx rc=.. n clause..." of a run of the checks)
What each bug was caught by is kept in tools/seed_caught.json.
"""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = V + "/tools/seed_caught.json"
caught = json.load(open(J)) if os.path.exists(J) else {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d) (\d+) ?(.*)", l)
        if m:
            cl = re.findall(r"(\S+) count=\d+", m.group(5))
            caught[m.group(1)] = ", ".join(dict.fromkeys(c for c in cl)) if m.group(3) == "1" else None
json.dump(caught, open(J, "w"), indent=1, sort_keys=True)
rows = ["| id | property | needs | caught by (first clauses) |", "|---|---|---|---|"]
ids = sorted(os.listdir(V + "/seeded"))
for i in sorted(ids, key=lambda i: (json.load(open(V + "/seeded/%s/meta.json" % i))["property"], i)):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ("`%s`" % caught[i].replace("|", "¦")) if caught.get(i) else "not caught" if i in caught else "?"))
s = open(V + "/DESIGN.md").read()
mark = "<!-- planted bugs: written by tools/seed_table.py -->"
if mark not in s:
    s = s.replace("SEEDTABLE", mark)
s = s[:s.index(mark)] + mark + "\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
