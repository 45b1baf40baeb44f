"""Writes MANIFEST.json from the registered checks (python3 tools/gen_manifest.py)."""
import json, os, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CLAIMED = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="no check registered yet (under construction)"))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
