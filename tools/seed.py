"""Plant a bug in a scratch copy of /repo and keep it under /verif/seeded/<id>/ once it is confirmed.

usage: python3 tools/seed.py SPECS.py [id ...]
SPECS.py defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo=python text)].
The change must build, pass the repository's tests, and demo.py must exit 0 without and nonzero with it.
"""
import sys, os, json, shutil, subprocess, runpy
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SB = "/tmp/sb"
DEMO = """#!/bin/sh
# run with cwd /repo: exit 0 if the property holds on this input
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def env(root):
    e = dict(os.environ, PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0", PATH="/opt/venv/bin:" + os.environ["PATH"])
    return e


def one(bug):
    root = os.path.join(SB, bug["id"])
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), root], check=True)
    for f, old, new in bug["edits"]:
        p = os.path.join(root, "src/opinf", f)
        s = open(p).read()
        if s.count(old) != 1:
            return bug["id"], "edit does not apply once (%d): %r" % (s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", root, "diff"], capture_output=True, text=True).stdout
    d = os.path.join(SB, bug["id"] + ".kept")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["what_it_breaks"]), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["sh", d + "/demo.sh"], cwd=os.environ.get("SEED_REPO", "/repo"), capture_output=True, text=True, env=env(os.environ.get("SEED_REPO", "/repo")), timeout=300)
    b = subprocess.run(["sh", d + "/demo.sh"], cwd=root, capture_output=True, text=True, env=env(root), timeout=300)
    if a.returncode != 0:
        return bug["id"], "demo fails on the unchanged tree: " + a.stdout[-300:] + a.stderr[-600:]
    if b.returncode == 0:
        return bug["id"], "demo passes with the patch"
    t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--tb=short", "-W", "default", "tests", "--randomly-seed=1",
                        "--randomly-dont-reorganize"], cwd=root, capture_output=True, text=True, env=env(root))
    if t.returncode != 0:
        return bug["id"], "tests fail: " + t.stdout[-1500:]
    dst = os.path.join(VERIF, "seeded", bug["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.move(d, dst)
    # what does the property's own check say?
    return bug["id"], "kept; demo: %s" % (b.stdout + b.stderr).strip().splitlines()[-1:]


def check(bug, tier="quick"):
    root = os.path.join(SB, bug["id"])
    c = subprocess.run(["./check", bug["property"], tier], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=root))
    l = [x for x in c.stdout.splitlines() if x.startswith(("VIOLATION", "machinery"))]
    return bug["id"], c.returncode, [x.split("clause=")[-1] for x in l[:3]] or c.stdout[-300:]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    os.makedirs(SB, exist_ok=True)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, bugs):
            print(*r, flush=True)
    for b in bugs:
        if os.path.isdir(os.path.join(VERIF, "seeded", b["id"])):
            print(*check(b), flush=True)
        shutil.rmtree(os.path.join(SB, b["id"]), ignore_errors=True)


if __name__ == "__main__":
    main()
