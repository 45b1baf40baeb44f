"""For each planted bug: does its patch apply to /repo's HEAD, and does every line it removes stem from the original repository?"""
import os, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob(V + "/seeded/*")):
    p = d + "/patch.diff"
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True, text=True)
    files = [l[6:] for l in open(p).read().splitlines() if l.startswith("+++ b/")]
    orig = set()
    for f in files:
        orig |= {l.strip() for l in subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout.splitlines()}
    minus = [l[1:].strip() for l in open(p).read().splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
    own = [l for l in minus if l not in orig]
    print(os.path.basename(d), "applies" if ok.returncode == 0 else "DOES NOT APPLY", "removed", len(minus), "own", own)
