"""Enumerate small mutations of /repo/src/opinf, sample them, keep those that pass the repository's tests, and see
which checks notice.  Development tool: it shows where the specifications do not look.

usage: mutate.py gen OUT.json N SEED [FILES...] | mutate.py tests IN.json OUT.json | mutate.py checks IN.json OUT.json
"""
import ast, sys, os, json, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF = os.environ.get("MUT_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {"__str__", "__repr__", "plot_svdval_decay", "plot_residual_energy", "plot_cumulative_energy", "plot_energy", "mpl_config", "plot1D", "_plot"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!=", ">="], ast.NotEq: ["==", "<"], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "//", ast.FloorDiv: "/"}
TESTDIR = dict(pre="pre", basis="basis", lift="lift", ddt="ddt", lstsq="lstsq", operators="operators", models="models", roms="roms", post="post", utils="utils")


class G(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def add(self, n, new, what):
        a, z = self.span(n)
        self.out.append((a, z, new, what, n.lineno, ".".join(self.fn)))

    def visit_FunctionDef(self, n):
        if n.name in SKIP or n.name.startswith("plot"):
            return
        self.fn.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                self.add(d, str(not d.value), "default")
        for s in body:
            self.visit(s)
        self.fn.pop()

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.fn.pop()

    def visit_Raise(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_Call(self, n):
        t = self.text(n.func)
        if t in ("print", "warnings.warn") or t.endswith(".warn"):
            return
        if t.endswith(".copy") and not n.args and isinstance(n.func, ast.Attribute):
            self.add(n, self.text(n.func.value), "nocopy")
        if t in ("np.array", "np.atleast_2d", "np.atleast_1d", "np.abs", "np.sqrt", "np.ravel", "sorted", "np.sort", "copy.deepcopy", "copy.copy", "list", "tuple", "len") and len(n.args) == 1 and not n.keywords and t != "len":
            self.add(n, "(" + self.text(n.args[0]) + ")", "unwrap " + t)
        for k in n.keywords:
            if k.arg and isinstance(k.value, ast.Constant) and isinstance(k.value.value, bool):
                self.add(k.value, str(not k.value.value), "kw")
        if t in ("min", "max", "np.min", "np.max", "np.any", "np.all", "any", "all"):
            sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
            h, _, l = t.rpartition(".")
            self.add(n.func, (h + "." if h else "") + sw[l], "minmax")
        if t.endswith((".min", ".max", ".any", ".all")) and not t.startswith("np."):
            sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
            h, _, l = t.rpartition(".")
            self.add(n.func, h + "." + sw[l], "minmax")
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and t not in ("isinstance", "hasattr", "getattr", "setattr", "zip", "super"):
            x, y = n.args
            self.add(n, self.b[self.span(n)[0]:self.span(x)[0]].decode() + self.text(y) + ", " + self.text(x) + self.b[self.span(y)[1]:self.span(n)[1]].decode(), "swapargs")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, "(%s %s %s)" % (self.text(n.left), o, self.text(n.comparators[0])), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = BIN.get(type(n.op))
        if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            self.add(n, "(%s %s %s)" % (self.text(n.left), o, self.text(n.right)), "bin")
        if isinstance(n.op, ast.MatMult):
            self.add(n, "(%s @ %s)" % (self.text(n.right), self.text(n.left)), "matswap")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "(%s)" % self.text(n.operand), "unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        a = [self.text(v) for v in n.values]
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join("(%s)" % x for x in a) + ")", "bool")
        for i in range(len(a)):
            self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % x for j, x in enumerate(a) if j != i) + ")", "dropcond")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            return
        if isinstance(n.value, int):
            self.add(n, str(n.value + 1), "int+")
            if n.value > 0:
                self.add(n, str(n.value - 1), "int-")

    def visit_Attribute(self, n):
        if n.attr == "T":
            self.add(n, self.text(n.value), "noT")
        if n.attr == "shape":
            pass
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None or n.upper is not None:
            if n.lower is not None and n.upper is not None:
                self.add(n, self.text(n.lower) + ":", "slice")
                self.add(n, ":" + self.text(n.upper), "slice")
            else:
                self.add(n, ":", "slice")
        self.generic_visit(n)

    def visit_If(self, n):
        if len(n.body) == 1 and isinstance(n.body[0], ast.Raise):
            self.add(n.test, "False", "nocheck")
        else:
            self.add(n.test, "True", "iftrue")
            self.add(n.test, "False", "iffalse")
        self.visit(n.test)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_IfExp(self, n):
        self.add(n, "(" + self.text(n.body) + ")", "ifexp")
        self.add(n, "(" + self.text(n.orelse) + ")", "ifexp")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call) and not self.text(n.value).startswith(("warnings", "print")):
            self.add(n, "pass", "delcall")
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and self.fn and self.fn[-1] != "__init__":
            self.add(n, "pass", "delassign")
        self.visit(n.value)
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.visit(t.slice)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delaug")
        self.visit(n.value)

    def visit_Return(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_With(self, n):
        for i in n.items:
            pass
        for s in n.body:
            self.visit(s)


def gen(files):
    out = []
    for f in files:
        src = open(os.path.join(REPO, "src/opinf", f)).read()
        g = G(src)
        g.visit(ast.parse(src))
        for a, z, new, what, line, fn in g.out:
            old = src.encode()[a:z].decode()
            if old != new:
                m = src.encode()[:a] + new.encode() + src.encode()[z:]
                try:
                    if ast.dump(ast.parse(m)) == ast.dump(ast.parse(src)):
                        continue
                except SyntaxError:
                    continue
                out.append(dict(file=f, a=a, z=z, old=old, new=new, what=what, line=line, fn=fn))
    return out


def env(root):
    return dict(os.environ, PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0", PATH="/opt/venv/bin:" + os.environ["PATH"])


def apply(root, m):
    p = os.path.join(root, "src/opinf", m["file"])
    orig = open(os.path.join(REPO, "src/opinf", m["file"]), "rb").read()
    old = m["old"].encode()
    at = [i for i in range(len(orig)) if orig.startswith(old, i)]       # the file may have moved a little since
    if not at:
        return p, orig
    a = min(at, key=lambda i: abs(i - m["a"]))
    open(p, "wb").write(orig[:a] + m["new"].encode() + orig[a + len(old):])
    return p, orig


def tests(args):
    i, m = args
    root = "/tmp/mut/w%d" % i
    p, orig = apply(root, m)
    try:
        d = m["file"].split("/")[0]
        for t in ([os.path.join("tests", TESTDIR[d])] if d in TESTDIR else ["tests"]) + (["tests"] if os.environ.get("MUT_FULL") else []):
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--tb=no", t, "--randomly-seed=1", "--randomly-dont-reorganize"],
                               cwd=root, capture_output=True, text=True, env=env(root), timeout=400)
            if r.returncode != 0:
                return m, False
        return m, True
    except subprocess.TimeoutExpired:
        return m, False
    finally:
        open(p, "wb").write(orig)


PROPS = [("pre/", "C01 C02 C03 C29 C05 C23 C26 C04"), ("post/", "C25 C26"), ("lift/", "C18 C29 C04 C26"), ("ddt/", "C17 C29 C26 C04"), ("basis/_pod", "C07 C06 C05 C23 C26 C24 C04"), ("basis/", "C06 C07 C29 C05 C23 C26 C04"),
         ("operators/_affine", "C11 C30 C14 C23 C26 C05 C24"), ("operators/_interp", "C11 C30 C14 C23 C26 C05 C24"), ("operators/", "C08 C09 C10 C30 C29 C23 C26 C12 C13 C05 C11 C24"),
         ("models/mono/_param", "C14 C30 C26 C23 C05 C04 C12"), ("models/", "C12 C30 C13 C09 C10 C26 C05 C23 C14 C04"), ("lstsq/", "C15 C16 C29 C22 C26 C23 C05 C04"),
         ("roms/_bayes", "C22 C21 C26"), ("roms/", "C19 C20 C21 C26 C22 C05 C04"), ("utils/_grid", "C21"), ("utils/_hdf5", "C24 C23"), ("utils/_timer", "C27"), ("utils/_reproj", "C28 C26"), ("", "C23 C26")]


def checks(m, i=0):
    root = "/tmp/mut/c%d" % i
    p, orig = apply(root, m)
    try:
        ps = next(v for k, v in PROPS if m["file"].startswith(k)).split()
        for c in ps:
            r = subprocess.run(["./check", c, "quick"], cwd=VERIFC, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=root))
            if r.returncode == 1:
                v = [l.split("clause=")[-1] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                return c, v[:1]
            if r.returncode != 0:
                return c, ["machinery: " + r.stdout[-300:]]
        return None, []
    finally:
        open(p, "wb").write(orig)


VERIFC = os.environ.get("MUT_VERIF", VERIF)


def main():
    cmd = sys.argv[1]
    if cmd == "gen":
        files = sys.argv[5:] or [os.path.relpath(os.path.join(d, f), REPO + "/src/opinf") for d, _, fs in os.walk(REPO + "/src/opinf") for f in fs
                                 if f.endswith(".py") and f not in ("__init__.py", "_mpl_config.py", "_requires.py", "_repr.py") and "multi/_" not in d]
        ms = gen(sorted(files))
        random.Random(int(sys.argv[4])).shuffle(ms)
        json.dump(ms[:int(sys.argv[3])], open(sys.argv[2], "w"), indent=0)
        print(len(ms), "mutants,", min(len(ms), int(sys.argv[3])), "kept")
        return
    ms = json.load(open(sys.argv[2]))
    out = sys.argv[3]
    done = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    seen = {(d["file"], d["a"], d["z"], d["new"]) for d in done}
    if cmd == "tests":
        import queue
        n = int(os.environ.get("MUT_PROCS", "7"))
        q = queue.Queue()
        for i in range(n):
            root = "/tmp/mut/w%d" % i
            shutil.rmtree(root, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, root], check=True)
            q.put(i)

        def work(m):
            i = q.get()
            try:
                return tests((i, m))
            finally:
                q.put(i)
        with ThreadPoolExecutor(n) as ex, open(out, "a") as f:
            for m, ok in ex.map(work, [m for m in ms if (m["file"], m["a"], m["z"], m["new"]) not in seen]):
                m["survives"] = ok
                f.write(json.dumps(m) + "\n")
                f.flush()
    else:
        import queue
        n = int(os.environ.get("MUT_PROCS", "1"))
        q = queue.Queue()
        for i in range(n):
            shutil.rmtree("/tmp/mut/c%d" % i, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, "/tmp/mut/c%d" % i], check=True)
            q.put(i)

        def work(l):
            i = q.get()
            t = time.time()
            try:
                l["caught"], l["clause"] = checks(l, i)
            finally:
                q.put(i)
            l["s"] = round(time.time() - t)
            return l
        todo = [l for l in ms if l.get("survives") and (l["file"], l["a"], l["z"], l["new"]) not in seen]
        with ThreadPoolExecutor(n) as ex, open(out, "a") as f:
            for l in ex.map(work, todo):
                f.write(json.dumps(l) + "\n")
                f.flush()


if __name__ == "__main__":
    main()
