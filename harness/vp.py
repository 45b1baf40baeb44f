"""Core of the conformance harness.

TLC enumerates behaviours of a specification in /verif/spec and prints every
complete behaviour as one JSON line; each behaviour (calls with arguments and
the observations the specification requires) is replayed against the real
`opinf` package imported from /repo/src, and every disagreement is a violation
that names the clause.  See /verif/DESIGN.md.
"""
import os, sys, re, json, time, shutil, signal, subprocess, tempfile, traceback, collections
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = os.path.join(SPEC, "java") + ":/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def seed_of(x):
    """a number from a JSON value, the same in every run"""
    import zlib
    return zlib.crc32(json.dumps(x, sort_keys=True).encode())


class MachineryError(Exception):
    pass


# --------------------------------------------------------------------- TLC --
class Raw(str):
    """a TLA+ expression"""


def tla(v):
    """Python value -> TLA+ literal for a cfg file."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


class Run:
    """One TLC run: a module, constants, invariants; exhaustive or simulated."""

    def __init__(self, module, consts, invariants=(), replay=None, simulate=None, depth=None,
                 seed=1, name=None, workers=8, heap="6g", spec="Spec", ctx=None, post=None, timeout=800,
                 check_only=False, properties=()):
        self.module, self.consts, self.invariants = module, consts, list(invariants)
        self.replay, self.simulate, self.depth, self.seed = replay, simulate, depth, seed
        self.name = name or module
        self.workers, self.heap, self.spec = workers, heap, spec
        self.ctx = ctx or {}
        self.timeout = timeout
        self.check_only = check_only
        self.properties = list(properties)
        self.stats = {}

    def start(self, scratch):
        d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(SPEC, "Num.tla")) as f, open(os.path.join(d, "NumDef.tla"), "w") as g:
            g.write(f.read().replace("MODULE Num ", "MODULE NumDef ", 1))
        # tuples are not allowed as cfg constants: define them in a wrapper module
        mod = "MC_" + self.module
        lines = ["SPECIFICATION %s" % self.spec]
        defs = []
        for k, v in self.consts.items():
            defs.append("def_%s == %s" % (k, tla(v)))
            lines.append("CONSTANT %s <- def_%s" % (k, k))
        if not self.check_only:
            self.invariants = [i for i in self.invariants if i != "Emit"] + ["Emit"]
        for i in self.invariants:
            lines.append("INVARIANT %s" % i)
        for i in self.properties:
            lines.append("PROPERTY %s" % i)
        lines.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(d, mod + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mod, self.module, "\n".join(defs)))
        with open(os.path.join(d, mod + ".cfg"), "w") as f:
            f.write("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + self.heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-fp", "1",
               "-workers", str(self.workers), "-config", mod + ".cfg"]
        if self.simulate:
            cmd += ["-simulate", "num=%d" % self.simulate, "-depth", str(self.depth or 50), "-seed", str(self.seed)]
        cmd += [mod + ".tla"]
        self.dir = d
        self.cmd = cmd
        self.t0 = time.time()
        self.proc = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                     errors="replace")
        return self

    def lines(self):
        """Yield emitted behaviours; collect TLC's own statistics."""
        other = []
        timer = None
        if self.timeout:
            import threading
            timer = threading.Timer(self.timeout, self.proc.kill)
            timer.daemon = True
            timer.start()
        n = 0
        seen = set()
        for line in self.proc.stdout:
            if line.startswith('"B@'):
                if self.simulate:
                    # parallel simulation may emit the same behaviour twice
                    h = hash(line)
                    if h in seen:
                        continue
                    seen.add(h)
                n += 1
                yield line
            else:
                if len(other) < 2000:
                    other.append(line.rstrip("\n"))
                if line.startswith("Error: TLC threw"):      # TLC may hang after an internal error
                    import threading
                    k = threading.Timer(5, self.proc.kill)
                    k.daemon = True
                    k.start()
        rc = self.proc.wait()
        if timer:
            timer.cancel()
        text = "\n".join(other)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            self.stats = dict(generated=int(m.group(1)), distinct=int(m.group(2)))
        else:
            m = re.findall(r"(\d+) states checked, (\d+) traces generated", text) or \
                re.findall(r"The number of states generated: (\d+)", text)
            if m:
                last = m[-1]
                g = int(last[0]) if isinstance(last, tuple) else int(last)
                self.stats = dict(generated=g, distinct=g)
            else:
                self.stats = dict(generated=0, distinct=0)
        self.stats["behaviours"] = n
        self.stats["seconds"] = round(time.time() - self.t0, 2)
        self.text = text
        if rc != 0:
            shown = [l for l in other if not re.match(r"(Parsing|Semantic|Linting|Computed|Loading|public static tlc2|Attempted to apply|but it produced)", l)]
            raise MachineryError("TLC failed (rc=%s) on %s:\n%s" % (rc, self.module, "\n".join(shown[-60:])))


def parse_line(line):
    s = json.loads(line)            # TLA+ string literal
    return json.loads(s[2:])        # drop "B@"


# ------------------------------------------------------------------ replay --
class Mismatch:
    __slots__ = ("key", "detail")

    def __init__(self, key, detail=""):
        self.key, self.detail = key, str(detail)[:1500]


class Rec:
    """Collects mismatches and coverage counters during one replay."""

    def __init__(self, only=None):
        self.bad = []
        self.n = collections.Counter()
        self.only = re.compile(only) if only else None

    def wants(self, clause):
        return self.only is None or self.only.match(clause) or re.match(r"exception|timeout|call\.", clause)

    def fail(self, key, detail=""):
        if self.wants(str(key)):
            self.bad.append((str(key), str(detail)[:1500]))

    def count(self, what, k=1):
        if self.wants(what):
            self.n[what] += k


class ReplayTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise ReplayTimeout()


_W = {}


def _winit(scratch, use_alarm):
    d = tempfile.mkdtemp(prefix="w_", dir=scratch)
    os.chdir(d)
    sys.stdout = open(os.devnull, "w")
    import warnings
    warnings.simplefilter("ignore")
    _W["dir"] = d
    _W["alarm"] = use_alarm


def _wrun(args):
    fn, ctx, chunk = args
    out = []
    counts = collections.Counter()
    for line in chunk:
        rec = Rec(ctx.get("only"))
        b = parse_line(line)
        try:
            if _W["alarm"]:
                signal.signal(signal.SIGALRM, _on_alarm)
                signal.setitimer(signal.ITIMER_REAL, 90)
            fn(b, rec, ctx)
        except ReplayTimeout:
            rec.fail("timeout", "the replay of one behaviour did not return within 90 s")
        except MachineryError:
            raise
        except Exception:
            tb = traceback.format_exc()
            last = traceback.extract_tb(sys.exc_info()[2])[-1]
            rec.fail("exception:%s:%s" % (type(sys.exc_info()[1]).__name__, last.name), tb[-1400:])
        finally:
            if _W["alarm"]:
                signal.setitimer(signal.ITIMER_REAL, 0)
        counts.update(rec.n)
        if rec.bad:
            out.append((line, rec.bad))
    return len(chunk), out, counts


def scratch_dir():
    return tempfile.mkdtemp(prefix="vp_")


class Check:
    """Runs the TLC runs of one property, replays, reports, writes evidence."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.runs, self.fail, self.counts = [], {}, collections.Counter()
        self.samples = []
        self.traces = 0
        self.extra = {}
        self.t0 = time.time()
        self.scratch = scratch_dir()

    # -- direct (non TLC-line) contributions -------------------------------
    def add_failure(self, key, detail, payload=None):
        self.fail.setdefault(key, dict(count=0, detail=detail, line=json.dumps(payload) if payload is not None else None,
                                       run=None))
        self.fail[key]["count"] += 1

    def execute(self, runs, procs=8, use_alarm=True, chunk=8):
        ctxm = mp.get_context("fork")
        for run in runs:
            self.runs.append(run)
            run.start(self.scratch)
            if run.check_only:
                for _ in run.lines():
                    pass
                continue
            pool = ctxm.Pool(procs, initializer=_winit, initargs=(self.scratch, use_alarm))
            try:
                def chunks():
                    buf = []
                    for line in run.lines():
                        if len(self.samples) < 2 or (run.stats.get("s") is None and len(self.samples) < 6):
                            run.stats["s"] = 1
                            self.samples.append(line)
                        buf.append(line)
                        if len(buf) >= chunk:
                            yield (run.replay, run.ctx, buf)
                            buf = []
                    if buf:
                        yield (run.replay, run.ctx, buf)
                for n, bad, counts in pool.imap_unordered(_wrun, chunks()):
                    self.traces += n
                    self.counts.update(counts)
                    for line, ms in bad:
                        for key, detail in ms:
                            e = self.fail.setdefault(key, dict(count=0, detail=detail, line=line, run=run.name))
                            e["count"] += 1
                            if e["line"] is not None and len(line) < len(e["line"]):
                                e["line"], e["detail"] = line, detail
                pool.close()
                pool.join()
            finally:
                pool.terminate()
                if run.proc.poll() is None:
                    run.proc.kill()
            if run.stats.get("behaviours", 0) == 0:
                raise MachineryError("run %s of %s produced no behaviours" % (run.name, self.pid))

    def finish(self, level="model_checking", assumptions=()):
        known = load_known(self.pid)
        new, old = {}, {}
        for key, e in self.fail.items():
            hit = [k for k in known if re.fullmatch(k["key"], key)]
            (old if hit else new)[key] = (e, hit)
        rc = 0
        reported = set()
        for key, (e, hit) in old.items():
            for k in hit:
                if k["key"] not in reported:
                    reported.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rdir = os.path.join(VERIF, "replays")
        shown = 0
        for key, (e, _) in sorted(new.items(), key=lambda kv: (-kv[1][0]["count"], kv[0])):
            rc = 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s_%d.json" % (self.pid, shown))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, key=key, count=e["count"], detail=e["detail"], run=e["run"],
                               tier=self.tier, seed=self.seed,
                               behaviour=(parse_line(e["line"]) if e["line"] and e["line"].startswith('"B@')
                                          else e["line"])), f, indent=1)
            print("VIOLATION property=%s replay=%s clause=%s count=%d" % (self.pid, path, re.sub(r"\s+", "_", key), e["count"]))
            print("   " + e["detail"].strip().replace("\n", "\n   ")[:1200])
            shown += 1
            if shown >= int(os.environ.get("VP_SHOW", "6")):
                break
        states = sum(r.stats.get("distinct", 0) for r in self.runs)
        gen = sum(r.stats.get("generated", 0) for r in self.runs)
        samples = []
        for line in self.samples[:4]:
            s = json.dumps(parse_line(line)) if line.startswith('"B@') else line
            samples.append(s if len(s) < 1500 else s[:1500] + " ...(truncated)")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=states, transitions=gen, traces_validated_against_impl=self.traces,
                                samples=samples or ["(none)"],
                                runs=[dict(spec=r.module, name=r.name, constants={k: repr(v) for k, v in r.consts.items()},
                                           simulate=r.simulate, **{k: v for k, v in r.stats.items() if k != "s"})
                                      for r in self.runs],
                                clauses_compared=dict(sorted(self.counts.items())), **self.extra),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d states, %d transitions, %d behaviours replayed, %d clause comparisons, %d new / %d known failures, %.1f s"
              % (self.pid, self.tier, states, gen, self.traces, sum(self.counts.values()), len(new), len(old),
                 time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]
