"""Timed blocks (spec/TimerMC.tla): C27.

The module under test is loaded from /repo with stand-ins for `time` and `signal` in which time passes only when the
behaviour says so; the alarm strikes inside the body, as a signal does.  A few behaviours run with the real ones."""
import importlib.util
import io
import logging
import os
import re
import signal as real_signal
import sys
import time as real_time
import types
import vp
from vp import Run
from num import V

PATH = os.path.join(vp.REPO, "src", "opinf", "utils", "_timer.py")


class World:
    """a clock and one alarm"""

    def __init__(self):
        self.wall, self.cpu, self.deadline = 1000.0, 5.0, None
        self.handlers = {}
        self.sleeps = 0

    def advance(self, d, cpu):
        end = self.wall + d
        while self.deadline is not None and self.deadline <= end + 1e-9:
            if cpu:
                self.cpu += self.deadline - self.wall
            self.wall = max(self.wall, self.deadline)
            self.deadline = None
            f = self.handlers.get(real_signal.SIGALRM, real_signal.SIG_DFL)
            if callable(f):
                f(real_signal.SIGALRM, sys._getframe())
            elif f != real_signal.SIG_IGN:
                raise SystemExit("killed by SIGALRM")
        if cpu:
            self.cpu += end - self.wall
        self.wall = max(self.wall, end)

    # ---- stand-ins
    def time_module(self):
        m = types.ModuleType("time")
        m.__dict__.update({k: getattr(real_time, k) for k in dir(real_time) if not k.startswith("__")})
        for n in ("time", "perf_counter", "monotonic"):
            setattr(m, n, lambda: self.wall)
            setattr(m, n + "_ns", lambda: round(self.wall * 1e9))
        for n in ("process_time", "thread_time"):
            setattr(m, n, lambda: self.cpu)
            setattr(m, n + "_ns", lambda: round(self.cpu * 1e9))
        m.sleep = lambda d: self.advance(d, False)
        return m

    def signal_module(self):
        m = types.ModuleType("signal")
        m.__dict__.update({k: getattr(real_signal, k) for k in dir(real_signal) if not k.startswith("__")})

        def left():
            return 0.0 if self.deadline is None else max(self.deadline - self.wall, 0.0)

        def setitimer(which, seconds, interval=0.0):
            old = left()
            self.deadline = None if seconds == 0 else self.wall + seconds
            return (old, 0.0)

        def alarm(seconds):
            old = left()
            self.deadline = None if int(seconds) == 0 else self.wall + int(seconds)
            return int(-(-old // 1))

        def sig(num, handler):
            old = self.handlers.get(num, real_signal.SIG_DFL)
            self.handlers[num] = handler
            return old
        m.setitimer, m.alarm, m.signal = setitimer, alarm, sig
        m.getitimer = lambda which: (left(), 0.0)
        m.getsignal = lambda num: self.handlers.get(num, real_signal.SIG_DFL)
        return m


def load(world):
    """the module, with the stand-ins"""
    keep = sys.modules["time"], sys.modules["signal"]
    sys.modules["time"], sys.modules["signal"] = world.time_module(), world.signal_module()
    try:
        spec = importlib.util.spec_from_file_location("timer_under_test", PATH)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        sys.modules["time"], sys.modules["signal"] = keep
    return mod.TimedBlock


class Own(Exception):
    pass


class Mark(BaseException):
    """ends the walk through the blocks"""


def limit_of(l, i):
    if l == 0:
        return None
    return (l, float(l), l + 0.7)[i % 3] if l > 1 else (1, 1.0, 1.9, 0.3)[i % 4]


def message(i):
    return "block %d" % i


def replay_timer(b, rec, ctx):
    v = V(rec, "depth%d" % max([e["level"] for e in b["hist"]] + [0]))
    w = World()
    T = load(w)
    cfg, hist = b["cfg"], b["hist"]
    T.verbose = cfg["verbose"]

    def mine(*a):
        raise AssertionError("the program's own handler was called")
    initial = dict(default=real_signal.SIG_DFL, user=mine, ignore=real_signal.SIG_IGN)[cfg["handler"]]
    if cfg["handler"] != "default":
        w.handlers[real_signal.SIGALRM] = initial
    logger = logging.getLogger()
    logs = io.StringIO()
    lh = logging.StreamHandler(logs)
    lh.setFormatter(T.formatter)
    oldlevel, oldhandlers = logger.level, list(logger.handlers)
    for x in oldhandlers:
        logger.removeHandler(x)
    logger.addHandler(lh)
    logger.setLevel(logging.INFO)
    stdout, out = sys.stdout, io.StringIO()
    sys.stdout = out
    try:
        run(T, w, cfg, hist, v, out, initial, logs)
    finally:
        sys.stdout = stdout
        logger.removeHandler(lh)
        for x in oldhandlers:
            logger.addHandler(x)
        logger.setLevel(oldlevel)


def run(T, w, cfg, hist, v, out, initial, logs):
    enters = [e for e in hist if e["a"] == "enter"]
    blocks = {}
    t0 = w.wall

    def make(i):
        e = enters[i - 1]
        return T(message(i), timelimit=limit_of(e["x"], i)) if e["x"] or i % 2 else T(message(i))
    if cfg["early"]:
        for i in range(1, len(enters) + 1):
            blocks[i] = make(i)
    text = []          # what must appear in the output, None where errors are reported in free form
    logged = []
    pos = [0]
    nid = [0]
    problems = []

    def body(level):
        """run the events of this block until it is left; returns when the block ends normally"""
        while pos[0] < len(hist):
            e = hist[pos[0]]
            a = e["a"]
            v.rec.count("call." + a)
            if a == "enter":
                pos[0] += 1
                nid[0] += 1
                i = nid[0]
                T.rebuffer = bool(e["y"])
                blk = blocks.get(i) or make(i)
                blocks[i] = blk
                if cfg["verbose"]:
                    text.append(message(i) + "...")
                err = None
                try:
                    with blk as got:
                        v.true("enter.self", got is blk)
                        body(level + 1)
                except Exception as ex:
                    err = ex
                done = hist[pos[0]]
                if err is None:
                    if done["a"] != "exit":
                        raise Mark("block %d ended without the error required by %s" % (i, done))
                    el = done["closed"][0]["elapsed"] / 10
                    v.eq("elapsed", blk.elapsed, el)
                    if cfg["verbose"]:
                        text.append("done in %.2f s.\n" % el)
                    logged.append("%s...done in %.6f s." % (message(i), el))
                    pos[0] += 1
                else:
                    check_error(v, e, done, i, err, blk)
                    text.append(None)
                    if done["level"] < level:
                        raise err          # the program catches it further out
                    pos[0] += 1
            elif a in ("sleep", "work"):
                if e["exc"] != "none" and not hit[0] == pos[0]:
                    hit[0] = pos[0]
                    w.advance(e["x"] / 10, a == "work")
                    raise Mark("%s of %.1f s was not interrupted: %s" % (a, e["x"] / 10, e))
                w.advance(e["x"] / 10, a == "work")
                pos[0] += 1
            elif a == "raise":
                own[0] = (Own("boom"), ValueError("bad value"), TimeoutError("program"))[e["x"] - 1]
                raise own[0]
            elif a == "say":
                print("saying %d" % pos[0])
                text.append("saying %d\n" % pos[0])
                pos[0] += 1
            elif a == "exit":
                return
        return

    own, hit = [None], [-1]

    def check_error(v, e, done, i, err, blk):
        c = [x for x in done["closed"] if x["id"] == i]
        if not v.true("error.expected", bool(c), "block %d raised %r although nothing of the kind happened (%s)" % (i, err, done)):
            raise Mark("unexpected error")
        c = c[0]
        expired = [x["id"] for x in done["closed"] if x["how"] == "expired"]
        v.eq("elapsed.error", w.wall - t0, done["at"] / 10, rtol=1e-9, atol=1e-6)
        if done["exc"] == "program":
            v.true("error.unchanged", err is own[0], "%r instead of %r" % (err, own[0]))
        elif c["how"] == "expired":
            v.true("limit.error", isinstance(err, TimeoutError) and str(err).startswith("TIMED OUT after %.2f" % (c["elapsed"] / 10)), repr(err))
            limits[i] = err
        elif expired and expired[0] > i:       # an inner block has turned it into its own error already
            v.true("error.unchanged", err is limits.get(expired[0]), "%r instead of %r" % (err, limits.get(expired[0])))
        else:
            v.true("limit.through", isinstance(err, TimeoutError), repr(err))
        if c["how"] != "expired":
            v.true("limit.message", done["exc"] == "program" or expired[0] > i or "TIMED OUT" not in str(err),
                   "block %d reports an enclosing block's limit as its own: %r" % (i, err))
        v.true("elapsed", blk.elapsed is not None and abs(blk.elapsed - c["elapsed"] / 10) < 1e-6, "elapsed %r after an error, required %s" % (blk.elapsed, c["elapsed"] / 10))

    limits = {}
    try:
        body(0)
    except Mark as ex:
        v.true("limit.strikes", False, str(ex))
        return
    except SystemExit as ex:
        v.true("alarm.stray", False, str(ex))
        return
    except Exception as ex:
        v.true("error.escaped", False, "%r escaped: %s" % (ex, hist))
        return
    v.true("after.stdout", sys.stdout is out, "sys.stdout is %r" % sys.stdout)
    v.true("after.alarm", w.deadline is None, "an alarm is pending in %s s" % (None if w.deadline is None else w.deadline - w.wall))
    v.true("after.handler", w.handlers.get(real_signal.SIGALRM, real_signal.SIG_DFL) is initial or w.handlers.get(real_signal.SIGALRM, real_signal.SIG_DFL) == initial,
           "handler %r, was %r" % (w.handlers.get(real_signal.SIGALRM), initial))
    pat = "".join(".*" if x is None else re.escape(x) for x in text)
    v.true("report", re.fullmatch(pat, out.getvalue(), re.S) is not None, "printed\n%s\nrequired\n%s" % (out.getvalue(), text))
    for x in logged:
        v.true("log", logs.getvalue().count(x) == 1, "%s\nnot (or more than once) in\n%s" % (x, logs.getvalue()))


# ------------------------------------------------------------- the real thing
def replay_real(b, rec, ctx):
    """the same, with real time: only behaviours in which nothing is close"""
    if b["cfg"] != dict(handler="user", verbose=False, early=False) or "exit" not in [e["a"] for e in b["hist"]]:
        return
    logging.getLogger().addHandler(logging.NullHandler())
    import opinf
    T = opinf.utils.TimedBlock
    v = V(rec, "real")
    saved = real_signal.getsignal(real_signal.SIGALRM), real_signal.setitimer(real_signal.ITIMER_REAL, 0)
    T.verbose = False

    def mine(*a):
        raise AssertionError("own handler called")
    real_signal.signal(real_signal.SIGALRM, mine)
    try:
        for e in b["hist"]:
            v.rec.count("call.real")
        blk = T("real", timelimit=60)
        with blk:
            real_time.sleep(0.2)
        v.true("real.elapsed", 0.19 <= blk.elapsed <= 20, "elapsed %s for a body of 0.2 s" % blk.elapsed)
        tic = real_time.monotonic()
        try:
            with T("outer", timelimit=50):
                with T("inner", timelimit=1):
                    real_time.sleep(20)
            v.true("real.limit", False, "no error")
        except TimeoutError as ex:
            v.true("real.limit", str(ex).startswith("TIMED OUT") and real_time.monotonic() - tic < 18, repr(ex))
        tic = real_time.monotonic()
        try:
            with T("outer", timelimit=1):
                with T("inner", timelimit=50):
                    pass
                real_time.sleep(20)
            v.true("real.outer", False, "the enclosing limit was lost")
        except TimeoutError as ex:
            v.true("real.outer", str(ex).startswith("TIMED OUT") and real_time.monotonic() - tic < 18, repr(ex))
        v.true("real.after.alarm", real_signal.getitimer(real_signal.ITIMER_REAL)[0] == 0)
        v.true("real.after.handler", real_signal.getsignal(real_signal.SIGALRM) is mine)
    finally:
        real_signal.setitimer(real_signal.ITIMER_REAL, 0)
        real_signal.signal(real_signal.SIGALRM, saved[0])
        T.verbose = True


def replay_logfiles(b, rec, ctx):
    pass


def c27(chk):
    q = chk.tier == "quick"
    base = dict(Limits={0, 1, 2, 3}, Durations={3, 7, 12, 25}, MaxDepth=3)
    inv, props = ["InTime"], ["Exact", "Nested"]
    chk.execute([
        Run("TimerMC", dict(base, MaxLen=4, Stride=3 if q else 1), inv, replay_timer, name="short", properties=props),
        Run("TimerMC", dict(base, MaxLen=6, Stride=9 if q else 5), inv, replay_timer, name="nested", properties=props),
        Run("TimerMC", dict(base, MaxLen=9, Stride=7 if q else 5), inv, replay_timer, name="long", properties=props),
    ])
    chk.execute([Run("TimerMC", dict(Limits={1}, Durations={3}, MaxDepth=1, MaxLen=1, Stride=1), inv, replay_real, name="real", properties=props)],
                use_alarm=False, chunk=100)
    return ["virtual time except for one real-time scenario; ties of two deadlines at one instant are not explored"]


CHECKS = dict(C27=c27)
