"""Regularisation selection (spec/SelectMC.tla, GridMC.tla): C21."""
import contextlib
import io
import warnings
import numpy as np
import opinf
from vp import Run
import vp
from num import V, rat, ints, close, why

L, M, O = opinf.lstsq, opinf.models, opinf.operators
T0, NONE = 2.0, [-1, 1]


class Case:
    """one round of selection"""

    def __init__(self, b, rd, rec):
        c = self.c = b["cfg"]
        self.b = rd
        self.disc = c["kind"] == "disc"
        self.r, self.k, self.T = rd["r"], rd["k"], rd["horizon"]
        self.s = c["s"]
        self.Q = [ints(D) for D in rd["data"]]
        self.rng = np.random.default_rng(vp.seed_of([c["seed"], rd["exps"], rd["r"]]))
        self.Z = [self.rng.integers(-4, 5, Q.shape).astype(float) for Q in self.Q]
        self.lams = [2.0 ** e for e in rd["exps"]]
        self.dt = 0.5
        self.t = T0 + self.dt * np.arange(self.k)


def make_model(kind, disc, ops, solver, n):
    if kind in ("rom", "bayes"):
        cls = M.DiscreteModel if disc else M.ContinuousModel
        return cls, (lambda s: cls([op() for op in ops], solver=s))
    if kind == "affine":
        cls = M.ParametricDiscreteModel if disc else M.ParametricContinuousModel
        first = {O.LinearOperator: O.AffineLinearOperator, O.ConstantOperator: O.AffineConstantOperator}
        return cls, (lambda s: cls([O.AffineLinearOperator(lambda mu: [1.0, float(np.atleast_1d(mu)[0])], nterms=2)] +
                                   [op() for op in ops if op is not O.LinearOperator], solver=s))
    cls = M.InterpDiscreteModel if disc else M.InterpContinuousModel
    names = {O.LinearOperator: O.InterpLinearOperator, O.ConstantOperator: O.InterpConstantOperator, O.InputOperator: O.InterpInputOperator}
    return cls, (lambda s: cls([names[op]() for op in ops], solver=s))


def sig(model):
    return np.concatenate([np.ravel(np.asarray(op.entries, dtype=float)) for op in model.operators])


class Setup:
    def __init__(self, b, kind, h):
        c = b["cfg"]
        self.kind, self.disc, self.h = kind, c["kind"] == "disc", h
        self.m = 2 if h % 3 == 0 else 0
        self.ops = [O.LinearOperator] + ([O.ConstantOperator] if h % 5 == 1 else []) + ([O.InputOperator] if self.m else [])
        self.form = ["l2", "l2d", "tik", "tikd", "l2f"][(h // 3) % 5]
        self.cls, self.make = make_model(kind, self.disc, self.ops, None, c["s"])
        setup = self

        class Scripted(self.cls):
            """follows the specification's scripts instead of integrating"""

            def predict(self, *a, **k):
                return setup.predict(self, *a, **k)
        self.Scripted = Scripted
        Scripted.__name__ = self.cls.__name__
        self.parametric = kind in ("affine", "interp")

    def solver(self, reg=None):
        if self.form in ("l2", "l2f"):
            return L.L2Solver(reg)
        if self.form == "l2d":
            return L.L2DecoupledSolver(reg)
        if self.form == "tik":
            return L.TikhonovSolver(reg)
        return L.TikhonovDecoupledSolver(reg)

    def scripted(self):
        m = self.make(self.solver())
        m.__class__ = self.Scripted
        return m

    def width(self, r):
        d = r * (2 if self.kind == "affine" else 1) + self.m
        if O.ConstantOperator in self.ops:
            d += 1
        return d

    def candidate(self, lam):
        """the hyperparameters standing for regularisation strength lam"""
        return [lam, 3 * lam] if self.form in ("tik", "tikd") else lam

    def factory(self, r):
        d = self.width(r)
        if self.form == "l2":
            return None
        if self.form == "l2f":
            return lambda x: 2 * x
        if self.form == "l2d":
            return lambda x: np.array([x * (1 + 0.5 * i) for i in range(r)])
        if self.form == "tik":
            return lambda x: np.array([x[i % 2] for i in range(d)])
        return lambda x: [np.array([x[(i + j) % 2] for i in range(d)]) for j in range(r)]

    def full(self, X):
        """full states: the reduced coordinates among others"""
        X = np.asarray(X, dtype=float)
        if not self.basis(X.shape[0]):
            return X
        junk = np.full((1,) + X.shape[1:], 7.0)
        return np.concatenate([X[1:], junk, X[:1]])

    def basis(self, r):
        return self.h % 2 == 1 and r == 2

    def V(self, r):
        Vr = np.zeros((r + 1, r))
        Vr[r, 0] = 1
        for i in range(1, r):
            Vr[i - 1, i] = 1
        return Vr

    def rom(self, r):
        kw = dict(basis=opinf.basis.LinearBasis(self.V(r))) if self.basis(r) else {}
        cls = dict(rom=opinf.ROM, bayes=opinf.roms.BayesianROM).get(self.kind, opinf.roms.ParametricROM)
        return cls(self.scripted(), **kw)

    # --- what the scripted model answers
    def begin(self, case, table):
        self.case, self.table, self.problems, self.seen, self.refined = case, table, [], set(), 0

    def index(self, model):
        """which candidate's operators the model has now (the nearest)"""
        x = sig(model)
        dist = [np.linalg.norm(x - y) if x.shape == y.shape else np.inf for y in self.table]
        i = int(np.argmin(dist))
        if dist[i] > 1e-7 * (1 + np.linalg.norm(x)):
            self.refined += 1
        self.seen.add(i)
        return i

    def predict(self, model, *a, **k):
        x = self.index(model)
        a = list(a)
        mu = a.pop(0) if self.parametric else k.pop("parameter", None)
        q0 = np.asarray(a.pop(0))
        grid = a.pop(0)
        u = a.pop(0) if a else (k.get("inputs") if self.disc else k.get("input_func"))
        case = self.case
        if not self.disc and (k.get("method") != "BDF" or k.get("rtol") != 1e-3):
            self.problems.append("integrator options %s not passed on" % k)
        key = round(float(q0[0]))
        if key >= 20:
            return self.test(x, key - 21, q0, grid, u, mu)
        ell = key - 5
        if not (0 <= ell < case.s) or not close(q0, case.Q[ell][:, 0]):
            self.problems.append("initial condition %s of no training trajectory" % q0)
            ell = 0
        self.arguments("trajectory %d" % ell, mu, self.mu(ell), u, self.inputs_for(ell), grid)
        sc = case.b["scripts"][x][ell]
        Q = case.Q[ell]
        if self.disc:
            n = int(grid)
            P = np.column_stack([Q[:, min(j, case.k - 1)] for j in range(n)])
            off = np.arange(n) - (case.k - 1)              # iterations after the training data
            hit = off == sc["tp"]
        else:
            t = np.asarray(grid)
            pos = (t - case.t[-1]) / case.dt * 4           # quarters of a step after the training data
            near = [int(np.argmin(np.abs(case.t - x))) for x in t]
            if not all(p > 1e-6 or abs(case.t[j] - x) < 1e-9 for p, j, x in zip(pos, near, t)):
                self.problems.append("times %s outside the training times" % t)
            P = np.column_stack([Q[:, j] for j in near])
            off = pos
            hit = pos >= sc["tp"] - 1e-9
            n = t.size
        i = sc["i"] - 1
        if sc["d"] and sc["p"] <= n:
            P[i, sc["p"] - 1] += sc["d"]
        if sc["td"]:
            P[i, hit & (off > 1e-9)] += sc["td"]
        if sc["bad"]:
            if sc["bin"] == "train":
                j = sc["bp"] - 1
            else:
                w = np.flatnonzero(off >= sc["bp"] - 1e-9)
                j = w[0] if w.size else n
            if sc["bad"] == "short":
                P = P[:, :j]
            elif j < n:
                P[i, j] = np.nan if sc["bad"] == "nan" else np.inf
        return P

    def test(self, x, q, q0, grid, u, mu):
        case = self.case
        tc = case.b["tests"][q]
        sc = tc["scripts"][x]
        if not close(q0, ints(tc["ic"])):
            self.problems.append("initial condition %s of no test case" % q0)
        self.arguments("test case %d" % q, mu, self.mu(q, 1), u, self.inputs_for(q, True), grid)
        n = int(grid) if self.disc else np.asarray(grid).size
        if n != tc["len"]:
            self.problems.append("test case of length %d run for %d" % (tc["len"], n))
        P = np.column_stack([np.asarray(q0, dtype=float)] * n)
        j = sc["p"] - 1
        if sc["bad"] == "short":
            return P[:, :j]
        if sc["bad"]:
            P[sc["i"] - 1, j] = np.nan if sc["bad"] == "nan" else np.inf
        elif sc["d"]:
            P[sc["i"] - 1, j:(j + 1)] += sc["d"]
        return P

    def mu(self, ell, test=0):
        if not self.parametric:
            return None
        x = [1.0, 3.0, 2.0][ell % 3] + 0.25 * test
        return np.array([x]) if self.kind == "affine" and self.h % 4 >= 2 else x

    def inputs_for(self, i, test=False):
        if not self.m:
            return None
        if not self.disc:
            return lambda t, i=i, test=test: np.array([1.0 + i, np.cos(3 * t) * (2 if test else 1)])
        case = self.case
        n = case.b["tests"][i]["len"] if test else case.k + case.T + (self.h % 2)
        return np.random.default_rng(31 * i + 7 * test + n).integers(-2, 3, (2, n)).astype(float)

    def arguments(self, what, mu, mu1, u, u1, grid):
        bad = []
        if (mu is None) != (mu1 is None) or mu is not None and not close(mu, mu1):
            bad.append("parameter %s instead of %s" % (mu, mu1))
        if (u is None) != (u1 is None):
            bad.append("inputs %s" % u)
        elif u is not None and not self.disc:
            if not close(u(1.75), u1(1.75)):
                bad.append("another input function")
        elif u is not None:
            n = int(grid) - 1
            if np.shape(u)[-1] < n or not close(np.asarray(u)[:, :n], u1[:, :n]):
                bad.append("inputs %s instead of %s" % (u, u1))
        if bad:
            self.problems.append(what + ": " + "; ".join(bad))


def call(S, case, rom, how, refine):
    """the arguments of the selection, in one of the ways they can be given"""
    r, b = case.r, case.b
    cands = [S.candidate(x) for x in case.lams]
    if how % 3 == 1:
        cands = np.array(cands)
    elif how % 3 == 2 and np.ndim(cands[0]) == 0:
        cands = [[x] for x in cands]
    if len(case.lams) == 1 and np.ndim(cands[0]) == 0 and how % 2:
        cands = cands[0]
    kw = dict(candidates=cands, regularizer_factory=S.factory(r), gridsearch_only=not refine,
              stability_margin=case.c["margin"][0] / case.c["margin"][1])
    if how % 5 < 2:
        kw["verbose"] = how % 5 == 1
    states = [S.full(Q) for Q in case.Q]
    single = case.s == 1 and how % 2 and not S.parametric
    tests = []
    for q, tc in enumerate(b["tests"]):
        bound = tc["bound"] or None
        ic = S.full(ints(tc["ic"]))
        if S.disc:
            tests.append(opinf.utils.DiscreteRegTest(ic, tc["len"], parameters=S.mu(q, 1), inputs=S.inputs_for(q, True), bound=bound))
        else:
            tests.append(opinf.utils.ContinuousRegTest(ic, np.linspace(0, 1, tc["len"]), parameters=S.mu(q, 1), input_function=S.inputs_for(q, True), bound=bound))
    if tests or how % 2:
        kw["test_cases"] = tests[0] if len(tests) == 1 and how % 2 else tests
    if S.parametric:
        kw["parameters"] = [S.mu(i) for i in range(case.s)]
    kw["states"] = states[0] if single else states
    if S.disc:
        kw["num_test_iters"] = case.T
        if S.m:
            U = [S.inputs_for(i) for i in range(case.s)]
            kw["inputs"] = U[0] if single else U
        return rom.fit_regselect_discrete(**kw)
    kw["train_time_domains"] = case.t if single or how % 3 == 0 else [case.t] * case.s
    Z = [S.ddts(Zi) for Zi in case.Z]
    kw["ddts"] = Z[0] if single else Z
    kw["test_time_length"] = case.T * case.dt / 4
    if S.m:
        same = case.s == 1
        kw["input_functions"] = S.inputs_for(0) if same and how % 2 else [S.inputs_for(i) for i in range(case.s)]
    return rom.fit_regselect_continuous(method="BDF", rtol=1e-3, **kw)


def fresh(S, case, reg):
    """operators inferred from the data with one regulariser"""
    m = S.make(S.solver(reg))
    U = [S.inputs_for(i) for i in range(case.s)] if S.m else None
    if S.disc:
        X, Y = [Q[:, :-1] for Q in case.Q], [Q[:, 1:] for Q in case.Q]
        U = U and [u[:, :Q.shape[1]] for u, Q in zip(U, X)]
    else:
        X, Y = case.Q, case.Z
        U = U and [np.column_stack([f(x) for x in case.t]) for f in U]
    if S.parametric:
        m.fit([S.mu(i) for i in range(case.s)], X, Y, U)
    else:
        m.fit(np.hstack(X), np.hstack(Y), np.hstack(U) if U else None)
    return m


def replay_select(b, rec, ctx):
    c = b["cfg"]
    h0 = vp.seed_of([c, b["rounds"][0]["exps"]]) & 0xffff
    kinds = ["rom", "rom", "bayes"] + (["affine", "interp"] if c["s"] > 1 else [])
    kind = kinds[h0 % len(kinds)]
    S = Setup(b, kind, h0 // 7)
    v = V(rec, "%s.%s.%s.s%d" % (c["kind"], kind, S.form, c["s"]))
    rec.count("kind." + kind)
    S.ddts = lambda Z: np.concatenate([Z[1:], np.full((1, Z.shape[1]), 5.0), Z[:1]]) if S.basis(Z.shape[0]) else Z
    rom = None
    keep = opinf.roms.OperatorPosterior.rvs
    if kind == "bayes":
        opinf.roms.OperatorPosterior.rvs = lambda self: np.array(self.means)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            for i, rd in enumerate(b["rounds"]):
                case = Case(b, rd, rec)
                if rom is None:
                    rom = S.rom(case.r)
                elif S.basis(b["rounds"][i - 1]["r"]):
                    rom = S.rom(case.r)                      # its basis fits the earlier dimension only
                one_round(S, case, rom, v, rec, h0 + i)
    finally:
        opinf.roms.OperatorPosterior.rvs = keep


def one_round(S, case, rom, v, rec, how):
    rd = case.b
    refine = how % 4 == 0
    S.begin(case, None)
    fac = S.factory(case.r) or (lambda x: x)
    regs = [fac(S.candidate(x)) for x in case.lams]
    models = [fresh(S, case, g) for g in regs]
    if S.kind == "bayes":
        try:
            for m in models:
                opinf.roms.OperatorPosterior(*m.solver.posterior())
        except (RuntimeError, np.linalg.LinAlgError):       # a residual is zero: no posterior
            return rec.count("skipped.deterministic")
    S.begin(case, [sig(m) for m in models])
    for i in range(len(models)):
        for j in range(i):
            if np.linalg.norm(S.table[i] - S.table[j]) < 1e-5 * (1 + np.linalg.norm(S.table[i])):
                return rec.count("skipped.indistinguishable")
    errs = [None if e == NONE else float(rat(e)) for e in rd["errs"]]
    best = None if rd["best"] == NONE else float(rat(rd["best"]))
    if best is None:
        v.raises("none.acceptable", RuntimeError, lambda: call(S, case, rom, how, refine), "errors %s" % errs)
        v.true("arguments", not S.problems, "; ".join(S.problems[:3]))
        return
    ok, out = v.call("call.select", lambda: call(S, case, rom, how, refine))
    v.true("arguments", not S.problems, "; ".join(S.problems[:3]))
    if not ok:
        return
    v.true("returns.self", out is rom)
    v.true("all.tried", S.seen == set(range(len(errs))), "candidates %s of %d tried" % (sorted(S.seen), len(errs)))
    final = S.index(rom.model)
    # the regulariser in force and the operators belong together
    mdl = rom.model
    reg = (mdl.solvers[0] if S.kind == "interp" else mdl.solver).regularizer
    again = fresh(S, case, reg)
    v.eq("fitted", sig(mdl), sig(again), rtol=1e-6)
    if S.kind == "bayes":
        means, prec = again.solver.posterior()
        v.eq("posterior.mean", np.array(rom.posterior.means), np.array(means), rtol=1e-6)
        for C, P in zip(rom.posterior.covs, prec):
            v.eq("posterior.cov", C @ P, np.eye(P.shape[0]), rtol=1e-5, atol=1e-5)
    v.true("acceptable", errs[final] is not None, "selected a candidate that is not acceptable: %s of %s" % (final, errs))
    if errs[final] is None:
        return
    if refine:
        v.true("refined", errs[final] <= best + 1e-9, "error %s, best grid candidate %s" % (errs[final], best))
    else:
        v.true("best", abs(errs[final] - best) < 1e-9, "selected %s with error %s, least error %s of %s" % (final, errs[final], best, errs))
        v.true("candidate", np.linalg.norm(S.table[final] - sig(mdl)) <= 1e-6 * (1 + np.linalg.norm(sig(mdl))), "not one of the candidates")


# --------------------------------------------------------------- gridsearch()
def replay_grid(b, rec, ctx):
    c = b["cfg"]
    v = V(rec, "%s.%d%s" % (c["shape"], c["n"], ".refine" if c["refine"] else ""))
    exps, table = b["exps"], {e: x for e, x in zip(b["exps"], b["vals"])}
    calls = []

    def value(e):
        """e: exponent in quarters (real)"""
        if c["shape"] == "table":
            k = int(round(e / 4))
            x = table.get(4 * k, "inf") if abs(e - 4 * k) < 0.5 else "inf"
        else:
            x = (e - b["mid"]) ** 2 + b["floor"] if b["lo"] <= e + 1e-9 and e - 1e-9 <= b["hi"] else "inf"
        return dict(inf=np.inf, nan=np.nan).get(x, x) if isinstance(x, str) else float(x)

    def f(x):
        calls.append(np.array(x, dtype=float))
        e = 4 * np.log10(np.asarray(x, dtype=float))
        if e.ndim == 0:
            return value(float(e))
        if b["cfg"]["dim"] > 1:
            return value(float(e[0])) + abs(float(e[1] - e[0] - 4)) * 2
        raise AssertionError("one-parameter candidates are given as numbers")
    grid = [10.0 ** (e / 4) for e in exps]
    if c["dim"] > 1:
        grid = [np.array([g, 10 * g]) for g in grid]
    h = c["s"] + c["n"]
    arg = grid
    if c["dim"] == 1:
        arg = [grid, np.array(grid), np.array(grid).reshape(-1, 1)][h % 3]
        if len(grid) == 1 and h % 2:
            arg = grid[0]
    elif h % 2:
        arg = np.array(grid)
    kw = dict(gridsearch_only=True) if not c["refine"] else ({} if h % 2 else dict(gridsearch_only=False))
    if (h // 3) % 3 == 0:
        kw["verbose"] = True
    before = np.array(arg, copy=True)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        run = lambda: opinf.utils.gridsearch(f, arg, **kw)
        if b["best"] == "none":
            v.raises("grid.none", RuntimeError, run)
            return
        ok, x = v.call("call.grid", run)
    if not ok:
        return
    v.true("grid.argument", np.array_equal(before, np.asarray(arg)), "candidates modified")
    flat = np.array([np.atleast_1d(y) for y in calls])
    v.true("grid.all", all(np.any(np.all(np.isclose(flat, np.atleast_1d(g)), axis=1)) for g in grid), "not every candidate was tried: %s" % calls[:8])
    v.true("grid.type", np.ndim(x) == (0 if c["dim"] == 1 else 1), repr(x))
    fx = f(x)
    v.true("grid.least" if not c["refine"] else "grid.notworse", fx <= b["best"] + 1e-9, "f(%s) = %s, best candidate %s" % (x, fx, b["best"]))
    if not c["refine"]:
        v.true("grid.member", any(np.allclose(x, g, rtol=1e-12) for g in grid), "%s is no candidate" % x)
    elif b["inside"]:
        v.true("grid.optimum", abs(4 * np.log10(x) - b["mid"]) < 0.05, "refined to %s, optimum %s" % (4 * np.log10(x), b["mid"]))


def c21(chk):
    q = chk.tier == "quick"
    s0 = chk.seed * 500
    mg = vp.Raw("{<<1,1>>,<<3,2>>,<<5,1>>}")
    mg1 = vp.Raw("{<<1,1>>,<<5,2>>}")
    inv = ["Least", "NoBad"]
    seeds = lambda n: set(range(s0, s0 + n))
    chk.execute([
        Run("SelectMC", dict(Kinds={"disc", "cont"}, Trajs={1, 2}, Cands={1, 3, 6}, Seeds=seeds(20 if q else 200), Rounds=1, Margins=mg), inv, replay_select, name="select"),
        Run("SelectMC", dict(Kinds={"disc", "cont"}, Trajs={1, 2, 3}, Cands={2, 5}, Seeds=seeds(14 if q else 120), Rounds=2, Margins=mg1), inv, replay_select, name="again"),
        Run("GridMC", dict(Dims={1, 2}, Ns={1, 2, 3, 5}, Seeds=seeds(40 if q else 99)), ["Sound"], replay_grid, name="grid"),
    ])
    return ["predictions of candidate models are scripted (all combinations of deviation, excursion and failure positions the seeds give); inference itself is C13/C20",
            "draws of Bayesian selections are replaced by the posterior mean"]


CHECKS = dict(C21=c21)
