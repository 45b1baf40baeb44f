"""Nonparametric models (spec/Model.tla, ModelMC.tla, FitMC.tla): C12, C13, model parts of C09, C10; clauses for C04, C05, C26."""
import warnings
import numpy as np
import opinf
from vp import Run
from num import V, Frozen, ints, rat, close, why
from p_ops import CLS, DEG, entries_for, O

M = opinf.models
ERR = (ValueError, TypeError, opinf.errors.DimensionalityError)
ERR_UNTRAINED = (AttributeError, RuntimeError)
MODEL = dict(d=M.DiscreteModel, c=M.ContinuousModel)


class UserOp(O.OperatorTemplate):
    """a user-defined (known) operator with its own apply() and jacobian()"""

    def __init__(self, op):
        self.op = op

    @property
    def state_dimension(self):
        return self.op.state_dimension

    def apply(self, state, input_=None):
        return self.op.apply(state, input_)

    def jacobian(self, state, input_=None):
        return self.op.jacobian(state, input_)


def known_op(t, E, alt):
    if t in DEG and alt == 1:
        return O.PolynomialOperator(DEG[t], entries_for(t, E) if t != "c" else ints(E))
    if t not in "BN" and alt == 2:
        return UserOp(CLS[t](entries_for(t, E)))
    return CLS[t](entries_for(t, E))


def unknown_op(t, alt):
    if alt == 0 and t in "cAHGBN":
        return t
    if alt == 2 and t in DEG:
        return O.PolynomialOperator(DEG[t])
    return CLS[t]()


def frozen_ops(v, clause, ops, f, Es):
    for op, t, E in zip(ops, f, Es):
        inner = op.op if isinstance(op, UserOp) else op
        v.eq(clause, np.reshape(inner.entries, np.shape(ints(E))), ints(E))


def build(cfg, Es, alt):
    ops = [known_op(t, E, (alt + i) % 3) for i, (t, E) in enumerate(zip(cfg["f"], Es))]
    if len(ops) == 1 and cfg["s"] % 2:
        return ops, MODEL[cfg["kd"]](ops[0])
    return ops, MODEL[cfg["kd"]](ops if alt else tuple(ops))


def polyval(p, t):
    c = rat(p) if len(p) else np.zeros(1)
    return np.polynomial.polynomial.polyval(t, np.atleast_1d(c))


def replay_model(b, rec, ctx):
    cfg, o = b["cfg"], b["o"]
    r, m, f, kd = cfg["r"], cfg["m"], cfg["f"], cfg["kd"]
    v = V(rec, "%s.%s.r%d.m%d" % (kd, "".join(f), r, m))
    alt = cfg["s"] % 3
    ops, mod = build(cfg, o["E"], alt)
    ev = o["eval"]
    Q, U = ints(ev["Q"]), (ints(ev["U"]) if m else None)
    fz = Frozen(Q=Q, U=U)
    rhs = ints(ev["rhs"])
    cont = kd == "c"

    def F(mod, q, u, t=0.0):
        if cont:
            return mod.rhs(t, q, (lambda s: u) if m else None)
        return mod.rhs(q, u) if m else mod.rhs(q)

    def J(mod, q, u):
        if cont:
            return mod.jacobian(0.0, q, (lambda s: u) if m else None)
        return mod.jacobian(q, u) if m else mod.jacobian(q)

    v.true("state_dimension", mod.state_dimension == r)
    if m:
        v.true("input_dimension", mod.input_dimension == m)
    for j in range(Q.shape[1]):
        u = U[:, j] if m else None
        v.eq("rhs", F(mod, Q[:, j].copy(), u), rhs[:, j])
        v.eq("rhs.int_state", F(mod, Q[:, j].astype(int), u), rhs[:, j])
        v.eq("jac", J(mod, Q[:, j].copy(), u), ints(ev["jac"][j]))
        v.eq("jac.int_state", J(mod, Q[:, j].astype(int), u), ints(ev["jac"][j]))
        v.eq("rhs.again", F(mod, Q[:, j], u), rhs[:, j])
        if m == 1:
            v.eq("rhs.scalar_input", F(mod, Q[:, j], float(u[0])), rhs[:, j])
    v.eq("rhs.batch", F(mod, Q, U), rhs)
    # order and grouping of the operators must not matter
    perm = MODEL[kd](list(reversed(ops)))
    j = 0
    v.eq("rhs.reversed", F(perm, Q[:, j], U[:, j] if m else None), rhs[:, j])
    v.eq("jac.reversed", J(perm, Q[:, j], U[:, j] if m else None), ints(ev["jac"][j]))
    fz.check(v, "mutated.eval")
    frozen_ops(v, "alias.operators", ops, f, o["E"])

    if o["gal"]:
        nops = [known_op(t, E, 0) for t, E in zip(f, o["E"])]
        full = MODEL[kd](nops)
        for g in o["gal"]:
            Vm, W, Z = ints(g["V"]), ints(g["W"]), ints(g["Z"])
            fb = Frozen(V=Vm, W=W)
            for which, args in (("pg", (Vm, W)), ("g", (Vm,))):
                red = full.galerkin(*args)
                v.true("galerkin.model.type", type(red) is type(full))
                v.true("galerkin.model.dim", red.state_dimension == g["rr"])
                for j in range(Z.shape[1]):
                    v.eq("galerkin.model.rhs", F(red, Z[:, j], U[:, j] if m else None), rat(g[which][j]))
            fb.check(v, "mutated.galerkin")
        frozen_ops(v, "alias.galerkin", nops, f, o["E"])

    if o["disc"]:
        run_discrete(cfg, o["disc"], v, alt)
    if o["cont"] and o["cont"]["ok"]:
        run_continuous(cfg, o["cont"], Q, v, alt)


def run_discrete(cfg, d, v, alt):
    r, m = cfg["r"], cfg["m"]
    ops, mod = build(cfg, d["E"], alt)
    traj = ints(d["traj"])
    q0 = ints(d["q0"])
    n = traj.shape[1]
    U = ints(d["U"])[:, :max(n - 1, 1)] if m else None
    fz = Frozen(q0=q0, U=U)
    for k in sorted({1, 2, 3, n} & set(range(1, n + 1))):
        args = ()
        if m:
            args = (U[:, :max(k - 1, 1)],)
        got = mod.predict(q0, k, *args)
        v.eq("predict.discrete", got, traj[:, :k])
        if m:
            v.eq("predict.discrete.keyword", mod.predict(q0, k, inputs=args[0]), traj[:, :k])
            if m == 1:
                v.eq("predict.discrete.1dinputs", mod.predict(q0, k, args[0][0]), traj[:, :k])
    v.eq("predict.discrete.int", mod.predict(q0.astype(int), n, *((U,) if m else ())), traj)
    v.eq("predict.again", mod.predict(q0, n, *((U,) if m else ())), traj)
    fz.check(v, "mutated.predict")
    a = (U,) if m else ()
    v.raises("align.predict.state0", ERR, lambda: mod.predict(np.append(q0, 1.0), n, *a))
    v.raises("align.predict.state0", ERR, lambda: mod.predict(q0.reshape(-1, 1), n, *a))
    v.raises("align.predict.niters", ERR, lambda: mod.predict(q0, 0, *a))
    v.raises("align.predict.niters", ERR, lambda: mod.predict(q0, -2, *a))
    v.raises("align.predict.niters", ERR, lambda: mod.predict(q0, 2.5, *a))
    if m:
        v.raises("align.predict.noinput", ERR, lambda: mod.predict(q0, n))
        v.raises("align.predict.fewinputs", ERR, lambda: mod.predict(q0, n + 3, U[:, :n]))
        v.raises("align.predict.fewinputs", ERR, lambda: mod.predict(q0, U.shape[1] + 2, U))
        v.raises("align.predict.inputrows", ERR, lambda: mod.predict(q0, n, np.vstack((U, U))))
        v.raises("align.predict.callable", ERR, lambda: mod.predict(q0, n, lambda t: U[:, 0]))
    v.eq("align.predict.after", mod.predict(q0, n, *a), traj)


METHODS = ("RK45", "RK23", "Radau", "BDF", "LSODA", "DOP853")


def run_continuous(cfg, d, Q, v, alt):
    r, m, s = cfg["r"], cfg["m"], cfg["s"]
    ops, mod = build(cfg, d["E"], alt)
    q0 = ints(d["q0"])
    grids = [np.array([0.0, 0.1, 0.15, 0.4, 0.7, 0.8]), np.linspace(0, 1, 9), np.array([0.0, 0.5, 0.6, 1.0])]
    t = grids[s % 3]
    exact = np.array([polyval(p, t) for p in d["sol"]])
    uval = (lambda x: np.array([polyval(p, x) for p in d["u"]])) if m else None
    fz = Frozen(q0=q0, t=t)
    method = METHODS[(s + len(cfg["f"])) % 6]
    tol = dict(rtol=1e-9, atol=1e-11)
    lo = dict(rtol=1e-5, atol=1e-5)
    if method in ("RK23", "BDF"):
        tol = dict(rtol=1e-7, atol=1e-9)
        lo = dict(rtol=1e-4, atol=1e-4)
    forms = [()]
    if m:
        us = [uval]
        if m == 1:
            us.append(lambda x: float(uval(x)[0]))
        if d["udeg"] <= min(3, t.size - 1):
            us.append(uval(t))
            if m == 1:
                us.append(uval(t)[0])
        forms = [(u,) for u in us]
    for k, args in enumerate(forms):
        got = mod.predict(q0, t, *args, method=method, **tol)
        v.eq("predict.continuous", got, exact, **lo)
        v.true("predict.result", mod.predict_result_ is not None and close(mod.predict_result_.y, got))
        if k == len(forms) - 1:
            v.eq("predict.continuous.default", mod.predict(q0, t, *args, max_step=0.01), exact, rtol=1e-4, atol=1e-4)
            if m:
                v.eq("predict.continuous.keyword", mod.predict(q0, t, input_func=args[0], method="RK45", rtol=1e-9, atol=1e-11), exact, rtol=1e-5, atol=1e-5)
            # a later part of the same solution: the start time matters when inputs depend on time
            if t.size > 4 and not (m and not callable(args[0])):
                got = mod.predict(exact[:, 2], t[2:], *args, method="RK45", rtol=1e-9, atol=1e-11)
                v.eq("predict.continuous.restart", got, exact[:, 2:], rtol=1e-5, atol=1e-5)
    if m:
        pr = ints(d["prhs"])
        for j in range(min(3, Q.shape[1])):
            v.eq("rhs.time", mod.rhs(float(j), Q[:, j], uval), pr[j])
    fz.check(v, "mutated.predict")
    a = (uval,) if m else ()
    v.raises("align.predict.state0", ERR, lambda: mod.predict(np.append(q0, 1.0), t, *a))
    v.raises("align.predict.state0", ERR, lambda: mod.predict(q0[:0], t, *a))
    v.raises("align.predict.time", ERR, lambda: mod.predict(q0, t.reshape(1, -1), *a))
    if m:
        v.raises("align.predict.noinput", ERR, lambda: mod.predict(q0, t))
        v.raises("align.predict.inputrows", ERR, lambda: mod.predict(q0, t, np.vstack((uval(t), uval(t)))))
        v.raises("align.predict.inputcols", ERR, lambda: mod.predict(q0, t, uval(t)[:, :-1]))
        v.raises("align.predict.inputfunc", ERR, lambda: mod.predict(q0, t, lambda x: np.ones(m + 1)))
        v.raises("align.predict.inputfunc", ERR, lambda: mod.predict(q0, t, lambda x: [1.0] * m))
    v.eq("align.predict.after", mod.predict(q0, t, *a, method="RK45", rtol=1e-9, atol=1e-11), exact, rtol=1e-5, atol=1e-5)


# ------------------------------------------------------------------ training
def ols_ok(Ohat, D, R, lam):
    """normal equations of  min |D O' - R'|^2 + lam^2 |O|^2"""
    O_ = np.asarray(Ohat, dtype=float)
    if O_.shape != (R.shape[0], D.shape[1]) or not np.all(np.isfinite(O_)):
        return False, "operator matrix of shape %s, required %s" % (O_.shape, (R.shape[0], D.shape[1]))
    g = D.T @ (D @ O_.T - R.T) + lam * lam * O_.T
    scale = np.abs(D).max() ** 2 * D.shape[0] * max(1.0, np.abs(O_).max()) + np.abs(D.T @ R.T).max()
    return bool(np.abs(g).max() <= 1e-8 * scale), "gradient of the objective at the inferred operators:\n%s\noperators\n%s" % (g, O_)


class RecordingSolver(opinf.lstsq.SolverTemplate):
    """stands in for a user's solver: remembers the regression, returns a chosen matrix"""

    def fit(self, data_matrix, lhs_matrix):
        self.D, self.Z = np.array(data_matrix), np.array(lhs_matrix)
        self.calls = getattr(self, "calls", 0) + 1
        return opinf.lstsq.SolverTemplate.fit(self, data_matrix, lhs_matrix)

    def solve(self):
        return self.answer


def fit_args(cfg, x, form):
    """ways of giving the same data"""
    Q, Z = ints(x["Q"]), ints(x["Z"])
    U = ints(x["U"]) if cfg["m"] else None
    if form == 1:
        Q, Z = np.asfortranarray(Q), np.ascontiguousarray(Z)
    if form == 2:
        Q, Z = Q.astype(int), Z.astype(int)
        U = U.astype(int) if U is not None else None
    if form == 3 and cfg["m"] == 1:
        U = U[0]
    return Q, Z, U


def call_fit(mod, kd, Q, Z, U, kw):
    if U is None:
        return mod.fit(Q, Z)
    if kw:
        return mod.fit(Q, **{("nextstates" if kd == "d" else "ddts"): Z}, inputs=U)
    return mod.fit(Q, Z, U)


def bad_fit(mod, cfg, x, k):
    Q, Z, U = fit_args(cfg, x, 0)
    m, known = cfg["m"], any(cfg["mask"])
    kin = any(mk and t in "BN" for mk, t in zip(cfg["mask"], cfg["f"]))
    fit = (lambda *a: mod.fit(*a))
    if k == 1:
        fit(Q, np.vstack((Z, Z[:1])), U)
    elif k == 2:
        fit(Q, Z[:, :-1], U)
    elif k == 3:
        if m:
            fit(Q, Z, None)
        else:
            fit(Q, np.hstack((Z, Z[:, :1])), U)
    elif k == 4:
        if m:
            fit(Q, Z, U[:, :-1])
        else:
            fit(np.vstack((Q, Q[:1])), Z, U)
    elif k == 5:
        if known and not all(isinstance(op, UserOp) for op, mk in zip(mod.operators, cfg["mask"]) if mk):
            fit(np.vstack((Q, Q[:1])), np.vstack((Z, Z[:1])), U)
        else:
            fit(np.vstack((Q, Q[:1])), Z, U)
    elif k == 6:
        if m and kin:
            fit(Q, Z, np.vstack((U, U[:1])))
        else:
            fit(Q[:, :-2], Z, U)


def replay_fit(b, rec, ctx):
    cfg, data, hist = b["cfg"], b["data"], b["hist"]
    r, m, f, kd, mask, s = cfg["r"], cfg["m"], cfg["f"], cfg["kd"], cfg["mask"], cfg["s"]
    Es = [ints(E) for E in b["E"]]
    nknown = sum(mask)
    v = V(rec, "%s.%s.known%d.r%d.m%d.reg%d" % (kd, "".join(f), nknown, r, m, cfg["reg"]))
    h = hash((tuple(f), r, m, s, len(hist))) % 6
    ops = [known_op(t, E, (h + i) % 3) if mk else unknown_op(t, (h + i) % 3) for i, (t, E, mk) in enumerate(zip(f, Es, mask))]
    strings = all(isinstance(x, str) for x in ops)
    reg = cfg["reg"]
    solver = None if reg == 0 else (float(reg) if h % 2 else opinf.lstsq.L2Solver(reg))
    if reg == 0 and h % 3 == 1:
        solver = opinf.lstsq.PlainSolver()
    arg = "".join(ops) if strings and h % 2 else ops
    mod = MODEL[kd](arg, solver=solver) if solver is not None else MODEL[kd](arg)
    v.true("untrained.entries", all(mod.operators[i].entries is None for i in range(len(f)) if not mask[i]))
    q0 = np.ones(r)
    inp = np.ones((m, 3)) if m else None
    if kd == "d":
        v.raises("untrained.predict", ERR_UNTRAINED, lambda: mod.predict(q0, 3, *((inp,) if m else ())))
    else:
        v.raises("untrained.predict", ERR_UNTRAINED, lambda: mod.predict(q0, np.arange(3.0), *((lambda x: inp[:, 0],) if m else ())))
    v.raises("untrained.operator_matrix", ERR_UNTRAINED, lambda: mod.operator_matrix)

    def unknown_matrix():
        cols = []
        for i in range(len(f)):
            if not mask[i]:
                cols.append(np.reshape(mod.operators[i].entries, (r, -1)))
        return np.hstack(cols)

    prev = None
    for i, st in enumerate(hist):
        a, d = st["a"]["a"], st["a"]["d"]
        rec.count("call." + a)
        if a == "bad":
            x = data[0]
            v.raises("align.fit%d" % d, ERR, lambda: bad_fit(mod, cfg, x, d))
            unk = [mod.operators[i].entries for i in range(len(f)) if not mask[i]]
            if prev is None:
                v.true("align.fit.state", all(e is None for e in unk), "operators trained by a refused fit")
            else:
                v.true("align.fit.state", all(e is not None for e in unk) and close(unknown_matrix(), prev),
                       "operators changed by a refused fit")
                v.true("align.fit.dims", mod.state_dimension == r and mod.input_dimension == (m if m else mod.input_dimension))
                ok, got = v.call("align.fit.predictable", lambda: mod.rhs(q, u) if kd == "d" else mod.rhs(0.0, q, (lambda t: u) if m else None))
                if ok:
                    v.eq("align.fit.rhs", got, prevrhs)
            for i in range(len(f)):
                if mask[i]:
                    e = mod.operators[i].op.entries if isinstance(mod.operators[i], UserOp) else mod.operators[i].entries
                    v.eq("align.fit.known", np.reshape(e, Es[i].shape), Es[i])
            continue
        x = data[d - 1]
        if a == "fit":
            Q, Z, U = fit_args(cfg, x, (h + i) % 4)
            fz = Frozen(Q=Q, Z=Z, U=U)
            out = call_fit(mod, kd, Q, Z, U, (h + i) % 2)
            v.true("fit.self", out is mod)
            fz.check(v, "mutated.fit")
        else:
            v.true("refit.self", mod.refit() is mod)
        D, R = ints(x["D"]), ints(x["R"])
        Om = unknown_matrix()
        ok, detail = ols_ok(Om, D, R, float(reg))
        v.true("fit.minimiser", ok, detail)
        if x["exact"] and reg == 0:
            for k in range(len(f)):
                if not mask[k]:
                    v.eq("fit.recovers", np.reshape(mod.operators[k].entries, Es[k].shape), Es[k], rtol=1e-6, atol=1e-7)
        for k in range(len(f)):
            if mask[k]:
                e = mod.operators[k].op.entries if isinstance(mod.operators[k], UserOp) else mod.operators[k].entries
                v.eq("fit.known_untouched", np.reshape(e, Es[k].shape), Es[k])
        v.true("fit.dims", mod.state_dimension == r and (not m or mod.input_dimension == m))
        v.eq("fit.operator_matrix", mod.operator_matrix, Om)
        for nm, t in (("c_", "c"), ("A_", "A"), ("H_", "H"), ("G_", "G"), ("B_", "B"), ("N_", "N")):
            got = getattr(mod, nm)
            idx = [k for k in range(len(f)) if f[k] == t and type(mod.operators[k]) is CLS[t]]
            v.true("fit.getters", got is (mod.operators[idx[0]] if idx else None), nm)
        # the trained model is the sum of all its operators
        q = ints(x["Q"])[:, 0]
        u = ints(x["U"])[:, 0] if m else None
        tot = sum(mod.operators[k].apply(q, u) for k in range(len(f)))
        got = mod.rhs(q, u) if kd == "d" else mod.rhs(0.0, q, (lambda t: u) if m else None)
        v.eq("fit.rhs", got, np.ravel(tot))
        prev, prevrhs = Om, np.array(got)

    # extraction: whatever the solver returns, the operators applied to the training data must give
    # (the rows of the data matrix handed to the solver) times that answer
    if hist[-1]["a"]["a"] == "fit" and not strings:
        x = data[0]
        rs = RecordingSolver()
        ops2 = [known_op(t, E, 0) if mk else CLS[t]() for t, E, mk in zip(f, Es, mask)]
        mod2 = MODEL[kd](ops2, solver=rs)
        D, R = ints(x["D"]), ints(x["R"])
        rng = np.random.default_rng(s)
        rs.answer = rng.integers(-3, 4, (r, D.shape[1])).astype(float)
        call_fit(mod2, kd, *fit_args(cfg, x, 0), 0)
        v.true("solver.once", rs.calls == 1, rs.calls)
        v.eq("solver.lhs", rs.Z, R)
        # same rows; columns possibly in another order, but all of them
        v.eq("solver.gram", np.sort(np.linalg.svd(rs.D)[1]), np.sort(np.linalg.svd(D)[1]), rtol=1e-6, atol=1e-7)
        v.eq("solver.columns", np.sort(rs.D, axis=1), np.sort(D, axis=1))
        Q, U = ints(x["Q"]), (ints(x["U"]) if m else None)
        tot = sum(mod2.operators[k].apply(Q, U) for k in range(len(f)) if not mask[k])
        v.eq("solver.extract", np.broadcast_to(tot, (r, Q.shape[1])) if np.ndim(tot) < 2 else tot, rs.answer @ rs.D.T)
        rs.answer = rs.answer + 1
        mod2.refit()
        tot = sum(mod2.operators[k].apply(Q, U) for k in range(len(f)) if not mask[k])
        v.eq("solver.refit", tot, rs.answer @ rs.D.T)
        v.true("solver.refit_once", rs.calls == 1)
    trajectory_clauses(cfg, Es, data, v)


def trajectory_clauses(cfg, Es, data, v):
    """discrete models learn from trajectories: consecutive snapshots are the regression pairs"""
    if cfg["kd"] != "d":
        return
    f, mask, r, m = cfg["f"], cfg["mask"], cfg["r"], cfg["m"]
    Q, Z, U = fit_args(cfg, data[0], 0)
    Q2, Z2, U2 = fit_args(cfg, data[1], 0)

    def fresh():
        rs = RecordingSolver()
        mod = M.DiscreteModel([known_op(t, E, 0) if mk else CLS[t]() for t, E, mk in zip(f, Es, mask)], solver=rs)
        rs.answer = np.zeros((r, np.shape(data[0]["D"])[1]))
        return rs, mod

    def regression(*args, **kw):
        rs, mod = fresh()
        mod.fit(*args, **kw)
        return rs.D, rs.Z

    D0, Z0 = regression(Q[:, :-1], Q[:, 1:], *((U[:, :-1],) if m else ()))
    D1, Z1 = regression(Q, **(dict(inputs=U) if m else {}))
    v.eq("trajectory.data", D1, D0)
    v.eq("trajectory.lhs", Z1, Z0)
    if m:
        D1, Z1 = regression(Q, inputs=U[:, :-1])
        v.eq("trajectory.shortinputs", D1, D0)
    S, N_, *rest = M.DiscreteModel.stack_trajectories([Q, Q2], [U, U2]) if m else M.DiscreteModel.stack_trajectories([Q, Q2])
    v.eq("stack.states", S, np.hstack((Q[:, :-1], Q2[:, :-1])))
    v.eq("stack.next", N_, np.hstack((Q[:, 1:], Q2[:, 1:])))
    if m:
        # inputs for the transitions only, and inputs that go on after the states, are both fine
        UX = np.column_stack((U2, U2[:, :1], U2[:, :1]))
        v.eq("stack.inputslen", M.DiscreteModel.stack_trajectories([Q, Q2], [U[:, :-1], UX])[2], np.hstack((U[:, :-1], U2[:, :-1])))
        v.eq("stack.inputs", rest[0], np.hstack((U[:, :-1], U2[:, :-1])))
        if m == 1:
            v.eq("stack.inputs1dshort", M.DiscreteModel.stack_trajectories([Q, Q2], [U[0, :-1], U2[0]])[2], np.concatenate((U[0, :-1], U2[0, :-1])))
            v.eq("stack.inputs1d", M.DiscreteModel.stack_trajectories([Q, Q2], [U[0], U2[0]])[2], np.concatenate((U[0, :-1], U2[0, :-1])))
    else:
        v.true("stack.noinputs", not rest)


# ---------------------------------------------------------------------- runs
EVALF = {("c",), ("A",), ("c", "A"), ("A", "B"), ("c", "A", "H", "B"), ("N", "A"), ("H", "G", "c"), ("B",), ("N",),
         ("G", "B"), ("A", "A"), ("c", "A", "H", "G", "B", "N"), ("B", "B"), ("H", "N", "c")}
FITF = {("A",), ("c", "A"), ("A", "B"), ("c", "A", "H", "B"), ("N", "A"), ("H", "G", "c"), ("A", "A"), ("A", "H", "A", "B"),
        ("B", "N"), ("G",), ("N", "B", "A"), ("c", "H"), ("H", "A", "c"), ("B",)}


def model_runs(chk, focus, invs, kinds=("d", "c")):
    q, s = chk.tier == "quick", chk.seed * 100
    seeds = set(range(s, s + (3 if q else 18)))
    fs = set(EVALF)
    if not q:
        fs |= {("Q", "c"), ("A", "Q"), ("G", "H", "A", "c"), ("N", "B"), ("B", "N", "A", "H"), ("H", "H")}
    return [Run("ModelMC", dict(Forms=fs, Kinds=set(kinds), Rs={1, 2, 3} if q else {1, 2, 3, 4},
                                Ms={0, 1, 2} if q else {0, 1, 2, 3}, Seeds=seeds, K=3, Focus=focus), invs, replay_model, name="eval")]


def fit_runs(chk, acts, maxlen, forms=FITF, noise=(2,), seeds=None, regs=(0, 2)):
    q, s = chk.tier == "quick", chk.seed * 100
    seeds = seeds or set(range(s, s + (1 if q else 4)))
    return [Run("FitMC", dict(Forms=set(forms), Kinds={"d", "c"}, Rs={1, 2, 3}, Ms={0, 1, 2}, Seeds=seeds, Regs=set(regs),
                              MaxLen=maxlen, Acts=set(acts), Noise=set(noise)), ["Consistent"], replay_fit, name="fit")]


def c12(chk):
    for r in (rs := model_runs(chk, "run", ["SolvesIVP", "SumIsSum"])):
        r.ctx["only"] = r"rhs|jac|predict|state_dim|input_dim|align\.predict"
    chk.execute(rs)
    return ["continuous models are compared on triangular polynomial systems, whose solutions are exact polynomials; "
            "integrator tolerances 1e-7..1e-9, comparison 1e-4..1e-5"]


def c13(chk):
    rs = fit_runs(chk, {"refit"}, 2 if chk.tier == "quick" else 3)
    for r in rs:
        r.ctx["only"] = r"fit\.|refit|solver|trajectory|stack"
    chk.execute(rs)
    return ["minimality is decided by the normal equations of the emitted data matrix, to relative 1e-8"]


CHECKS = dict(C12=c12, C13=c13)
