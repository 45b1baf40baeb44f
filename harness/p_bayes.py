"""Bayesian operator inference (spec/BayesMC.tla, PosteriorMC.tla): C22."""
import copy, os, pickle, warnings
import numpy as np
import h5py
import opinf
import vp
from vp import Run
from num import V, Frozen, ints, rat, close, why
from p_model import known_op, unknown_op, MODEL, frozen_ops, polyval

L = opinf.lstsq
R = opinf.roms
SOL = dict(l2=L.L2Solver, l2d=L.L2DecoupledSolver, tik=L.TikhonovSolver, tikd=L.TikhonovDecoupledSolver)


def spread(draws, mean, cov):
    """standardised draws: rows of independent standard normals if the draws are N(mean, cov)"""
    C = np.linalg.cholesky(cov)
    return np.linalg.solve(C, (draws - mean).T).T


def moments(v, clause, W, sig=7.0):
    """W (n, D): joint standard normal? (sample mean and all second moments within sig standard deviations)"""
    n = W.shape[0]
    v.rec.count(clause)
    m = np.abs(W.mean(axis=0)) * np.sqrt(n)
    S = (W.T @ W) / n - np.eye(W.shape[1])
    sd = np.where(np.eye(W.shape[1]) > 0, np.sqrt(2.0), 1.0) / np.sqrt(n)
    z = np.abs(S) / sd
    if not (np.all(np.isfinite(z)) and m.max() <= sig and z.max() <= sig + 1):
        v.rec.fail(clause + "|" + v.label, "draws do not have the moments of the distribution: largest deviation of the mean %.1f, of second moments %.1f standard errors\n%s"
                   % (m.max(), z.max(), np.array2string(S, precision=3)))


class Case:
    def __init__(self, b, v):
        self.b, self.c, self.v = b, b["cfg"], v
        self.h = vp.seed_of([self.c, [e["a"] for e in b["hist"]]])
        self.E = b["head"]["E"]
        self.exp = [[[dict(mean=rat(p["mean"]), sig=rat(p["sig"]), inv=rat(p["inv"])) for p in rows] for rows in per] for per in b["head"]["post"]]
        self.n = self.c["r"] + 1
        self.V = np.zeros((self.n, self.c["r"]))
        self.V[self.c["r"], 0] = 1
        for i in range(1, self.c["r"]):
            self.V[i - 1, i] = 1
        self.basis = self.h % 3 == 1

    def full(self, X):
        return self.V @ X if self.basis else X

    def reg(self, j):
        G = [ints(g) for g in self.b["head"]["regs"][j - 1]]
        k = self.c["sol"]
        if k == "l2":
            return float(G[0][0, 0])
        if k == "l2d":
            return np.array([g[0, 0] for g in G])
        return G[0] if k == "tik" else G

    def rom(self, reg):
        kw = {}
        if self.c["sol"] in ("tik", "tikd") and self.h % 2:
            kw = dict(method="normal")
        ops = [known_op(t, E, 0) if mk else unknown_op(t, 1) for t, E, mk in zip(self.c["f"], self.E, self.c["mask"])]
        self.solver = SOL[self.c["sol"]](reg, **kw)
        mod = MODEL[self.c["kd"]](ops, solver=self.solver)
        return R.BayesianROM(mod, **(dict(basis=opinf.basis.LinearBasis(self.V)) if self.basis else {}))

    def data(self, d):
        x = self.b["head"]["data"][d - 1]
        Q, Z = self.full(ints(x["Q"])), self.full(ints(x["Z"]))
        return Q, Z, (ints(x["U"]) if self.c["m"] else None)

    def ok(self, p):
        return all(np.all(np.isfinite(q[k])) for q in p for k in q)


def learned(model, mask):
    return np.column_stack([np.asarray(op.entries, dtype=float) for op, mk in zip(model.operators, mask) if not mk])


def check_post(v, clause, post, p):
    v.eq(clause + ".nrows", post.nrows, len(p))
    means, covs = post.means, post.covs
    v.true(clause + ".rows", len(means) == len(p) and len(covs) == len(p), "%d means, %d covariances" % (len(means), len(covs)))
    for m, C, q in zip(means, covs, p):
        v.eq(clause + ".mean", m, q["mean"])
        v.eq(clause + ".cov", C, q["sig"] * q["inv"], atol=1e-7 * max(1e-3, float(np.max(np.abs(q["sig"] * q["inv"])))) if np.all(np.isfinite(q["inv"])) else 1e-8)


def replay_bayes(b, rec, ctx):
    c, head = b["cfg"], b["head"]
    v = V(rec, "%s %s %s" % (c["kd"], c["sol"], "".join(c["f"])))
    C = Case(b, v)
    np.random.seed(C.h % 2**31)
    warnings.simplefilter("ignore")
    rom = C.rom(C.reg(1))
    v.true("fresh", rom.posterior is None, "posterior before training")
    v.raises("solver", AttributeError, lambda: R.BayesianROM(MODEL[c["kd"]]("A", solver=[L.PlainSolver(), L.TruncatedSVDSolver(1), L.TotalLeastSquaresSolver()][C.h % 3])))
    kept = None
    drawn = None
    for e in b["hist"]:
        a, x, st = e["a"], e["v"], e["st"]
        tag = "after " + a
        w = V(rec, v.label + " " + tag)
        if a == "fit":
            Q, Z, U = C.data(x)
            fr = Frozen(Q=Q, Z=Z, U=U)
            args = (Q, Z, U) if U is not None else (Q, Z)
            if (C.h + x) % 4 == 2 and c["kd"] == "c":
                args = tuple([z] for z in args)
            ok, out = w.call("fit", lambda: rom.fit(*args))
            if not ok:
                return
            w.true("fit.self", out is rom, "fit() returned something else")
            fr.check(w, "fit.arguments")
            if kept is not None:
                w.true("kept.apart", rom.posterior is not kept[0], "a fit hands out the earlier posterior object")
        elif a == "set":
            C.solver.regularizer = C.reg(x)
        elif a in ("draw", "predict"):
            g = head["draws"][x - 1]
            M = ints(g["M"])
            cls, orig = R.OperatorPosterior, R.OperatorPosterior.rvs
            stub = (C.h + x) % 4 != 0
            if stub:
                cls.rvs = lambda self: M.copy()
            try:
                if a == "draw":
                    ok, out = w.call("draw", rom.draw_operators)
                else:
                    q0 = C.full(ints(g["q0"]))
                    U = ints(g["U"]) if c["m"] else None
                    if c["kd"] == "d":
                        ok, out = w.call("predict", lambda: rom.predict(q0, 4, U) if c["m"] else rom.predict(q0, 4))
                    else:
                        t = np.linspace(0, 0.01, 4)
                        u = (lambda s: (U.T if np.ndim(s) == 0 else U.T)[0] * 1.0 if np.ndim(s) == 0 else np.outer(U[:, 0], np.ones(np.size(s)))) if c["m"] else None
                        ok, out = w.call("predict", lambda: rom.predict(q0, t, u) if c["m"] else rom.predict(q0, t))
            finally:
                cls.rvs = orig
            if not ok:
                return
            got = learned(rom.model, c["mask"])
            if stub:
                w.eq("draw.operators", got, M)
            drawn = got
            if a == "predict":
                # the trajectory of the drawn operators
                if stub and c["kd"] == "d" and close(got, M):
                    traj = ints(g["traj"]).T
                    if traj.shape[1] == 4:
                        w.eq("predict.drawn", out, C.full(traj))
                else:
                    ops = [known_op(tt, E, 0) for tt, E in zip(c["f"], C.E)]
                    col = 0
                    for k, (op, mk) in enumerate(zip(ops, c["mask"])):
                        if not mk:
                            wd = op.entries.shape[1] if op.entries.ndim == 2 else 1
                            blk = got[:, col:col + wd]
                            col += wd
                            ops[k] = type(op)(blk[:, 0] if op.entries.ndim == 1 else blk)
                    mod = MODEL[c["kd"]](ops)
                    z0 = ints(g["q0"])
                    if c["kd"] == "d":
                        ref = mod.predict(z0, 4, U) if c["m"] else mod.predict(z0, 4)
                    else:
                        ref = mod.predict(z0, t, u) if c["m"] else mod.predict(z0, t)
                    if ref.shape[1] == 4 and np.all(np.abs(ref) < 1e6):
                        w.eq("predict.drawn", out, C.full(ref))
        elif a == "keep":
            post = rom.posterior
            if x == 1:
                kept = (post, st["keep"])
            elif x == 2:
                kept = (copy.deepcopy(post), st["keep"])
            else:
                path = "post_%d.h5" % (C.h % 1000)
                if os.path.exists(path):
                    os.remove(path)
                ok, _ = w.call("save", lambda: post.save(path))
                ok, q = w.call("load", lambda: R.OperatorPosterior.load(path)) if ok else (False, None)
                if os.path.exists(path):
                    os.remove(path)
                if not ok:
                    return
                kept = (q, st["keep"])
        elif a == "bad":
            Q, Z, U = C.data(1)
            r = C.reg(1)
            f = {1: lambda: rom.fit(Q, Z[:, :-1], *([U] if c["m"] else [])),
                 2: lambda: rom.fit(Q, Z, *([None] if c["m"] else [np.ones((1, Q.shape[1]))])),
                 3: lambda: setattr(C.solver, "regularizer", {"l2": -1.0, "l2d": np.array([-1.0] * c["r"]), "tik": np.ones((2, 3)), "tikd": [np.ones((2, 3))] * c["r"]}[c["sol"]]),
                 4: lambda: R.BayesianROM(opinf.models.InterpDiscreteModel("A"))}[x]
            if x == 3 and not st["dat"]:
                # before training nothing is known about the size
                f = lambda: rom.fit(Q[:, :0], Z)
            if x == 2 and not c["m"]:
                # inputs for a model without inputs: a warning or an error, and no effect
                f = lambda: rom.fit(np.vstack((Q, Q[:1])), Z)
            w.raises("refused.%d" % x, (ValueError, TypeError, AttributeError), f)
        # ---- what the history determines
        if st["dat"]:
            p = C.exp[st["dat"] - 1][st["ts"] - 1]
            check_post(w, "posterior", rom.posterior, p)
            if st["ops"] == -1:
                w.eq("model.mean", learned(rom.model, c["mask"]), np.array([q["mean"] for q in p]))
            elif drawn is not None:
                w.true("model.drawn", np.array_equal(learned(rom.model, c["mask"]), drawn), "the drawn operators changed")
            if C.ok(p):
                # one draw, without leaving a trace in the model
                g = rom.posterior.rvs()
                w.true("rvs.shape", isinstance(g, np.ndarray) and g.shape == (c["r"], len(p[0]["mean"])), np.shape(g))
                if np.shape(g) == (c["r"], len(p[0]["mean"])):
                    far = max(float(np.max(np.abs(spread(g[i][None], q["mean"], q["sig"] * q["inv"])))) for i, q in enumerate(p) if q["sig"] > 0)
                    w.true("rvs.range", far < 9, "a draw is %.1f standard deviations off" % far)
        else:
            w.true("untrained", rom.posterior is None, "posterior without training")
        if kept is not None:
            check_post(w, "kept", kept[0], C.exp[kept[1][0] - 1][kept[1][1] - 1])
        frozen_ops(w, "known", [op for op, mk in zip(rom.model.operators, c["mask"]) if mk],
                   [t for t, mk in zip(c["f"], c["mask"]) if mk], [E for E, mk in zip(C.E, c["mask"]) if mk])
    # ---- distribution of the draws of the final posterior
    st = b["hist"][-1]["st"]
    p = C.exp[st["dat"] - 1][st["ts"] - 1]
    if C.h % ctx["every"] == 0 and C.ok(p) and all(q["sig"] > 0 for q in p):
        n = ctx["draws"]
        rows = []
        for k in range(n):
            rom.draw_operators()
            rows.append(learned(rom.model, c["mask"]))
        rows = np.array(rows)
        if rows.shape[1:] == (c["r"], len(p[0]["mean"])):
            W = np.concatenate([spread(rows[:, i], q["mean"], q["sig"] * q["inv"]) for i, q in enumerate(p)], axis=1)
            moments(v, "draws.moments", W)
        if kept is not None:
            pk = C.exp[kept[1][0] - 1][kept[1][1] - 1]
            rows = [kept[0].rvs() for k in range(n)]
            if C.ok(pk) and all(np.shape(g) == (c["r"], len(pk[0]["mean"])) for g in rows):
                rows = np.array(rows)
                W = np.concatenate([spread(rows[:, i], q["mean"], q["sig"] * q["inv"]) for i, q in enumerate(pk)], axis=1)
                moments(v, "draws.kept", W)


# ------------------------------------------------------ posteriors as objects
def replay_posterior(b, rec, ctx):
    c = b["cfg"]
    v = V(rec, "x".join(map(str, c["shape"])))
    hs = vp.seed_of([c, [[e["a"], e["v"]] for e in b["hist"]]])
    np.random.seed(hs % 2**31)
    D = [dict(means=[ints(m) for m in d["means"]], P=[ints(P) for P in d["P"]], C=[rat(x) for x in d["C"]]) for d in b["dists"]]
    same = len(set(c["shape"])) == 1
    path = "posterior_%d.h5" % (hs % 1000)
    objs = [None, None]
    if os.path.exists(path):
        os.remove(path)
    origin = [None, None]
    fo = None

    def shaped(w, clause, g, d):
        if same:
            return w.true(clause, isinstance(g, np.ndarray) and g.shape == (len(c["shape"]), c["shape"][0]), "%s of shape %s" % (type(g), np.shape(g)))
        return w.true(clause, len(g) == len(d["means"]) and all(np.shape(x) == m.shape for x, m in zip(g, d["means"])), [np.shape(x) for x in g])
    for e in b["hist"]:
        a, o, x = e["a"], e["o"] - 1, e["v"]
        w = V(rec, v.label + " after " + a)
        if a == "new":
            d = D[x // 2 - 1]
            args = ([m.copy() for m in d["means"]], [np.array(M) for M in (d["C"] if x % 2 else d["P"])])
            fr = Frozen(**{"m%d" % i: m for i, m in enumerate(args[0])}, **{"p%d" % i: m for i, m in enumerate(args[1])})
            if same and hs % 3 == 0:
                args = (np.array(args[0]), np.array(args[1]))
            ok, obj = w.call("new", lambda: R.OperatorPosterior(*args, **(dict(alreadyinverted=True) if x % 2 else {})))
            if not ok:
                return
            objs[o], origin[o] = obj, ("new", x, hs)
            fr.check(w, "new.arguments")
        elif a == "save":
            before = open(path, "rb").read() if os.path.exists(path) else None
            if e["bad"]:
                w.raises("save.refused", (OSError,), lambda: objs[o].save(path, overwrite=False) if hs % 2 else objs[o].save(path))
                w.true("save.kept", open(path, "rb").read() == before, "a refused save changed the file")
            else:
                ok, _ = w.call("save", lambda: objs[o].save(path, overwrite=True) if x else objs[o].save(path))
                fo = origin[o]
                if not ok:
                    return
        elif a == "load":
            if e["bad"]:
                w.raises("load.refused", (OSError, opinf.errors.LoadfileFormatError), lambda: R.OperatorPosterior.load(path))
                w.true("load.nothing", not os.path.exists(path), "loading created a file")
            else:
                ok, obj = w.call("load", lambda: R.OperatorPosterior.load(path))
                if not ok:
                    return
                objs[o], origin[o] = obj, fo
        elif a == "copy":
            obj = copy.deepcopy(objs[o]) if hs % 2 else pickle.loads(pickle.dumps(objs[o]))
            objs[1 - o], origin[1 - o] = obj, origin[o]
        elif a == "group":
            gp = "group_%d.h5" % (hs % 1000)
            with h5py.File(gp, "w") as hf:
                hf.create_dataset("other", data=[1.0, 2.0])
                grp = hf.create_group("inner/posterior")
                ok, _ = w.call("group.save", lambda: objs[o].save(grp))
                if ok:
                    ok, obj = w.call("group.load", lambda: R.OperatorPosterior.load(grp))
                w.true("group.open", bool(hf) and bool(grp) and "other" in hf and hf["other"][1] == 2.0, "the file was closed or changed")
            os.remove(gp)
            if not ok:
                return
            objs[1 - o], origin[1 - o] = obj, ("group", hs, origin[o])
        elif a == "foreign":
            gp = "foreign_%d.h5" % (hs % 1000)
            if x == 1:
                open(gp, "w").write("not an HDF5 file")
            else:
                with h5py.File(gp, "w") as hf:
                    hf.create_dataset("state_dimension" if x == 2 else "entries", data=[2])
            raw = open(gp, "rb").read()
            w.raises("load.foreign%d" % x, Exception, lambda: R.OperatorPosterior.load(gp))
            w.true("load.foreign.kept", open(gp, "rb").read() == raw, "a refused load changed the file")
            os.remove(gp)
        elif a == "draw":
            d = D[e["objs"][o] - 1]
            n = ctx["draws"] if hs % ctx["every"] == 0 else 3
            g = [objs[o].rvs() for k in range(n)]
            if all(shaped(w, "draw.shape", y, d) for y in g):
                W = np.concatenate([spread(np.array([y[i] for y in g]), m, C) for i, (m, C) in enumerate(zip(d["means"], d["C"]))], axis=1)
                w.true("draw.range", np.max(np.abs(W)) < 9, "%.1f standard deviations" % np.max(np.abs(W)))
                w.true("draw.random", not np.allclose(W[0], W[1]), "two draws agree")
                if n > 3:
                    moments(w, "draw.moments", W)
        elif a == "bad":
            d = D[0]
            m, P = d["means"], d["P"]
            i = len(m) - 1
            sub = lambda s, y: list(s[:i]) + [y]
            w.raises("refused.%d" % x, ValueError,
                     {1: lambda: R.OperatorPosterior(m, P + [P[0]]), 2: lambda: R.OperatorPosterior(m + [m[0]], P),
                      3: lambda: R.OperatorPosterior(sub(m, np.append(m[i], 1.0)), P), 4: lambda: R.OperatorPosterior(m, sub(P, np.vstack((P[i], P[i][:1])))),
                      5: lambda: R.OperatorPosterior(m, sub(P, P[i][0])), 6: lambda: R.OperatorPosterior(sub(m, m[i][:, None]), P)}[x])
        for k in range(2):
            j = e["objs"][k]
            if j:
                d = D[j - 1]
                w.eq("nrows", objs[k].nrows, len(c["shape"]))
                w.true("rows", len(objs[k].means) == len(d["means"]) and len(objs[k].covs) == len(d["C"]))
                for i in range(len(d["means"])):
                    w.eq("mean", objs[k].means[i], d["means"][i])
                    w.eq("cov", objs[k].covs[i], d["C"][i])
        if e["objs"][0] and e["objs"][1]:
            # equal distributions of the same origin are equal; other distributions are not
            if not e["eq"]:
                w.true("unequal", not (objs[0] == objs[1]) and objs[0] != objs[1], "different distributions compare equal")
            elif origin[0] == origin[1]:
                w.true("equal", (objs[0] == objs[1]) and not (objs[0] != objs[1]), "one distribution, two objects, unequal")
    if os.path.exists(path):
        os.remove(path)


def posterior_run(chk, only=None, stride=None):
    q, s0 = chk.tier == "quick", chk.seed * 50
    ctx = dict(draws=1200 if q else 4000, every=9 if q else 5, only=only)
    return Run("PosteriorMC", dict(Shapes=vp.Raw("{<<1>>, <<2>>, <<3>>, <<1,1>>, <<2,2>>, <<3,3,3>>, <<2,1>>, <<1,3,2>>, <<1,2,1,1,2,1,1,1,2,1,1,2>>}"), Seeds=set(range(s0, s0 + (2 if q else 6))),
                                   MaxLen=4, Stride=stride or (7 if q else 5)), ["Distinct", "Symmetric"], replay_posterior, ctx=ctx, name="posterior", properties=["FileKept"])


def c22(chk):
    q = chk.tier == "quick"
    s0 = chk.seed * 50
    ctx = dict(draws=1200 if q else 4000, every=9 if q else 5)
    forms = vp.Raw('{<<"A">>, <<"c","A">>, <<"A","B">>, <<"H">>, <<"c","H">>, <<"N","c">>, <<"A","A">>, <<"c","B","A">>}')
    chk.execute([
        Run("BayesMC", dict(Forms=forms, Kinds={"d", "c"}, Solvers={"l2", "l2d", "tik", "tikd"}, Rs={1, 2, 3}, Ms={0, 1, 2},
                            Seeds=set(range(s0, s0 + (2 if q else 10))), MaxLen=4, Acts={"set", "draw", "predict", "keep", "bad"}, Stride=7 if q else 3),
            ["Minimum", "Inverse", "Determined"], replay_bayes, ctx=ctx, name="bayes"),
        posterior_run(chk),
    ])
    return ["distribution of draws: sample mean and second moments of standardised draws within 7-8 standard errors (fixed seeds)",
            "posteriors with zero residual are documented as refused and not generated"]


CHECKS = dict(C22=c22)
