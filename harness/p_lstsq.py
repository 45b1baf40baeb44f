"""Least-squares solvers (spec/Lstsq.tla, SolverMC.tla, RegMC.tla): C15, C16."""
import os, warnings
import numpy as np
import scipy.sparse as sp
import opinf
from vp import Run
from num import rat, V, Frozen

L = opinf.lstsq
DIM = (opinf.errors.DimensionalityError, ValueError)
NONE = 999
CLS = dict(plain=L.PlainSolver, l2=L.L2Solver, l2d=L.L2DecoupledSolver, tik=L.TikhonovSolver,
           tikd=L.TikhonovDecoupledSolver, tsvd=L.TruncatedSVDSolver, tls=L.TotalLeastSquaresSolver)


class Case:
    def __init__(self, b):
        self.c = b["cfg"]
        self.kind = self.c["kind"].split("_")[0]
        self.trunc = "_c" in self.c["kind"]
        self.s = self.c["s"]
        self.data = {i + 1: self.mk(d) for i, d in enumerate(b["head"]["data"])}
        self.regs = {j + 1: g for j, g in enumerate(b["head"]["regs"])}
        sv = self.data[1]["sv"]
        self.cond = None
        if self.trunc:
            s = self.eff(sv)
            n = 1 + self.s % len(s)
            lo = s[n] if n < len(s) else 0.0
            self.cond = (s[n - 1] + lo) / 2 / s[0]
        drv = dict(plain=[None, "gelsd", "gelss"] if self.trunc else [None, "gelsy", "gelss"], l2=["gesdd", "gesvd"],
                   l2d=["gesdd", "gesvd"], tik=[None, "gelss"] if self.trunc else [None, "gelss", "gelsy"],
                   tsvd=["gesdd", "gesvd"], tls=["gesdd", "gesvd"])
        drv["tikd"] = drv["tik"]
        self.drv = drv[self.kind][self.s % len(drv[self.kind])]

    def eff(self, sv):
        """singular values of the system actually truncated (with the regulariser 2 I for Tikhonov kinds)"""
        s = np.asarray(sv, dtype=float)
        return s if self.kind == "plain" else np.sqrt(s ** 2 + 4.0)

    def mk(self, d):
        out = {k: rat(d[k]) for k in ("D", "Z", "O", "res")}
        out["sv"] = rat(d["sv"]) if d["sv"] else None
        out["ans"] = [rat(a) for a in d["ans"]]
        out["ansg"] = [rat(a) for a in d["ansg"]]
        out["err2"] = rat(d["err2"])
        # exact rational data only when no entry left the representable range
        out["ok"] = all(np.all(np.isfinite(a)) for a in out["ans"] + out["ansg"])
        Din, Zin = out["D"], out["Z"]
        if self.s % 3 == 1 and np.all(Din == np.round(Din)) and np.all(Zin == np.round(Zin)):
            Din, Zin = Din.astype(int), Zin.astype(int)
        if Zin.shape[0] == 1 and self.s % 2:
            Zin = Zin[0]
        out["Din"], out["Zin"] = Din, Zin
        return out

    def reg(self, j, variant=0):
        """the regulariser as handed to the solver"""
        if j == 0:
            return None
        g = self.regs[j]
        if g["form"] == "scalar":
            return float(rat(g["lam"])[0])
        if g["form"] == "vector":
            v = rat(g["lam"])
            return v if (self.s + variant) % 2 else list(v)
        mats = [rat(x) for x in g["G"]]
        out = []
        for i, G in enumerate(mats):
            w = (self.s + i + j + variant)
            if g["form"] == "diag":
                out.append(np.diag(G).copy() if w % 2 else list(np.diag(G)))
            else:
                out.append((G, sp.csr_matrix(G), G.tolist())[w % 3])
        if self.kind == "tik":
            return out[0]
        return out

    def rows(self, j, i):
        """regulariser j as one matrix per row of the answer to data i"""
        r, d = self.data[i]["Z"].shape[0], self.data[i]["D"].shape[1]
        if self.kind in ("plain", "tls", "tsvd"):
            return [np.zeros((0, d))] * r
        g = self.regs[j]
        if g["form"] == "scalar":
            return [np.eye(d) * rat(g["lam"])[0]] * r
        if g["form"] == "vector":
            return [np.eye(d) * x for x in rat(g["lam"])]
        mats = [rat(x) for x in g["G"]]
        return mats * r if self.kind == "tik" else mats

    def new(self, reg, method="lstsq"):
        k = self.kind
        if k == "plain":
            return L.PlainSolver(cond=self.cond, lapack_driver=self.drv)
        if k in ("l2", "l2d"):
            return CLS[k](self.reg(reg), lapack_driver=self.drv)
        if k in ("tik", "tikd"):
            return CLS[k](self.reg(reg), method=method, cond=self.cond, lapack_driver=self.drv)
        if k == "tsvd":
            return L.TruncatedSVDSolver(None if reg == NONE else reg, lapack_driver=self.drv)
        return L.TotalLeastSquaresSolver(lapack_driver=self.drv)


def null_free(S, x):
    """x has no component in the null space of S"""
    u, s, vt = np.linalg.svd(S)
    rank = int(np.sum(s > 1e-9 * max(1.0, s[0]))) if s.size else 0
    return rank == S.shape[1], (vt[rank:] @ x if rank < S.shape[1] else np.zeros(0))


def observe(C, sol, st, method, v, tag=""):
    """everything the specification determines about solver `sol` in state st"""
    i, j = st["dat"], st["reg"]
    k = C.kind
    v.call("call.str", lambda: (str(sol), repr(sol)))
    if k == "tsvd":
        v.eq(tag + "modes", NONE if sol.num_svdmodes is None else sol.num_svdmodes, j)
    if k in ("l2", "l2d", "tik", "tikd"):
        if j == 0:
            v.true(tag + "regularizer", sol.regularizer is None, repr(sol.regularizer))
        elif k == "l2":
            v.eq(tag + "regularizer", sol.regularizer, rat(C.regs[j]["lam"])[0])
        elif k == "l2d":
            v.eq(tag + "regularizer", sol.regularizer, rat(C.regs[j]["lam"]))
        elif k == "tik":
            v.eq(tag + "regularizer", sol.regularizer, rat(C.regs[j]["G"][0]))
        else:
            v.true(tag + "regularizer", len(sol.regularizer) == len(C.regs[j]["G"]), len(sol.regularizer))
            for G, E in zip(sol.regularizer, C.regs[j]["G"]):
                v.eq(tag + "regularizer", G, rat(E))
    if k in ("tik", "tikd"):
        v.true(tag + "method", sol.method == method, sol.method)
    if i == 0:
        v.true(tag + "dims", sol.k is None and sol.d is None and sol.r is None and sol.data_matrix is None
               and sol.lhs_matrix is None, "untrained solver reports dimensions %s" % [sol.k, sol.d, sol.r])
        v.raises(tag + "untrained", AttributeError, sol.solve)
        v.raises(tag + "untrained", AttributeError, sol.cond)
        v.raises(tag + "untrained", AttributeError, lambda: sol.residual(C.data[1]["O"]))
        if hasattr(sol, "regcond"):
            v.raises(tag + "untrained", AttributeError, sol.regcond)
            v.raises(tag + "untrained", AttributeError, lambda: sol.regresidual(C.data[1]["O"]))
            v.raises(tag + "untrained", AttributeError, sol.posterior)
        if k == "tsvd":
            v.raises(tag + "untrained", AttributeError, sol.tcond)
            v.true(tag + "dims", sol.max_modes is None)
        if k == "tls":
            v.raises(tag + "untrained", AttributeError, lambda: sol.error)
            v.raises(tag + "untrained", AttributeError, lambda: sol.augcond)
        return
    d = C.data[i]
    D, Z, O = d["D"], d["Z"], d["O"]
    v.eq(tag + "dims", [sol.k, sol.d, sol.r], [D.shape[0], D.shape[1], Z.shape[0]])
    v.eq(tag + "data", sol.data_matrix, D)
    v.eq(tag + "data", sol.lhs_matrix, Z)
    v.eq(tag + "residual", sol.residual(O), d["res"])
    if Z.shape[0] == 1:
        v.eq(tag + "residual.1d", sol.residual(O[0]), d["res"])
    v.raises(tag + "residual.refuse", DIM, lambda: sol.residual(O[:, 1:]))
    sing = np.linalg.svd(D, compute_uv=False)
    full = np.linalg.matrix_rank(D) == min(D.shape)
    if full:
        v.eq(tag + "cond", sol.cond(), sing[0] / sing[-1], rtol=1e-6)
    if k in ("l2", "l2d", "tik", "tikd") and j == 0:
        v.raises(tag + "unregularized", AttributeError, sol.solve)
        v.raises(tag + "unregularized", AttributeError, sol.regcond)
        v.raises(tag + "unregularized", AttributeError, lambda: sol.regresidual(O))
        return
    G = C.rows(j, i)
    unique = [null_free(np.vstack((D, g)), np.zeros(D.shape[1]))[0] for g in G]
    if method == "normal" and not all(unique):
        return
    ok, X = v.call("call.solve", sol.solve)
    if not ok:
        return
    if not v.true(tag + "solve.shape", np.shape(X) == O.shape, np.shape(X)):
        return
    scale = max(1.0, np.abs(X).max())
    if C.trunc and k == "plain" or C.trunc and method == "lstsq":
        s = C.eff(d["sv"])
        n = int(np.sum(s / s[0] > C.cond))
        if np.min(np.abs(s / s[0] - C.cond)) > 1e-6 and d["ok"]:
            v.eq(tag + "solve.truncated", X, (d["ans"] if k == "plain" else d["ansg"])[n - 1])
    elif k == "tsvd":
        if d["ok"]:
            v.eq(tag + "solve", X, d["ans"][j - 1])
        v.eq(tag + "tcond", sol.tcond(), d["sv"][0] / d["sv"][j - 1])
        v.eq(tag + "max_modes", sol.max_modes, min(D.shape))
    elif k == "tls":
        if d["ok"]:
            v.eq(tag + "solve", X, d["ans"][0])
        v.eq(tag + "error", sol.error ** 2, d["err2"])
        v.eq(tag + "augcond", sol.augcond, d["sv"][0] / d["sv"][-1])
    else:
        for a in range(O.shape[0]):
            grad = (D.T @ D + G[a].T @ G[a]) @ X[a] - D.T @ Z[a]
            v.eq(tag + "solve.normal_equations", grad / scale, np.zeros(D.shape[1]), atol=1e-7)
            if not unique[a]:
                v.eq(tag + "solve.minimum_norm", null_free(np.vstack((D, G[a])), X[a])[1] / scale,
                     np.zeros(D.shape[1] - np.linalg.matrix_rank(np.vstack((D, G[a])))), atol=1e-7)
    if k in ("l2", "l2d", "tik", "tikd"):
        v.eq(tag + "regresidual", sol.regresidual(O), d["res"] + rat(C.regs[j]["part"][i - 1]))
        v.raises(tag + "residual.refuse", DIM, lambda: sol.regresidual(O[:, 1:]))
        conds = [np.linalg.cond(np.vstack((D, g))) for g in G]
        if all(unique):
            rc = sol.regcond()
            v.eq(tag + "regcond", rc, conds[0] if k in ("l2", "tik") else np.array(conds), rtol=1e-6)
    # asking again changes nothing
    v.eq(tag + "solve.again", sol.solve(), X, atol=0, rtol=0)


def fresh_same(C, sol, st, method, v):
    """a fresh solver with the current settings fitted once to the current data answers the same"""
    i, j = st["dat"], st["reg"]
    if i == 0:
        return
    f = C.new(j, method).fit(C.data[i]["Din"].copy(), C.data[i]["Zin"].copy())
    if C.kind in ("l2", "l2d", "tik", "tikd") and j == 0:
        return
    try:
        X = f.solve()
    except Exception:
        return
    v.eq("fresh.solve", sol.solve(), X, atol=1e-10)
    v.eq("fresh.residual", sol.residual(X), f.residual(X), atol=1e-10)
    v.eq("fresh.cond", sol.cond(), f.cond(), rtol=1e-9)


def replay(b, rec, ctx):
    C = Case(b)
    k = C.kind
    v = V(rec, C.c["kind"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = dict(dat=0, reg=NONE if k == "tsvd" else 0)
        method = "lstsq"
        sol = C.new(st["reg"])
        if C.s % 2:
            observe(C, sol, st, method, v)
        others, buffers = [], {}
        reuse = (C.s + len(b["hist"])) % 2 == 0      # the caller refills the same arrays for every fit
        for n, step in enumerate(b["hist"]):
            a, val, ok, new = step["a"]["n"], step["a"]["v"], step["ok"], step["st"]
            if a == "fit":
                d = C.data[val]
                if reuse and ok and not others:
                    d = {x: buffers.setdefault((x, d[x].shape), d[x].astype(float)) for x in ("Din", "Zin")}
                    for x in d:
                        d[x][...] = C.data[val][x]
                fz = Frozen(data_matrix=d["Din"], lhs_matrix=d["Zin"])
                if ok:
                    done, out = v.call("call.fit", lambda: sol.fit(d["Din"], d["Zin"]))
                    v.true("fit.returns_self", out is sol)
                else:
                    v.raises("refuse.fit", DIM, lambda: sol.fit(d["Din"], d["Zin"]))
                fz.check(v, "mutated.fit")
            elif a == "badfit":
                d = C.data[1 + (C.s % 2)]
                D, Z = d["D"], d["Z"]
                if val == 1:
                    v.raises("refuse.fit", DIM, lambda: sol.fit(D, np.hstack((Z, Z[:, :1]))))
                    v.raises("refuse.fit", DIM, lambda: sol.fit(D[:-1], Z if Z.shape[0] > 1 else Z[0]))
                else:
                    v.raises("refuse.fit", DIM, lambda: sol.fit(D[:, 0], Z))
                    v.raises("refuse.fit", DIM, lambda: sol.fit(D, Z[None]))
                    if k == "tls":
                        kk = D.shape[1] + Z.shape[0] - 1
                        v.raises("refuse.fit", DIM, lambda: sol.fit(D[:kk], Z[:, :kk]))
            elif a == "set":
                if k == "tsvd":
                    def put():
                        sol.num_svdmodes = None if val == NONE else val
                else:
                    arg = C.reg(val, n)
                    fz = Frozen(**{"reg": arg}) if isinstance(arg, np.ndarray) else None

                    def put():
                        sol.regularizer = arg
                if ok:
                    v.call("call.set", put)
                else:
                    v.raises("refuse.set", DIM, put)
                if k != "tsvd" and fz:
                    fz.check(v, "mutated.set")
            elif a == "badset":
                def bad(x):
                    if k == "tsvd":
                        sol.num_svdmodes = x
                    else:
                        sol.regularizer = x
                dd = sol.d or C.c["d"]
                rr = sol.r or C.c["r"]
                E = (TypeError, ValueError)
                if k == "tsvd":
                    v.raises("refuse.set", E, lambda: bad([2.5, "2"][val - 1]))
                elif k == "l2":
                    v.raises("refuse.set", E, lambda: bad([-1.0, np.ones(2)][val - 1]))
                elif k == "l2d":
                    v.raises("refuse.set", E, lambda: bad([[-1.0] * rr, np.ones((rr, 1))][val - 1]))
                elif val == 1:
                    g = np.array([1.0] * (dd - 1) + [-1.0])
                    v.raises("refuse.set", E, lambda: bad(g if k == "tik" else [np.eye(dd)] * (rr - 1) + [g]))
                elif sol.d is not None:
                    g = np.ones((dd + 1, dd))
                    v.raises("refuse.set", E, lambda: bad(g if k == "tik" else [np.eye(dd)] * (rr - 1) + [g]))
                    if k == "tikd":
                        v.raises("refuse.set", E, lambda: bad([np.eye(dd)] * (rr + 1)))
            elif a == "method":
                if val == 0:
                    method = "normal" if method == "lstsq" else "lstsq"
                    sol.method = method
                else:
                    def badm():
                        sol.method = "cholesky"
                    v.raises("refuse.method", ValueError, badm)
            elif a == "copy":
                done, cp = v.call("call.copy", sol.copy)
                if done:
                    v.true("copy.type", type(cp) is type(sol) and cp is not sol, type(cp))
                    # a throw-away copy is changed in every way; the original must not notice
                    tw = sol.copy()
                    if k in ("tik", "l2d") and tw.regularizer is not None:
                        tw.regularizer *= 3
                    if k == "tikd" and tw.regularizer is not None:
                        tw.regularizer[0] *= 3
                        tw.regularizer.reverse()
                    tw.reset()
                    if k == "tsvd":
                        tw.num_svdmodes = 1
                    tw.fit(2 * C.data[2]["D"], 3 * C.data[2]["Z"])
                    others.append((sol, dict(st), method))
                    if n % 2 == C.s % 2:
                        others[-1] = (cp, dict(st), method)
                    else:
                        sol = cp
            elif a == "saveload":
                fn = "solver_%d.h5" % n
                if os.path.exists(fn):
                    os.remove(fn)
                done, _ = v.call("call.save", lambda: sol.save(fn))
                if done:
                    done, ld = v.call("call.load", lambda: type(sol).load(fn))
                if done:
                    v.true("load.type", type(ld) is type(sol), type(ld))
                    if hasattr(sol, "options"):
                        v.true("load.options", dict(ld.options) == dict(sol.options), (ld.options, sol.options))
                    others.append((sol, dict(st), method))
                    sol = ld
                if os.path.exists(fn):
                    os.remove(fn)
            elif a == "reset":
                sol.reset()
            st = new
            if n == len(b["hist"]) - 1 or ctx.get("each"):
                observe(C, sol, st, method, v)
        fresh_same(C, sol, st, method, v)
        for o, s, m in others:
            observe(C, o, s, m, v, "others.")
        if st["dat"] and not (k in ("l2", "l2d", "tik", "tikd") and st["reg"] == 0) and method == "lstsq":
            v.call("call.verify", sol.verify)
            observe(C, sol, st, method, v, "verify.")


def replay_reg(b, rec, ctx):
    c = b["cfg"]
    v = V(rec, "regularizer")
    OPS = opinf.operators
    one = dict(c="Constant", A="Linear", H="Quadratic", G="Cubic", B="Input", N="StateInput")
    ops = []
    for o in b["ops"]:
        if o["w"] == 0:
            ops.append(getattr(OPS, one[o["t"]] + "Operator")())
        else:
            ops.append(getattr(OPS, "Affine" + one[o["t"]] + "Operator")(
                coeffs=[lambda mu: mu[0], lambda mu: mu[0] ** 2]))
    lam = b["lam"] if c["s"] % 2 else np.array(b["lam"], dtype=float)
    f = L.TikhonovSolver.get_operator_regularizer
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = c["m"]
        ok, g = v.call("call.get_operator_regularizer", lambda: f(ops, lam, c["r"], m))
        if ok:
            v.eq("operator_regularizer", g, np.array(b["diag"], dtype=float))
            v.eq("operator_regularizer.set", L.TikhonovSolver(g).regularizer, np.diag(np.array(b["diag"], dtype=float)))
        v.raises("refuse.count", ValueError, lambda: f(ops, list(lam) + [1.0], c["r"], m))
        if b["needm"]:
            v.raises("refuse.inputs", ValueError, lambda: f(ops, lam, c["r"]))


ALL = {"fit", "badfit", "set", "badset", "method", "copy", "saveload", "reset"}
INV = ["NoBad", "SVDSound", "Consistent"]
KS = {"plain", "l2", "l2d", "tik", "tikd", "tsvd", "plain_c", "tik_c", "tikd_c"}


def c15(chk):
    q = chk.tier == "quick"
    s = chk.seed * 10
    acts = {"fit", "set"}
    seeds = {s, s + 1, s + 2} if q else set(range(s, s + 12))
    dims = {1, 2, 3} if q else {1, 2, 3, 4}
    ctx = dict(only=r"solve|resid|reg|cond|tcond|dims|data|error|augcond|max_modes|modes|unregularized|operator_regularizer|refuse\.(count|inputs)")
    chk.execute([
        Run("SolverMC", dict(Ks=KS, Dims=dims, Rs={1, 2}, Slack={-1, 0, 3}, Seeds=seeds, MaxLen=2, Acts=acts),
            INV, replay, name="minimisers", ctx=ctx),
        Run("SolverMC", dict(Ks={"tik", "tikd"}, Dims={2, 3} if q else dims, Rs={1, 2}, Slack={0, 3}, Seeds=set(range(s, s + (2 if q else 9))), MaxLen=3,
                             Acts=acts | {"method"}), INV, replay, name="methods", ctx=ctx),
        Run("SolverMC", dict(Ks={"tls"}, Dims=dims, Rs={1, 2}, Slack={2, 3, 4}, Seeds=seeds, MaxLen=1, Acts=acts),
            INV, replay, name="total", ctx=ctx),
        Run("RegMC", dict(Rs={1, 2, 3}, Ms={0, 1, 2}, Seeds={s, s + 1}, MaxOps=2 if q else 3), [], replay_reg,
            name="operator_regularizer", ctx=ctx),
    ])
    return ["small rational data; minimisers decided by the normal equations and, where the SVD is prescribed, by the exact answer"]


def c16(chk):
    q = chk.tier == "quick"
    s = chk.seed * 10 + 3
    one = dict(Dims={2}, Rs={1}, Slack={2})
    runs = [Run("SolverMC", dict(Ks=KS | {"tls"}, Seeds={s} if q else {s, s + 1},
                                 MaxLen=2 if q else 3, Acts=ALL, **one), INV, replay, name="histories", ctx=dict(each=True)),
            Run("SolverMC", dict(Ks=KS | {"tls"}, Seeds=set(range(s, s + 3)),
                                 MaxLen=8, Acts=ALL, Dims={2, 3}, Rs={1, 2}, Slack={2}), ["Consistent"], replay, name="long",
                simulate=120 if q else 2500, depth=12, seed=chk.seed, ctx=dict(each=True))]
    chk.execute(runs)
    return ["histories: all of length 2 (thorough: 3) and a random sample of length 8"]


CHECKS = dict(C15=c15, C16=c16)
