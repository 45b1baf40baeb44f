"""Parametric operators (spec/ParamOpMC.tla) and models (spec/ParamMC.tla): C11, C14."""
import warnings
import numpy as np
import scipy.interpolate as spi
import opinf
from vp import Run
from num import V, Frozen, ints, rat, close, why

O, M = opinf.operators, opinf.models
NAME = dict(c="Constant", A="Linear", H="Quadratic", G="Cubic", B="Input", N="StateInput")
PLAIN = {t: getattr(O, n + "Operator") for t, n in NAME.items()}
AFF = {t: getattr(O, "Affine" + n + "Operator") for t, n in NAME.items()}
INT = {t: getattr(O, "Interp" + n + "Operator") for t, n in NAME.items()}
REFUSE = (ValueError, TypeError, opinf.errors.DimensionalityError)


# ----------------------------------------------- coefficient functions
def comp(mu, k):
    return np.atleast_1d(mu)[k]


def poly(mu):
    return np.array([1.0, comp(mu, 0), comp(mu, 0) * comp(mu, -1)])


def one(mu):
    return comp(mu, 0) + 2.0


def affine_args(th, p, h):
    if th == "int":
        return (p,), {}
    if th == "poly":
        return (poly,), dict(nterms=3)
    if th == "iter":
        return (([lambda mu: comp(mu, 0) + 1, lambda mu: 2 * comp(mu, -1) - 1], (lambda mu: comp(mu, 0) + 1, lambda mu: 2 * comp(mu, -1) - 1))[h % 2],), {}
    return (one,), dict(nterms=1)


# ----------------------------------------------- interpolators of the user
class PLin:
    """piecewise linear"""

    def __init__(self, points, values):
        o = np.argsort(points)
        self.x, self.y = np.asarray(points)[o], np.asarray(values)[o]

    def __call__(self, x):
        k = int(np.clip(np.searchsorted(self.x, x, side="right") - 1, 0, len(self.x) - 2))
        w = (x - self.x[k]) / (self.x[k + 1] - self.x[k])
        return (1 - w) * self.y[k] + w * self.y[k + 1]


class Nearest:
    def __init__(self, points, values):
        self.x, self.y = np.atleast_2d(np.asarray(points).T).T, np.asarray(values)

    def __call__(self, x):
        return self.y[np.argmin(((self.x - np.atleast_1d(x)) ** 2).sum(axis=1))]


def interpolator(kind, n, h):
    """classes implementing one kind of interpolation"""
    if kind == "poly":
        return [None, spi.BarycentricInterpolator, spi.KroghInterpolator][h % (3 if n <= 4 else 2)]
    if kind == "simplex":
        return [None, spi.LinearNDInterpolator][h % 2]
    return dict(plin=PLin, nearest=Nearest)[kind]


def params(P, h):
    """ways of giving the same parameters"""
    a = np.array(P, dtype=float)
    if a.shape[1] == 1 and h % 3 != 1:
        return a.ravel() if h % 3 == 0 else list(a.ravel())
    return a if h % 2 else [x for x in a]


def one_param(mu, h):
    """ways of giving one parameter value"""
    mu = np.array(mu, dtype=float)
    if mu.size == 1 and h % 3 != 1:
        return float(mu[0]) if h % 3 == 0 else [float(mu[0])]
    return mu


def shaped(t, E):
    return E[:, 0] if t == "c" else E


def block(Es):
    return np.hstack(Es)


def replay_op(b, rec, ctx):
    c, hist = b["cfg"], b["hist"]
    t, how, p, r, m = c["t"], c["how"], c["p"], c["r"], c["m"]
    v = V(rec, "%s.%s.%s.p%d.n%d" % (how, t, c["th"], p, c["n"]))
    h = c["s"] + len(hist) + hist[-1]["d"] * 2
    data = {1: [ints(E) for E in b["E1"]], 2: [ints(E) for E in b["E2"]]}
    q, u = ints(b["q"]), (ints(b["u"]) if m else None)
    Vr, Wr = ints(b["vw"]["V"]), ints(b["vw"]["W"])
    cls = (AFF if how == "affine" else INT)[t]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _replay_op(b, v, c, hist, t, how, p, r, m, h, data, q, u, Vr, Wr, cls)


def mk(c, cls, P, h, entries=None, kind=None, fromblock=False):
    kw = {}
    if entries is not None:
        kw = dict(entries=entries, fromblock=fromblock)
    if c["how"] == "affine":
        a, k = affine_args(c["th"], c["p"], h)
        return cls(*a, **k, **kw)
    return cls(params(P, h), InterpolatorClass=interpolator(kind or c["th"], c["n"], h), **kw)


def _replay_op(b, v, c, hist, t, how, p, r, m, h, data, q, u, Vr, Wr, cls):
    P = b["P"]
    nE = len(data[1])
    first = [s for s in hist if s["a"] == "set"][0]
    construct = h % 4 == 0 and hist[0]["a"] == "set"
    op = None
    for i, st in enumerate(hist):
        v.rec.count("call." + st["a"])
        hh = h + 3 * i
        if st["a"] == "set":
            Es = [shaped(t, E) for E in data[st["d"]]]
            form = hh % 3
            ent = block(data[st["d"]]) if form == 1 else Es
            if form == 1 and r == 1 and t == "c":
                ent = ent.reshape(1, -1)
            if form == 2:
                ent = np.array(Es)
            fz = Frozen(**{"E%d" % k: E for k, E in enumerate(Es)})
            if i == 0 and construct:
                ok, op = v.call("call.new", lambda: mk(c, cls, P, h, ent, st["kind"], form == 1))
                if not ok:
                    return
            else:
                if op is None:
                    op = mk(c, cls, P, h)
                    v.true("untrained", op.entries is None)
                    v.raises("untrained.evaluate", AttributeError, lambda: op.evaluate(one_param(b["mus"][0], 1)))
                    v.raises("untrained.apply", AttributeError, lambda: op.apply(one_param(b["mus"][0], 1), q, u))
                if how == "interp" and i and op.entries is not None and h % 2:
                    pass
                ok, _ = v.call("call.set_entries", lambda: op.set_entries(ent, fromblock=form == 1))
                if not ok:
                    return
            fz.check(v, "mutated.entries")
        else:
            if op is None:
                op = mk(c, cls, P, h)
            ok, _ = v.call("call.set_interpolator", lambda: op.set_interpolator(interpolator(st["kind"], c["n"], hh)))
            if not ok:
                return
        if st["d"] == 0:
            continue
        Es = data[st["d"]]
        v.true("entries.number", len(op.entries) == nE)
        for k in range(nE):
            v.eq("entries", np.reshape(op.entries[k], Es[k].shape), Es[k])
        v.true("dims", op.state_dimension == r and (not m or op.input_dimension == m) and tuple(op.shape) == np.shape(shaped(t, Es[0])))
        gal = {}
        for j, o in enumerate(st["obs"]):
            mu = one_param(rat(o["mu"]), hh + j)
            E = rat(o["E"])
            want = shaped(t, E)
            ok, ev = v.call("call.evaluate", lambda: op.evaluate(mu))
            if not ok:
                continue
            v.true("evaluate.type", type(ev) is PLAIN[t], type(ev))
            v.eq("evaluate", ev.entries, want)
            # the evaluated operator belongs to the caller
            mine = op.evaluate(mu)
            mine.set_entries(mine.entries * 0)
            v.eq("apply", op.apply(mu, q, u), rat(o["app"]))
            v.eq("apply.evaluate", op.apply(mu, q, u), ev.apply(q, u))
            v.eq("jacobian", np.broadcast_to(op.jacobian(mu, q, u), (r, r)), rat(o["jac"]))
            Q2 = np.column_stack((q, q))
            U2 = np.column_stack((u, u)) if m else None
            v.eq("apply.batch", np.broadcast_to(np.reshape(op.apply(mu, Q2, U2), (r, -1)), (r, 2)), np.column_stack((rat(o["app"]),) * 2))
            # Galerkin projection and evaluation commute
            if h % 2 == 0 or j == 0:
                z = ints(o["z"])
                if np.all(np.isfinite(rat(o["pg"]))):
                    W = None if np.array_equal(Vr, Wr) else Wr
                    key = W is None
                    if key not in gal:
                        gal[key] = op.galerkin(Vr, W)
                    g = gal[key]
                    v.true("galerkin.type", type(g) is cls)
                    v.eq("galerkin", g.apply(mu, z, u), rat(o["pg"]))
                    v.eq("galerkin.evaluate", g.evaluate(mu).entries, ev.galerkin(Vr, W).entries)
        if how == "interp":
            # any order of the data gives the same operator
            pm = np.array(b["perm"]) - 1
            op2 = cls(params([P[k] for k in pm], hh), [shaped(t, Es[k]) for k in pm], InterpolatorClass=interpolator(st["kind"], c["n"], hh))
            for j, o in enumerate(st["obs"]):
                v.eq("order", op2.evaluate(one_param(rat(o["mu"]), j)).entries, shaped(t, rat(o["E"])))
            v.raises("refuse.training_parameters", AttributeError, lambda: op.set_training_parameters(params(P, 0)))
            v.eq("order.kept", op.evaluate(one_param(rat(st["obs"][0]["mu"]), 1)).entries, shaped(t, rat(st["obs"][0]["E"])))
        refusals(op, c, Es, t, q, u, v, st, cls)
    if op is None or op.entries is None:
        return
    blocks(op, b, c, cls, t, r, m, v, h, data[hist[-1]["d"]])


def refusals(op, c, Es, t, q, u, v, st, cls):
    p, n = c["p"], len(Es)
    shp = [shaped(t, E) for E in Es]
    bad = [np.arange(1.0, p + 2)] + ([np.arange(1.0, p)] if p > 1 else [])
    if p > 1:
        bad.append(1.5)
    for mu in bad:
        v.raises("refuse.parameter", REFUSE, lambda: op.evaluate(mu))
        v.raises("refuse.parameter", REFUSE, lambda: op.apply(mu, q, u))
        v.raises("refuse.parameter", REFUSE, lambda: op.jacobian(mu, q, u))
    v.raises("refuse.count", REFUSE, lambda: op.set_entries(shp + shp[:1]))
    if n > 1:
        v.raises("refuse.count", REFUSE, lambda: op.set_entries(shp[:-1]))
        v.raises("refuse.shapes", REFUSE, lambda: op.set_entries(shp[:-1] + [np.vstack((Es[-1], Es[-1]))[:, 0] if t == "c" else np.vstack((Es[-1], Es[-1]))]))
    for k in range(n):
        v.eq("refuse.kept", np.reshape(op.entries[k], Es[k].shape), Es[k])
    if st["obs"]:
        o = st["obs"][-1]
        v.eq("refuse.kept", op.evaluate(one_param(rat(o["mu"]), 1)).entries, shaped(t, rat(o["E"])))


def blocks(op, b, c, cls, t, r, m, v, h, Es):
    mus = params(b["mus"], h)
    mus = mus if h % 2 else list(mus)
    Qs = [ints(x["Q"]) for x in b["blk"]]
    Us = [ints(x["U"]) for x in b["blk"]] if m else None
    fz = Frozen(**{"Q%d" % i: Q for i, Q in enumerate(Qs)})
    ok, D = v.call("call.datablock", lambda: op.datablock(mus, Qs, Us) if m or h % 2 else op.datablock(mus, Qs))
    if not ok:
        return
    fz.check(v, "mutated.datablock")
    s = len(Qs)
    d = op.operator_dimension(s, r, m)
    v.true("operator_dimension", d == sum(E.shape[1] for E in Es), d)
    v.true("datablock.shape", D.shape == (d, sum(Q.shape[1] for Q in Qs)), D.shape)
    Z = np.hstack([rat(x["Z"]) for x in b["blk"]])
    if D.shape == (d, Z.shape[1]):
        v.eq("datablock", block(Es) @ D, Z)
        # the block gives back the entries
        new = cls(mus, InterpolatorClass=interpolator(c["th"], c["n"], h)) if c["how"] == "interp" else mk(c, cls, None, h)
        new.set_entries(block(Es), fromblock=True)
        for k, E in enumerate(Es):
            v.eq("fromblock", np.reshape(new.entries[k], E.shape), E)
    if c["how"] == "affine":                # as many coefficients as terms
        n = len(Es)
        ops = [cls(lambda mu: np.append(op.coeffs(mu), 1.0), nterms=n, entries=[shaped(t, E) for E in Es])]
        if n > 1:
            ops.append(cls(lambda mu: np.atleast_1d(op.coeffs(mu))[:-1], nterms=n, entries=[shaped(t, E) for E in Es]))
        for o in ops:
            v.raises("refuse.coeffs", REFUSE, lambda: o.evaluate(mus[0]))
            v.raises("refuse.coeffs", REFUSE, lambda: o.apply(mus[0], Qs[0][:, 0], Us[0][:, 0] if m else None))
            v.raises("refuse.coeffs", REFUSE, lambda: o.datablock(mus, Qs, Us))
    v.raises("refuse.datablock", REFUSE, lambda: op.datablock(mus, Qs[:-1], Us[:-1] if m else None))
    v.raises("refuse.datablock", REFUSE, lambda: op.datablock(mus[:-1], Qs, Us))
    if m:
        v.raises("refuse.datablock", REFUSE, lambda: op.datablock(mus, Qs, Us[:-1]))


def c11(chk):
    q, s = chk.tier == "quick", chk.seed * 10
    chk.execute([Run("ParamOpMC", dict(Ts={"c", "A", "H", "G", "B", "N"}, Hows={"affine", "interp"}, Rs={1, 2, 3}, Ms={0, 1, 2}, Ps={1, 2, 3} if not q else {1, 2},
                                       Seeds=set(range(s, s + (1 if q else 5))), MaxLen=2), ["Reproduces", "SumOne"], replay_op, name="operators")])
    return ["entries, states and inputs are small integers; parameters are rationals; tolerance 1e-7"]


# ------------------------------------------------------------------- models
def term_op(x, c, E, PK, h):
    """the operator of one term of the model: known (with entries E) or to be inferred"""
    t, how, th = x["t"], x["how"], x["th"]
    if how == "plain":
        return PLAIN[t](shaped(t, E[0])) if x["known"] else PLAIN[t]()
    if how == "affine":
        a, kw = affine_args(th, c["p"], h)
        if x["known"]:
            kw = dict(kw, entries=[shaped(t, e) for e in E])
        return AFF[t](*a, **kw)
    if x["known"]:
        return INT[t](params(PK, h), [shaped(t, e) for e in E])
    return INT[t]()


def sizes(c, x):
    return dict(plain=1, affine=dict(int=c["p"], poly=3, iter=2, one=1).get(x["th"], 0), interp=None)[x["how"]]


def unknown_matrix(mod, c):
    cols = []
    for x, op in zip(c["ts"], mod.operators):
        if x["known"]:
            continue
        if op.entries is None:
            return None
        es = [op.entries] if x["how"] == "plain" else op.entries
        cols += [np.reshape(e, (c["r"], -1)) for e in es]
    return np.hstack(cols)


def dataset(d, m, perm=None, h=0):
    P, sets = d["P"], d["sets"]
    o = range(len(sets)) if perm is None else [k - 1 for k in perm]
    ps = params([P[k] for k in o], h)
    Q = [ints(sets[k]["Q"]) for k in o]
    Z = [rat(sets[k]["Z"]) for k in o]
    U = [ints(sets[k]["U"]) for k in o] if m else None
    if m == 1 and h % 2:
        U = [u[0] for u in U]
    return ps, Q, Z, U


def replay_model(b, rec, ctx):
    c = b["cfg"]
    v = V(rec, "%s.%s.p%d.reg%d" % (c["kd"] + ("i" if c["all"] else ""), "".join(x["t"] + x["how"][0] + ("k" if x["known"] else "") for x in c["ts"]), c["p"], c["reg"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _replay_model(b, v, c)


def build(b, c, h, solver=None):
    data = b["data"][0]
    ops = [term_op(x, c, [ints(e) for e in E], b["PK"], h + i) for i, (x, E) in enumerate(zip(c["ts"], data["E"]))]
    name = "Discrete" if c["kd"] == "d" else "Continuous"
    pure = c["all"] and h % 4 != 3
    cls = getattr(M, ("Interp" if pure else "Parametric") + name + "Model")
    if solver is None:
        solver = None if c["reg"] == 0 else (float(c["reg"]) if h % 2 else opinf.lstsq.L2Solver(c["reg"]))
    arg = ops
    if pure and not any(x["known"] for x in c["ts"]) and h % 2:
        arg = "".join(x["t"] for x in c["ts"])
    return cls(arg, solver=solver), pure


def rhs_of(mod, kd, mu, q, u):
    if kd == "d":
        return mod.rhs(mu, q, u)
    return mod.rhs(0.5, mu, q, (lambda t: u) if u is not None else None)


def jac_of(mod, kd, mu, q, u):
    if kd == "d":
        return mod.jacobian(mu, q, u)
    return mod.jacobian(0.5, mu, q, (lambda t: u) if u is not None else None)


def _replay_model(b, v, c):
    from p_model import ols_ok
    r, m, kd, p = c["r"], c["m"], c["kd"], c["p"]
    hist = b["hist"]
    h = c["s"] + 3 * len(c["ts"]) + sum(len(x["a"]) + x["d"] for x in hist)
    ok, bm = v.call("call.new", lambda: build(b, c, h))
    if not ok:
        return
    mod, pure = bm
    nunk = sum(not x["known"] for x in c["ts"])
    mu0 = one_param(b["data"][0]["P"][0], 1)
    v.raises("untrained.rhs", (AttributeError, RuntimeError), lambda: rhs_of(mod, kd, mu0, np.ones(r), np.ones(m) if m else None))
    for i, st in enumerate(hist):
        a, d = st["a"], st["d"]
        v.rec.count("call." + a)
        x = b["data"][d - 1]
        if a in ("fit", "permuted"):
            ps, Q, Z, U = dataset(x, m, b["perm"][d - 1] if a == "permuted" else None, h + i)
            fz = Frozen(**{"a%d" % k: y for k, y in enumerate(Q + Z + (U or []))})
            ok, out = v.call("call.fit", lambda: mod.fit(ps, Q, Z, *((U,) if m else ())))
            if not ok:
                return
            v.true("fit.self", out is mod)
            fz.check(v, "mutated.fit")
        elif a == "refit":
            ok, out = v.call("call.refit", lambda: mod.refit())
            if not ok:
                return
            v.true("fit.self", out is mod)
        else:
            ok, mod = v.call("call.copy", lambda: mod.copy())
            if not ok:
                return
        known_kept(b, c, mod, v)
        Om = unknown_matrix(mod, c)
        if not v.true("fit.entries", Om is not None):
            return
        D = ints(x["D"])
        R = np.hstack([rat(y["R"]) for y in x["sets"]])
        perm = None
        if a == "permuted" or (a in ("refit", "copy") and last == "permuted"):
            perm = [k - 1 for k in b["perm"][d - 1]]
            last = "permuted"
        else:
            last = "fit"
        Oc = canonical(mod, c, Om, perm, len(x["P"]))
        ok, detail = ols_ok(Oc, D, R, float(c["reg"]))
        v.true("fit.minimiser" if perm is None else "fit.minimiser.permuted", ok, detail)
        exact = x["exact"] and c["reg"] == 0
        if exact:
            true = np.hstack([np.hstack([np.reshape(ints(e), (r, -1)) for e in E]) for y, E in zip(c["ts"], x["E"]) if not y["known"]])
            v.eq("fit.recovers", Oc, true, rtol=1e-6, atol=1e-6)
        v.true("fit.dims", mod.state_dimension == r and (not m or mod.input_dimension == m) and mod.parameter_dimension == p,
               "%s %s %s" % (mod.state_dimension, mod.input_dimension, mod.parameter_dimension))
        observe_model(b, c, mod, v, d, exact, h + i, perm)
    if kd == "d":
        trajectories(b, c, v, h)
    refused(b, c, mod, v, b["data"][hist[-1]["d"] - 1], hist[-1]["d"], h)


def canonical(mod, c, Om, perm, s):
    """columns of interpolated operators in the order of the specification"""
    if perm is None:
        return Om
    out, k = [], 0
    for x, op in zip(c["ts"], mod.operators):
        if x["known"]:
            continue
        n = len(op.entries) if x["how"] != "plain" else 1
        w = np.reshape(op.entries[0], (c["r"], -1)).shape[1] if x["how"] != "plain" else np.reshape(op.entries, (c["r"], -1)).shape[1]
        blk = [Om[:, k + j * w:k + (j + 1) * w] for j in range(n)]
        if x["how"] == "interp":
            new = [None] * n
            for j, o in enumerate(perm):
                new[o] = blk[j]
            blk = new
        out += blk
        k += n * w
    return np.hstack(out)


def known_kept(b, c, mod, v):
    for k, x in enumerate(c["ts"]):
        if x["known"]:
            es = mod.operators[k].entries
            es = [es] if x["how"] == "plain" else es
            want = b["data"][0]["E"][k]
            v.true("fit.known", len(es) == len(want))
            for e, w in zip(es, want):
                v.eq("fit.known", np.reshape(e, np.shape(w)), ints(w))


def observe_model(b, c, mod, v, d, exact, h, perm):
    r, m, kd = c["r"], c["m"], c["kd"]
    for j, o in enumerate(b["obs"][d - 1]):
        mu = one_param(rat(o["mu"]), h + j)
        q, u = ints(o["q"]), (ints(o["u"]) if m else None)
        # what the model's own operator matrices say at this parameter
        rhs, jac = np.zeros(r), np.zeros((r, r))
        comb = []
        for k, x in enumerate(c["ts"]):
            op = mod.operators[k]
            es = [op.entries] if x["how"] == "plain" else list(op.entries)
            w = rat(o["w"][k])
            if x["how"] == "interp" and not x["known"] and perm is not None:
                w = w[perm]
            E = sum(wi * e for wi, e in zip(w, es))
            comb.append(E)
            P = PLAIN[x["t"]](E)
            rhs = rhs + np.ravel(P.apply(q, u))
            jac = jac + P.jacobian(q, u)
        ok, ev = v.call("call.evaluate", lambda: mod.evaluate(mu))
        if not ok:
            continue
        v.true("evaluate.type", isinstance(ev, M.DiscreteModel if kd == "d" else M.ContinuousModel) and [type(y) for y in ev.operators] == [PLAIN[x["t"]] for x in c["ts"]])
        for k, x in enumerate(c["ts"]):
            v.eq("evaluate.operators", ev.operators[k].entries, comb[k], rtol=1e-6)
        got = rhs_of(mod, kd, mu, q, u)
        v.eq("rhs", got, rhs, rtol=1e-6)
        v.eq("rhs.evaluate", ev.rhs(q, u) if kd == "d" else ev.rhs(0.5, q, (lambda t: u) if m else None), got)
        gj = jac_of(mod, kd, mu, q, u)
        v.eq("jacobian", gj, jac, rtol=1e-6)
        v.eq("jacobian.evaluate", ev.jacobian(q, u) if kd == "d" else ev.jacobian(0.5, q, (lambda t: u) if m else None), gj)
        if exact:
            v.eq("exact.rhs", got, rat(o["rhs"]), rtol=1e-5, atol=1e-5)
            v.eq("exact.jacobian", gj, rat(o["jac"]), rtol=1e-5, atol=1e-5)
        q0 = ints(o["q0"])
        if kd == "d":
            U = ints(o["U"]) if m else None
            ok, tr = v.call("call.predict", lambda: mod.predict(mu, q0, 4, *((U,) if m else ())))
            if ok:
                v.eq("predict.evaluate", tr, ev.predict(q0, 4, *((U,) if m else ())))
                want = rat(o["traj"]).T
                if exact and np.all(np.isfinite(want)) and np.abs(want).max() < 1e5:
                    v.eq("exact.predict", tr[:, :want.shape[1]], want, rtol=1e-4, atol=1e-4)
        else:
            t = np.array([0.0, 0.004, 0.01])
            f = (lambda s: u * (1 + s)) if m else None
            kw = dict(method="RK45", rtol=1e-8, atol=1e-10)
            ok, tr = v.call("call.predict", lambda: mod.predict(mu, q0, t, *((f,) if m else ()), **kw))
            if ok:
                v.eq("predict.evaluate", tr, ev.predict(q0, t, *((f,) if m else ()), **kw))
                v.eq("predict.initial", tr[:, 0], q0)
        # the evaluated model belongs to the caller
        for e in ev.operators:
            e.set_entries(np.zeros_like(e.entries))
        v.eq("evaluate.independent", rhs_of(mod, kd, mu, q, u), got)


def trajectories(b, c, v, h):
    """without next states, discrete models learn from consecutive snapshots"""
    m, x = c["m"], b["data"][0]
    ps, Q, Z, U = dataset(x, m, None, h)
    Q = [q[:, :] for q in Q]
    res = []
    for way in range(3 if m else 2):
        mod, pure = build(b, c, h, solver=opinf.lstsq.L2Solver(1.0))
        if way == 0:
            args = dict(states=[q[:, :-1] for q in Q], nextstates=[q[:, 1:] for q in Q], inputs=[u[..., :-1] for u in U] if m else None)
        elif way == 1:
            args = dict(states=Q, inputs=U)
        else:
            args = dict(states=Q, inputs=[u[..., :-1] for u in U])
        ok, _ = v.call("call.fit.trajectories", lambda: mod.fit(ps, **args))
        if not ok:
            return
        res.append(unknown_matrix(mod, c))
    for y in res[1:]:
        v.eq("trajectory", y, res[0])


def refused(b, c, mod, v, x, d, h):
    """refused training data change nothing"""
    m = c["m"]
    before = unknown_matrix(mod, c)
    k = h % 5
    ps, Q, Z, U = dataset(x, m, None, h)
    if k == 0:
        Q = Q[:-1]
    elif k == 1:
        Z = Z + Z[:1]
    elif k == 2:
        ps = ps[:-1]
    elif k == 3:
        Q[-1] = Q[-1][:, :-1]
    elif m:
        U = U[:-1]
    else:
        Z[0] = Z[0][:-1] if c["r"] > 1 else Z[0][:, 1:]
    v.raises("refuse.fit%d" % k, REFUSE, lambda: mod.fit(ps, Q, Z, *((U,) if m else ())))
    after = unknown_matrix(mod, c)
    v.true("refuse.kept", after is not None and np.array_equal(after, before), "operators changed by a refused fit")
    o = b["obs"][d - 1][0] if b["obs"][d - 1] else None
    for mu in [np.ones(c["p"] + 1)] + ([np.ones(c["p"] - 1)] if c["p"] > 1 else []):
        v.raises("refuse.parameter", REFUSE, lambda: mod.evaluate(mu))
        v.raises("refuse.parameter", REFUSE, lambda: rhs_of(mod, c["kd"], mu, np.ones(c["r"]), np.ones(m) if m else None))


def X(t, how, th="", known=False):
    return dict(t=t, how=how, th=th, known=known)


def terms():
    i, a, pl = "interp", "affine", "plain"
    out = [
        [X("c", i), X("A", i)], [X("A", i), X("B", i)], [X("c", i), X("H", i)], [X("A", i), X("c", i, known=True)], [X("N", i), X("A", i)],
        [X("A", i), X("A", i, known=True), X("B", i)],
        [X("A", a, "poly")], [X("c", pl), X("A", a, "poly")], [X("c", a, "int"), X("A", a, "iter")], [X("A", a, "iter"), X("B", pl)],
        [X("c", a, "one"), X("A", pl), X("B", a, "poly")], [X("H", pl), X("A", a, "iter"), X("c", a, "poly", True)],
        [X("A", a, "iter"), X("A", pl, known=True)], [X("c", pl, known=True), X("A", pl), X("B", a, "iter")], [X("N", a, "iter"), X("A", pl), X("c", a, "int")],
        [X("A", i), X("c", pl)], [X("A", i), X("c", a, "iter")], [X("c", i), X("A", a, "poly"), X("B", pl)], [X("A", pl), X("c", i, known=True)],
        [X("H", a, "one"), X("A", i), X("c", pl, known=True)], [X("B", i), X("A", a, "iter", True), X("c", pl)], [X("A", pl), X("A", a, "poly", True), X("B", a, "poly", True)],
        [X("G", a, "iter"), X("c", pl)], [X("B", a, "int"), X("B", pl, known=True), X("A", a, "iter")], [X("c", a, "iter"), X("c", a, "one", True), X("c", i, known=True)],
    ]
    return out


def param_runs(chk, acts, maxlen, stride, seeds=1):
    q, s = chk.tier == "quick", chk.seed * 10
    from vp import Raw, tla
    ts = Raw("{" + ", ".join(tla(x) for x in terms()) + "}")
    return [Run("ParamMC", dict(Terms=ts, Kinds={"d", "c"}, Rs={1, 2} if q else {1, 2, 3}, Ms={0, 1, 2}, Ps={1, 2}, Seeds=set(range(s, s + seeds)), Regs={0, 2},
                                MaxLen=maxlen, Acts=set(acts), Stride=stride), ["Consistent"], replay_model, name="models")]


def c14(chk):
    q = chk.tier == "quick"
    chk.execute(param_runs(chk, {"refit", "copy"}, 2, 2 if q else 1, 1 if q else 4))
    return ["interpolation inside the convex hull of the training parameters; tolerance 1e-5..1e-7"]


CHECKS = dict(C11=c11, C14=c14)
