"""Alignment of training data (spec/AlignMC.tla): clauses of C26."""
import contextlib
import io
import json
import warnings
import numpy as np
import opinf
import p_life
from p_life import Mod, Rom, arr, observe, snap, same, AFF, ERR
from num import V
from vp import Run

O, M, B, P, S, R = opinf.operators, opinf.models, opinf.basis, opinf.pre, opinf.lstsq, opinf.roms
PS = [1.0, 2.0, 4.0, 5.0]
_MADE = {}


def operators(c):
    r, m = c["r"], c["m"]
    K, k, Bk = arr(31, r, r), arr(32, r), arr(33, r, m) if m else None
    if c["par"] == "interp":
        I = {"A": O.InterpLinearOperator, "c": O.InterpConstantOperator, "B": O.InterpInputOperator}
        ops = [I["A"](), I["c"](PS[:3], np.array([k, 2 * k, -k])) if c["known"] == "state" else I["c"]()]
        if m:
            ops.append(I["B"](PS[:3], np.array([Bk, Bk + 1, -Bk])) if c["known"] == "input" else I["B"]())
        return ops
    A = O.AffineLinearOperator(AFF, nterms=3) if c["par"] == "affine" else O.LinearOperator(K if c["known"] == "state" else None)
    ops = [A, O.ConstantOperator(k if c["known"] == "state" and c["par"] == "affine" else None)]
    if m:
        ops.append(O.InputOperator(Bk if c["known"] == "input" else None))
    return ops


def model(c):
    cls = {("no", True): M.DiscreteModel, ("no", False): M.ContinuousModel, ("affine", True): M.ParametricDiscreteModel,
           ("affine", False): M.ParametricContinuousModel, ("interp", True): M.InterpDiscreteModel, ("interp", False): M.InterpContinuousModel}[c["par"], c["disc"]]
    return cls(operators(c), solver=S.L2Solver(2.0))


def estimator(c):
    if c["est"] == "interp":
        return opinf.ddt.InterpDerivativeEstimator(np.arange(7.0), "cubic")
    return opinf.ddt.UniformFiniteDifferencer(np.arange(7.0), "ord4") if c["est"] == "unif" else None


def make(c):
    """-> adapter for observation, object"""
    if c["level"] == "model":
        ad = Mod(type(model(c)), lambda: operators(c), m=c["m"], par=None if c["par"] == "no" else c["par"])
        return ad, model(c)
    kw = {}
    if c["s"] % 2:
        kw["transformer"] = P.ShiftScaleTransformer(centering=True, scaling="maxabs")
    if c["bas"]:
        kw["basis"] = B.PODBasis(num_vectors=1)
    o = (R.ROM if c["par"] == "no" else R.ParametricROM)(model(dict(c, r=1 if "basis" in kw else c["r"])), ddt_estimator=estimator(c), **kw)
    return Rom("rom", None, m=c["m"], disc=c["disc"], par=c["par"] != "no"), o


def arguments(c, x):
    """arrays of the given shapes"""
    s = c["s"]
    pick = lambda j, shapes, lo: [arr(1000 * s + 100 * j + 10 * i + sh[0] + 50 * sh[1], *sh, lo=lo, hi=-lo) for i, sh in enumerate(shapes)]
    Q, Z, U = pick(1, x["Q"], -1), pick(2, x["Z"], -1) if x["hZ"] else None, pick(3, x["U"], -1) if x["hU"] else None
    if c["level"] == "model" and s % 2:      # one row of inputs may be given without its dimension
        flat = lambda A: None if A is None else [a[0] if a.shape[0] == 1 else a for a in A]
        U = flat(U)
    T = [0.01 * np.arange(k) for k in x["T"]]
    ps = PS[:x["P"]]
    return ps if x["W"] == 1 else [[p, p + 1.0] for p in ps], Q, Z, U, T


def call(c, o, x, again=False):
    ps, Q, Z, U, T = arguments(c, x)
    if c["single"]:
        Q, Z, U = Q[0], None if Z is None else Z[0], None if U is None else U[0]
        T = T[0] if T else T
    par = () if c["par"] == "no" else (ps,)
    opts = dict(fit_basis=False) if again and c["keepb"] else {}
    if c["level"] != "sel":
        return o.fit(*par, Q, Z, U, **opts)
    opts.update(gridsearch_only=True, stability_margin=1e9)
    if c["disc"]:
        return o.fit_regselect_discrete([2.0, 3.0], *par, Q, U, **opts)
    if U is not None:
        def fun(A):
            return lambda t: A[:, 0] * np.cos(t)
        U = fun(U) if c["single"] else [fun(A) for A in U]
    return o.fit_regselect_continuous([2.0, 3.0], T, *par, Q, Z, U, **opts)


def look(c, ad, o, x):
    """everything the object shows, given the arguments x of its last training (None: untrained)"""
    if isinstance(ad, Mod):
        ad.r = c["r"] if x is None else x["Q"][0][0]
    else:
        ad.n = c["r"] if x is None else x["Q"][0][0]
    ad.m = 0 if c["m"] == 0 else c["m"] if x is None or not x["hU"] else x["U"][0][0]
    out = observe(ad, o, 0 if x is None else 1)
    sol = o.solver if c["level"] == "model" else o.model.solver
    out["solver.regularizer"] = snap(sol.regularizer)
    out["solver.data"] = snap(sol.data_matrix)
    return out


def canonical(c, xs):
    """observation of a fresh object that was given only the accepted calls that still count"""
    if not c["keepb"]:
        xs = xs[-1:]
    key = json.dumps([c, xs], sort_keys=True)
    if key not in _MADE:
        if len(_MADE) > 3000:
            _MADE.clear()
        ad, o = make(c)
        for i, x in enumerate(xs):
            call(c, o, x, again=i > 0)
        _MADE[key] = look(c, ad, o, xs[-1] if xs else None)
    return _MADE[key]


def replay_align(b, rec, ctx):
    c = b["c"]
    v = V(rec, "%s.%s.%s" % (c["level"], c["par"], "d" if c["disc"] else "c"))
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        ad, o = make(c)
        good = []
        for h in b["h"]:
            what = "+".join(sorted({"%s%s" % (e["f"], {0: ".count" if e["by"] in (1, -1) else ".none" if e["by"] == 0 else ".extra", 1: ".rows", 2: ".cols"}[e["d"]])
                                    for e in h["edits"]})) or "good"
            rec.count(("accepted." if h["ok"] else "refused.") + c["level"])
            try:
                call(c, o, h["x"], again=bool(good))
            except ERR as ex:
                v.true("align.accepts." + what, not h["ok"], "%r on %s" % (ex, h["x"]))
            except Exception as ex:
                v.true("align.%s.%s" % ("accepts" if h["ok"] else "refuses", what), False, "%r on %s" % (ex, h["x"]))
            else:
                if v.true("align.refuses." + what, h["ok"], "accepted %s" % h["x"]):
                    good.append(h["x"])
            want, got = canonical(c, good), look(c, ad, o, good[-1] if good else None)
            for k in want:
                v.true("align.%s.%s" % ("after" if h["ok"] else "kept", k), k in got and same(want[k], got[k], 1e-9),
                       "%s: %r instead of %r" % (what, got.get(k), want[k]))


def align_run(chk):
    q, s = chk.tier == "quick", chk.seed
    return Run("AlignMC", dict(Levels={"model", "rom", "sel"}, Pars={"no", "affine", "interp"}, Seeds={s, s + 1} if q else set(range(s, s + 4)),
                               MaxLen=2, Keep=60 if q else 12, Thin=3 if q else 1), ["Absorbed"], replay_align, name="alignment")
