"""Error measures, re-projection and stand-alone functions (spec/UtilMC.tla): C25 and part of C28."""
import numpy as np
import opinf
from vp import Run
from num import rat, V, Frozen

try:                                    # not exported by opinf.utils at the pinned commit
    from opinf.utils import _reprojection as REPRO
except ImportError:
    REPRO = opinf.utils

ERR = (ValueError, opinf.errors.DimensionalityError)


def replay_errors(o, v, s):
    post = opinf.post
    Q, A, t, W = (rat(o[x]) for x in ("Q", "A", "t", "W"))
    fz = Frozen(Q=Q, A=A, t=t, W=W)

    def pair(x, p):
        d, n = rat(x[0]), rat(x[1])
        d, n = (d, n) if p == 0 else (np.power(d, 1.0 / p), np.power(n, 1.0 / p))
        return d, n

    def cmp(clause, got, x, p, norm=None):
        d, n = pair(x, p)
        if norm == "max":
            n = np.max(n)
        v.true(clause + ".pair", isinstance(got, tuple) and len(got) == 2)
        v.eq(clause + ".abs", got[0], d)
        v.eq(clause + ".rel", got[1], d / n)

    cmp("frobenius", post.frobenius_error(Q, A), o["fro"], 2)
    cmp("projection", post.projection_error(Q, W), o["proj"], 2)
    for p in (1, 2, 3, 4, np.inf):
        q = 0 if p == np.inf else p
        lp = o["linf"] if p == np.inf else o["lp"][p - 1]
        Lp = o["Linf"] if p == np.inf else o["Lp"][p - 1]
        cmp("lp", post.lp_error(Q, A, p=p), lp, q)
        cmp("lp.normalized", post.lp_error(Q, A, p=p, normalize=True), lp, q, "max")
        if p == 2:
            cmp("lp.default", post.lp_error(Q, A), lp, q)
        for j in range(Q.shape[1]):
            col = [lp[0][j], lp[1][j]]
            cmp("lp.vector", post.lp_error(np.ascontiguousarray(Q[:, j]), A[:, j], p), col, q)
        if Q.shape[1] > 1 or p == np.inf:
            if rat(Lp[1]) != 0:
                cmp("Lp", post.Lp_error(Q, A, t, p), Lp, q)
                cmp("Lp", post.Lp_error(Q, A, t=t, p=p), Lp, q)
                if p == 2:
                    cmp("Lp.default", post.Lp_error(Q, A, t), Lp, q)
                if p == np.inf:
                    cmp("Lp.notime", post.Lp_error(Q, A, p=p), Lp, q)
                if Q.shape[0] == 1:
                    cmp("Lp.vector", post.Lp_error(Q[0], A[0], t, p), Lp, q)
    fz.check(v, "mutated.errors")
    bad = [np.vstack((A, A[:1])), np.hstack((A, A[:, :1])), A[:, 0] if A.shape[1] > 1 else A[0, :0]]
    for B in bad:
        v.raises("refuse.frobenius", ERR, lambda: post.frobenius_error(Q, B))
        v.raises("refuse.lp", ERR, lambda: post.lp_error(Q, B))
        v.raises("refuse.Lp", ERR, lambda: post.Lp_error(Q, B, t))
    v.raises("refuse.frobenius.1d", ERR, lambda: post.frobenius_error(Q[:, 0], A[:, 0]))
    Q3 = Q.reshape(Q.shape + (1,))
    v.raises("refuse.lp.3d", ERR, lambda: post.lp_error(Q3, Q3))
    v.raises("refuse.Lp.3d", ERR, lambda: post.Lp_error(Q3, Q3, t))
    for p in (0, -1, -np.inf):
        v.raises("refuse.p", ERR, lambda: post.lp_error(Q, A, p=p))
        v.raises("refuse.p", ERR, lambda: post.Lp_error(Q, A, t, p=p))
    v.raises("refuse.p", ERR, lambda: post.lp_error(Q, A, p=[2]))
    v.raises("refuse.notime", ERR, lambda: post.Lp_error(Q, A))
    v.raises("refuse.time", ERR, lambda: post.Lp_error(Q, A, np.append(t, 1e3)))
    v.raises("refuse.time", ERR, lambda: post.Lp_error(Q, A, np.array([t])))
    v.raises("refuse.projection", ERR, lambda: post.projection_error(Q, np.ones((Q.shape[0] + 1, 1))))


def replay_reproj(o, v, s):
    W, x0, U, Q = (rat(o[x]) for x in ("W", "x0", "U", "Q"))
    c, A, h, B = (rat(o["md"][x]) for x in ("c", "A", "h", "B"))
    m, k = o["m"], o["k"]
    calls = []

    def f(x, u=None):
        calls.append((np.array(x), None if u is None else np.array(u)))
        out = c + A @ x + h * x * x[::-1]
        if u is not None:
            out = out + B @ np.atleast_1d(u)
        return out

    fz = Frozen(W=W, x0=x0, U=U, Q=Q)
    D, Qr, disc = rat(o["D"]), rat(o["Qr"]), rat(o["disc"])
    forms = [None] if m == 0 else ([U] + ([U[0]] if m == 1 else []))
    n = W.shape[0]
    for inp in forms:
        args = () if inp is None else (inp,)
        got = REPRO.reproject_discrete(f, W, x0, k, *args)
        v.eq("reproject.discrete", got, disc)
        if inp is not None:
            v.eq("reproject.discrete.keyword", REPRO.reproject_discrete(f, W, x0, k, inputs=inp), disc)
        calls.clear()
        got = REPRO.reproject_continuous(f, W, Q, *args)
        v.true("reproject.continuous.pair", isinstance(got, tuple) and len(got) == 2)
        v.eq("reproject.continuous.states", got[0], Qr)
        v.eq("reproject.continuous.ddts", got[1], D)
        ints = lambda A: A.astype(int) if np.all(A == np.round(A)) else A
        v.eq("reproject.discrete.integers", REPRO.reproject_discrete(f, ints(W), ints(x0), k, *args), disc)
        got = REPRO.reproject_continuous(f, ints(W), ints(Q), *args)
        v.eq("reproject.continuous.integers", np.vstack(got), np.vstack((Qr, D)))
        v.raises("refuse.reproject", ERR, lambda: REPRO.reproject_discrete(f, W, np.append(x0, 0), k, *args))
        v.raises("refuse.reproject", ERR, lambda: REPRO.reproject_continuous(f, W, np.vstack((Q, Q[:1])), *args))
    fz.check(v, "mutated.reproject")


def replay_shiftscale(o, v, s):
    pre = opinf.pre
    X, q, mean, Xq, Xm, S, S2 = (rat(o[x]) for x in ("X", "q", "mean", "Xq", "Xm", "S", "S2"))
    to, fr, fr2 = (tuple(rat(o[x])) for x in ("to", "from", "fr2"))
    fz = Frozen(X=X, q=q)
    v.eq("shift.by", pre.shift(X, q), Xq)
    v.eq("shift.by.column", pre.shift(X, q.reshape((-1, 1))), Xq)
    got = pre.shift(X)
    v.eq("shift.learn", got[0], Xm)
    v.eq("shift.mean", got[1], mean)
    v.eq("shift.undo", pre.shift(Xq, -q), X)
    got = pre.scale(X, to)
    v.eq("scale.learn", got[0], S)
    v.eq("scale.to", got[1], to)
    v.eq("scale.from", got[2], fr)
    v.eq("scale.given", pre.scale(X, to, fr2), S2)
    v.eq("scale.undo", pre.scale(got[0], got[2], got[1]), X)
    v.raises("refuse.shift", ERR, lambda: pre.shift(X[:, 0], q))
    v.raises("refuse.shift", ERR, lambda: pre.shift(X, np.append(q, 1.0)))
    v.raises("refuse.shift", ERR, lambda: pre.shift(X, np.ones((X.shape[0], 2))))
    v.raises("refuse.scale", ERR, lambda: pre.scale(X, (1, 2, 3)))
    v.raises("refuse.scale", ERR, lambda: pre.scale(X, to, (1,)))
    fz.check(v, "mutated.shiftscale")


def replay_size(o, v, s):
    f = opinf.lstsq.lstsq_size
    form = "".join(o["form"])
    aff = {c: [(lambda mu: mu)] * a for c, a in zip(o["form"], o["aff"]) if a}
    v.true("size", f(form, o["r"], o["m"]) == o["d0"] if o["m"] else f(form, o["r"]) == o["d0"], form)
    v.true("size.affine", f(form, o["r"], m=o["m"], affines=aff) == o["d"], "%s %s" % (form, o["aff"]))
    v.true("size.reordered", f(form[::-1], o["r"], m=o["m"], affines=aff) == o["d"])
    other = dict(aff)
    for c in "cAHGB":
        if c not in form:
            other[c] = [abs] * 3
    v.true("size.unused_affine", f(form, o["r"], m=o["m"], affines=other) == o["d"], form)
    if "B" in form:
        v.raises("refuse.size", ERR, lambda: f(form, o["r"]))
    else:
        v.raises("refuse.size", ERR, lambda: f(form, o["r"], m=2))
        v.raises("refuse.size", ERR, lambda: f(form + "B", o["r"], m=0))


FN = dict(errors=replay_errors, reproj=replay_reproj, shiftscale=replay_shiftscale, size=replay_size)


def replay_util(b, rec, ctx):
    o = b["o"]
    FN[o["what"]](o, V(rec, o["what"]), b["cfg"]["s"])


def util_runs(chk, what):
    q, s = chk.tier == "quick", chk.seed
    return [Run("UtilMC", dict(What=what, Ns={1, 2, 3} if q else {1, 2, 3, 4, 5}, Ks={1, 2, 3, 5} if q else {1, 2, 3, 4, 5, 6, 7},
                               Seeds=set(range(s * 100, s * 100 + (25 if q else 150)))), ["Contraction"], replay_util, name="+".join(sorted(what)))]


def c25(chk):
    chk.execute(util_runs(chk, {"errors"}))
    return ["finite orders p in 1..4 and infinity"]


CHECKS = dict(C25=c25)


def c28(chk):
    chk.execute(util_runs(chk, {"reproj", "shiftscale", "size"}))


CHECKS["C28"] = c28
