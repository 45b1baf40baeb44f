"""Bases and proper orthogonal decomposition (spec/Basis.tla, BasisMC.tla, BasisMultiMC.tla, EnergyMC.tla): C06, C07."""
import os, warnings, copy
import numpy as np
import scipy.linalg as la
import scipy.sparse as sp
import opinf
from vp import Run
from num import rat, V, Frozen, close

B = opinf.basis
DIM = (opinf.errors.DimensionalityError, ValueError)
NOTRAIN = (AttributeError, RuntimeError)


def facts(h):
    out = {k: rat(h[k]) for k in ("V", "W", "X", "C", "coef", "x2")}
    out["proj"] = [rat(x) for x in h["proj"]]
    out["dec"] = [rat(x) for x in h["dec"]]
    out["err2"] = rat(h["err2"])
    if h["k"]:
        for k in ("sv", "cum", "S", "Psi"):
            out[k] = rat(h[k])
    out["n"], out["k"] = h["n"], h["k"]
    out["ok"] = all(np.all(np.isfinite(np.asarray(x))) for k, x in out.items() if k in ("V", "W", "S", "X"))
    return out


def weights(form, W, s):
    if form == "none":
        return None
    if form == "diag":
        return np.diag(W).copy() if s % 2 else (np.diag(W) * 1.0)
    return (W.copy(), sp.csr_array(W), sp.coo_matrix(W))[s % 3] if form == "sparse" else W.copy()


def signs(obs, exp):
    """sign of each column of obs relative to exp"""
    s = np.sign(np.sum(obs * exp, axis=0))
    s[s == 0] = 1
    return s


def observe(b, f, r, v, tag="", orth=True, pod=None, locs=None):
    """observable behaviour of a trained basis whose exact facts are f, in dimension r"""
    n = f["n"]
    v.eq(tag + "shape", list(b.shape), [n, r])
    v.eq(tag + "shape", [b.full_state_dimension, b.reduced_state_dimension], [n, r])
    if r == 0:
        return
    E = np.asarray(b.entries)
    if not v.true(tag + "entries.shape", E.shape == (n, r), E.shape):
        return
    Vr = f["V"][:, :r]
    sg = signs(E, Vr) if pod else np.ones(r)
    v.eq(tag + "entries", E * sg, Vr, atol=1e-6)
    v.eq(tag + "getitem", np.asarray(b[:]), E)
    v.eq(tag + "getitem", np.asarray(b[1:, 0]), E[1:, 0])
    W = f["W"]
    if b.weights is None:
        v.eq(tag + "weights", W, np.eye(n))
    else:
        w = b.weights
        w = w.toarray() if sp.issparse(w) else np.asarray(w)
        v.eq(tag + "weights", np.diag(w) if w.ndim == 1 else w, W)
    if orth:
        v.eq(tag + "orthonormal", E.T @ W @ E, np.eye(r), atol=1e-6)
    X, C = f["X"], f["C"][:r]
    A = 1e-6 if pod else 1e-8
    fz = Frozen(states=X, coords=C)
    for cols, name in ((slice(None), "many"), (0, "single"), (slice(1, 2), "column")):
        x, c = X[:, cols], C[:, cols]
        out = b.compress(x)
        v.eq(tag + "compress." + name, (out.T * sg).T, f["coef"][:r][:, cols], atol=A)
        out = b.decompress((c.T * sg).T)
        v.eq(tag + "decompress." + name, out, f["dec"][r - 1][:, cols], atol=A)
        v.eq(tag + "project." + name, b.project(x), f["proj"][r - 1][:, cols], atol=A)
        for L in ([n - 1, 0], [1], slice(0, n, 2), np.array([0, 0, n - 1]), slice(-2, None), slice(None, -1), slice(1, n + 3), [-1]):
            v.eq(tag + "locs." + name, b.decompress((c.T * sg).T, locs=L), f["dec"][r - 1][L][:, cols] if name != "single"
                 else f["dec"][r - 1][L][:, 0], atol=A)
        if orth:
            v.eq(tag + "left_inverse." + name, b.compress(b.decompress(c)), c, atol=A)
            p = b.project(x)
            v.eq(tag + "idempotent." + name, b.project(p), p, atol=A)
    Xi = X.astype(int)
    v.eq(tag + "compress.integer", (b.compress(Xi).T * sg).T, f["coef"][:r], atol=A)
    v.eq(tag + "projection_error", b.projection_error(X, relative=False) ** 2, f["err2"][r - 1], atol=1e-6)
    v.eq(tag + "projection_error", b.projection_error(X) ** 2, f["err2"][r - 1] / f["x2"], atol=1e-6)
    v.eq(tag + "projection_error", b.projection_error(X, True) ** 2, f["err2"][r - 1] / f["x2"], atol=1e-6)
    fz.check(v, "mutated.basis")
    v.raises(tag + "refuse.compress", DIM, lambda: b.compress(np.vstack((X, X[:1]))))
    v.raises(tag + "refuse.compress", DIM, lambda: b.compress(X[1:]))
    v.raises(tag + "refuse.decompress", DIM, lambda: b.decompress(np.vstack((C, C[:1]))))
    v.raises(tag + "refuse.decompress", DIM, lambda: b.decompress(C[1:])) if r > 1 else None
    v.call("call.str", lambda: (str(b), repr(b)))
    if pod:
        ns, mv = pod["ns"], pod["mv"]
        v.eq(tag + "max_vectors", b.max_vectors, mv)
        sv = f["sv"] / f["sv"][0]
        sv = sv[:ns]
        ob = np.asarray(b.svdvals)
        v.eq(tag + "svdvals", ob[:len(sv)], sv, atol=1e-6)
        v.true(tag + "svdvals.rest", np.all(np.abs(ob[len(sv):]) < 1e-5), ob)
        v.true(tag + "svdvals.decreasing", np.all(np.diff(ob) <= 1e-12), ob)
        lv = np.asarray(b.leftvecs)
        if v.true(tag + "leftvecs.shape", lv.shape == (n, mv), lv.shape):
            v.eq(tag + "leftvecs", lv * signs(lv, f["V"][:, :mv]), f["V"][:, :mv], atol=1e-6)
        if b.rightvecs is not None:
            rv = np.asarray(b.rightvecs)
            if v.true(tag + "rightvecs.shape", rv.shape == (f["k"], mv), rv.shape):
                v.eq(tag + "rightvecs", rv * signs(lv, f["V"][:, :mv]), f["Psi"][:, :mv], atol=1e-5)
        tot = f["cum"][ns - 1]
        v.eq(tag + "energy.cumulative", b.cumulative_energy, f["cum"][r - 1] / tot, atol=1e-6)
        v.eq(tag + "energy.residual", b.residual_energy, 1 - f["cum"][r - 1] / tot, atol=1e-6)
        if b.weights is None:
            v.eq(tag + "energy.training_error", b.projection_error(f["S"]) ** 2, 1 - f["cum"][r - 1], atol=1e-6)
    # asking twice gives the same
    v.eq(tag + "again", b.compress(X), b.compress(X), atol=0, rtol=0)


def untrained(b, f, v, tag=""):
    v.raises(tag + "untrained", NOTRAIN, lambda: b.compress(f["X"]))
    v.raises(tag + "untrained", NOTRAIN, lambda: b.decompress(f["C"]))
    v.raises(tag + "untrained", NOTRAIN, lambda: b.project(f["X"]))
    v.raises(tag + "untrained", NOTRAIN, lambda: b.projection_error(f["X"]))
    v.raises(tag + "untrained", NOTRAIN, lambda: b[:])
    v.raises(tag + "untrained", NOTRAIN, lambda: b.plot_energy())
    v.true(tag + "untrained.none", b.entries is None and b.svdvals is None and b.leftvecs is None
           and b.max_vectors is None and b.cumulative_energy is None and b.residual_energy is None)
    v.call("call.str", lambda: str(b))


def my_svd(A, **kw):
    return la.svd(A, full_matrices=False)


def ascending_svd(A, **kw):
    U, w, Vh = la.svd(A, full_matrices=False)
    return U[:, ::-1], w[::-1], Vh[::-1]


def partial_svd(A, **kw):
    """like scipy.sparse.linalg.svds(): the leading triples, smallest first"""
    U, w, Vh = la.svd(A, full_matrices=False)
    k = max(1, w.size - 1)
    return U[:, :k][:, ::-1], w[:k][::-1], Vh[:k][::-1]


ENGINE = dict(custom=my_svd, ascending=ascending_svd, partial=partial_svd)


def engine_options(so, s):
    return dict(randomized=dict(random_state=3, n_iter="auto", power_iteration_normalizer="QR") if s % 2 else dict(random_state=3),
                dense=dict(lapack_driver="gesvd", overwrite_a=False) if s % 2 else {}, eigh=dict(minthresh=1e-14) if s % 2 else {}).get(so, {})


def make_pod(c, crit, W, name=None):
    kw = {crit["n"]: int(rat(crit["v"])) if crit["n"] == "num_vectors" else rat(crit["v"])}
    so = c["solver"]
    kw.update(engine_options(so, c["s"]))
    return B.PODBasis(max_vectors=c["mx"] or None, svdsolver=ENGINE.get(so, so),
                      weights=W, name=name, **kw)


def replay(b, rec, ctx):
    c = b["cfg"]
    pod = c["kind"] == "pod"
    v = V(rec, c["kind"] + ("." + c["solver"] if pod else ""))
    F = {i + 1: facts(h) for i, h in enumerate(b["head"])}
    if not all(f["ok"] for f in F.values()):
        rec.count("not_decided.range")
        return
    s = c["s"]
    name = "velocity" if s % 2 else None
    W = weights(c["form"], F[1]["W"], s)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st = b["start"]
        if pod:
            bs = make_pod(c, st["crit"], W, name)
        else:
            ent = F[1]["V"].copy()
            fzV = Frozen(entries=ent, weights=None if W is None or sp.issparse(W) else W)
            bs = B.LinearBasis(ent, weights=W, check_orthogonality=bool(s % 2), name=name)
        orth = c["kind"] != "linear"
        made_custom = c["solver"] in ENGINE or any(x["a"]["n"] == "engine" and x["a"]["c"] in ENGINE for x in b["hist"])

        def look(obj, st, tag=""):
            v.true(tag + "name", obj.name == name, obj.name)
            if pod:
                v.true(tag + "svdsolver", obj.svdsolver in (("method-of-snapshots",) if st["sol"] == "eigh" else ("custom", "dense") if st["sol"] in ENGINE else (st["sol"],)), obj.svdsolver)
                if obj.svdsolver != "custom" and not made_custom:
                    v.true(tag + "svdsolver.options", obj.svdsolver_options == engine_options(st["sol"], s), obj.svdsolver_options)
            if st["dat"] == 0:
                v.true(tag + "shape", obj.full_state_dimension is None
                       and obj.reduced_state_dimension == (st["r"] or None), obj.shape)
                untrained(obj, F[1], v, tag)
            else:
                observe(obj, F[st["dat"]], st["r"], v, tag, orth, st if pod else None)

        others = []
        for j, step in enumerate(b["hist"]):
            a, val, ok, new = step["a"]["n"], step["a"]["v"], step["ok"], step["st"]
            if a == "fit":
                S = F[val]["S"] if pod else F[1]["X"]
                fz = Frozen(states=S)
                if pod and (s + j) % 3 == 0:
                    ok1, out = v.call("call.fit_compress", lambda: bs.fit_compress(S))
                    if ok1:
                        v.eq("fit_compress", out, bs.compress(S), atol=1e-12)
                else:
                    ok1, out = v.call("call.fit", lambda: bs.fit(S))
                    v.true("fit.returns_self", out is bs)
                fz.check(v, "mutated.fit")
            elif a == "badfit":
                S = F[1]["S"]
                v.raises("refuse.fit", DIM, lambda: bs.fit(np.vstack((S, S[:1]))))
                v.raises("refuse.fit", DIM, lambda: bs.fit(S[:-1]))
            elif a == "setdim":
                cr = step["a"]["c"]
                val = int(rat(cr["v"])) if cr["n"] == "num_vectors" else rat(cr["v"])
                v.call("call.set_dimension", lambda: bs.set_dimension(**{cr["n"]: val}))
            elif a == "setr":
                def put():
                    bs.reduced_state_dimension = val
                v.call("call.set_r", put)
            elif a == "engine":
                def put():
                    bs.svdsolver_options = engine_options(new["sol"], s)
                    bs.svdsolver = ENGINE[new["sol"]] if new["sol"] in ENGINE else new["sol"] if (s + j) % 2 or new["sol"] != "eigh" else "method-of-snapshots"
                v.call("call.set_svdsolver", put)
            elif a == "badengine":
                def put():
                    bs.svdsolver = "jacobi"
                v.raises("refuse.svdsolver", (ValueError, TypeError, AttributeError), put)

                def put():
                    bs.svdsolver_options = [1]
                v.raises("refuse.svdsolver", (ValueError, TypeError, AttributeError), put)
            elif a == "copy":
                ok1, cp = v.call("call.copy", bs.copy)
                if ok1:
                    v.true("copy.type", type(cp) is type(bs) and cp is not bs)
                    if st["dat"]:
                        v.true("copy.equal", bool(cp == bs))
                    # change a throw-away copy in every way
                    tw = bs.copy()
                    tw.name = "changed"
                    if pod:
                        tw.fit(3 * F[1]["S"][:, ::-1] + 1)
                        tw.reduced_state_dimension = 1
                        tw.set_dimension(num_vectors=2)
                    if tw.entries is not None:
                        tw.entries[:] = 7.0
                    others.append((bs, dict(st)))
                    bs = cp
            elif a in ("saveload", "loadmax"):
                fn = "basis_%d.h5" % j
                if os.path.exists(fn):
                    os.remove(fn)
                ok1, _ = v.call("call.save", lambda: bs.save(fn))
                if ok1:
                    if a == "loadmax":
                        ok1, ld = v.call("call.load", lambda: B.PODBasis.load(fn, max_vectors=val))
                    else:
                        ok1, ld = v.call("call.load", lambda: type(bs).load(fn))
                if ok1:
                    v.true("load.type", type(ld) is type(bs))
                    if a == "saveload" and st["dat"]:
                        v.true("load.equal", bool(ld == bs) and bool(bs == ld))
                    others.append((bs, dict(st)))
                    bs = ld
                if os.path.exists(fn):
                    os.remove(fn)
            st = new
            if j == len(b["hist"]) - 1 or ctx.get("each"):
                look(bs, st)
        for o, so in others:
            look(o, so, "others.")
        if not b["hist"]:
            look(bs, st)
        if st["dat"] and st["r"] > 0 and orth:
            v.call("call.verify", bs.verify)
        if not pod:
            fzV.check(v, "mutated.init")
        elif ctx.get("functions") and c["form"] in ("none", "diag", "dense") and c["mx"] == 0:
            functions(c, F[1 + s % 3], W, v)


def functions(c, f, W, v):
    """stand-alone pod_basis() agrees with the class"""
    so = ENGINE.get(c["solver"], c["solver"])
    kw = dict(random_state=3) if so == "randomized" else {}
    q = len(f["sv"])
    if so is partial_svd:
        q = max(1, q - 1)
        if q < len(f["sv"]):
            f = dict(f, sv=f["sv"][:q], V=f["V"][:, :q], Psi=f["Psi"][:, :q])
    for args, r in (({}, q), (dict(num_vectors=1), 1), (dict(svdval_threshold=1e-9), q), (dict(cumulative_energy=1e-9), 1)):
        ok, out = v.call("call.pod_basis", lambda: B.pod_basis(f["S"], svdsolver=so, weights=W, return_rightvecs=True, **args, **kw))
        if ok:
            E, sv, rv = out
            sg = signs(E, f["V"][:, :r])
            v.eq("function.pod_basis", E * sg, f["V"][:, :r], atol=1e-6)
            v.eq("function.svdvals", sv[:q], f["sv"] / f["sv"][0], atol=1e-6)
            v.eq("function.rightvecs", rv * sg, f["Psi"][:, :r], atol=1e-5)
    if c["solver"] == "eigh":
        ok, out = v.call("call.mos", lambda: B.method_of_snapshots(f["S"], W))
        if ok:
            E, sv, rt = out
            v.eq("function.mos.svdvals", sv[:q], f["sv"], atol=1e-6)
            sg = signs(E[:, :q], f["V"])
            v.eq("function.mos.left", E[:, :q] * sg, f["V"], atol=1e-6)
            v.eq("function.mos.right", rt[:q].T * sg, f["Psi"], atol=1e-5)


def replay_multi(b, rec, ctx):
    c = b["cfg"]
    v = V(rec, "multi." + c["mix"])
    H = b["head"]
    F = [{j + 1: facts(d) for j, d in enumerate(h["data"])} for h in H]
    if not all(f["ok"] for fs in F for f in fs.values()):
        rec.count("not_decided.range")
        return
    nv, s = c["nv"], c["s"]
    kinds = [h["kind"] for h in H]
    rs = [h["r"] for h in H]
    ns = [fs[1]["n"] for fs in F]
    named = [("v%d" % i if (i + s) % 2 else None) for i in range(nv)]
    names = [nm or "variable %d" % i for i, nm in enumerate(named)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bases = []
        for i in range(nv):
            W = weights(c["form"], F[i][1]["W"], s + i)
            if kinds[i] == "pod":
                bases.append(B.PODBasis(num_vectors=rs[i], weights=W, name=named[i], svdsolver=["dense", "eigh"][(s + i) % 2]))
            else:
                bases.append(B.LinearBasis(F[i][1]["V"].copy(), weights=W, name=named[i]))
        m = B.BasisMulti(bases, full_variable_sizes=ns if c["pre"] else None)
        st = b["start"]

        def look(m, st, tag=""):
            v.true(tag + "names", tuple(m.variable_names) == tuple(names), m.variable_names)
            v.eq(tag + "sizes", [m.num_variables, len(m)], [nv, nv])
            v.call("call.str", lambda: str(m))
            X = np.vstack([fs[1]["X"] for fs in F])
            if st["sized"] or st["dat"]:
                v.eq(tag + "sizes", m.full_variable_sizes, ns)
                v.eq(tag + "sizes", m.full_state_dimension, sum(ns))
            else:
                v.true(tag + "sizes", m.full_state_dimension is None, m.full_state_dimension)
            if st["dat"] == 0:
                v.true(tag + "sizes", m.reduced_state_dimension is None, m.reduced_state_dimension)
                v.raises(tag + "untrained", NOTRAIN, lambda: m.compress(X))
                v.raises(tag + "untrained", NOTRAIN, lambda: m.decompress(np.ones((sum(rs), 2))))
                v.raises(tag + "untrained", NOTRAIN, lambda: m.project(X))
                v.raises(tag + "untrained", NOTRAIN, lambda: m.projection_error(X))
                return
            fs = [F[i][st["dat"] if kinds[i] == "pod" else 1] for i in range(nv)]
            v.eq(tag + "shape", list(m.shape), [sum(ns), sum(rs)])
            v.eq(tag + "sizes", m.reduced_variable_sizes, rs)
            sg = []
            for i in range(nv):
                v.true(tag + "getitem", m[i] is m.bases[i] and m[names[i]] is m.bases[i])
                observe(m.bases[i], fs[i], rs[i], v, tag + "block.", True, None if kinds[i] == "linear" else dict(
                    ns=len(fs[i]["sv"]), mv=len(fs[i]["sv"])))
                E = np.asarray(m.bases[i].entries)
                sg.append(signs(E, fs[i]["V"][:, :rs[i]]) if kinds[i] == "pod" else np.ones(rs[i]))
            X = np.vstack([f["X"] for f in fs])
            C = np.vstack([(f["C"][:r].T * g).T for f, r, g in zip(fs, rs, sg)])
            coef = np.vstack([(f["coef"][:r].T * g).T for f, r, g in zip(fs, rs, sg)])
            dec = [f["dec"][r - 1] for f, r in zip(fs, rs)]
            proj = np.vstack([f["proj"][r - 1] for f, r in zip(fs, rs)])
            fz = Frozen(states=X, coords=C)
            A = 1e-6
            for cols, nm in ((slice(None), "many"), (0, "single")):
                v.eq(tag + "compress." + nm, m.compress(X[:, cols]), coef[:, cols], atol=A)
                v.eq(tag + "decompress." + nm, m.decompress(C[:, cols]), np.vstack(dec)[:, cols], atol=A)
                v.eq(tag + "project." + nm, m.project(X[:, cols]), proj[:, cols], atol=A)
                if len(set(ns)) == 1:
                    for L in ([ns[0] - 1, 0], [1], slice(0, ns[0], 2), slice(-1, None), slice(0, ns[0] + 2)):
                        v.eq(tag + "locs." + nm, m.decompress(C[:, cols], locs=L), np.vstack([d[L] for d in dec])[:, cols], atol=A)
                else:
                    v.raises(tag + "refuse.locs", ValueError, lambda: m.decompress(C[:, cols], locs=[0]))
                parts = m.split(X[:, cols])
                lo = np.cumsum([0] + ns)
                for i in range(nv):
                    v.eq(tag + "split", parts[i], X[lo[i]:lo[i + 1], cols])
                    v.eq(tag + "get_var", m.get_var(i, X[:, cols]), X[lo[i]:lo[i + 1], cols])
                    v.eq(tag + "get_var", m.get_var(names[i], X[:, cols]), X[lo[i]:lo[i + 1], cols])
                lo = np.cumsum([0] + rs)
                if sum(rs) != sum(ns):
                    parts = m.split(C[:, cols])
                    for i in range(nv):
                        v.eq(tag + "split", parts[i], C[lo[i]:lo[i + 1], cols])
                        v.eq(tag + "get_var", m.get_var(names[i], C[:, cols]), C[lo[i]:lo[i + 1], cols])
            v.eq(tag + "left_inverse", m.compress(m.decompress(C)), C, atol=A)
            err2 = sum(f["err2"][r - 1] for f, r in zip(fs, rs))
            v.eq(tag + "projection_error", m.projection_error(X, relative=False) ** 2, err2, atol=A)
            v.eq(tag + "projection_error", m.projection_error(X) ** 2, err2 / sum(f["x2"] for f in fs), atol=A)
            fz.check(v, "mutated.basis")
            v.raises(tag + "refuse.compress", DIM, lambda: m.compress(X[:-1]))
            v.raises(tag + "refuse.compress", DIM, lambda: m.compress(np.vstack((X, X[:1]))))
            v.raises(tag + "refuse.decompress", DIM, lambda: m.decompress(np.vstack((C, C[:1]))))
            v.raises(tag + "refuse.split", DIM, lambda: m.split(np.ones((sum(ns) + 1, 2))))

        others = []
        for j, step in enumerate(b["hist"]):
            a, val, ok, new = step["a"]["n"], step["a"]["v"], step["ok"], step["st"]
            if a in ("fit", "badfit"):
                S = np.vstack([F[i][val if a == "fit" else 1]["S"] if kinds[i] == "pod"
                               else np.hstack([F[i][1]["X"]] * 3)[:, :5] for i in range(nv)])
                fz = Frozen(states=S)
                if a == "fit":
                    ok1, out = v.call("call.fit", lambda: m.fit(S))
                    v.true("fit.returns_self", out is m)
                elif val == 1:
                    v.raises("refuse.fit", DIM, lambda: m.fit(np.vstack((S, S[:1]))))
                else:
                    v.raises("refuse.fit", DIM, lambda: m.fit(S[:nv * (ns[0] - 1)]))
                fz.check(v, "mutated.fit")
            elif a == "copy":
                cp = copy.deepcopy(m)
                v.true("copy.equal", (not st["dat"]) or bool(cp == m))
                tw = copy.deepcopy(m)
                if any(k == "pod" for k in kinds):
                    tw.fit(np.vstack([F[i][2]["S"] if kinds[i] == "pod" else np.ones((ns[i], 5)) for i in range(nv)]))
                others.append((m, dict(st)))
                m = cp
            elif a == "saveload":
                fn = "multi_%d.h5" % j
                if os.path.exists(fn):
                    os.remove(fn)
                ok1, _ = v.call("call.save", lambda: m.save(fn))
                if ok1:
                    classes = [B.PODBasis if k == "pod" else B.LinearBasis for k in kinds]
                    if len(set(classes)) == 1 and j % 2 == 0:
                        classes = classes[0]
                    ok1, ld = v.call("call.load", lambda: B.BasisMulti.load(fn, classes))
                    v.raises("refuse.load", (ValueError, opinf.errors.LoadfileFormatError), lambda: B.BasisMulti.load(fn, [B.PODBasis] * (nv + 1)))
                    if ok1:
                        v.true("load.equal", (not st["dat"]) or bool(ld == m))
                        others.append((m, dict(st)))
                        m = ld
                if os.path.exists(fn):
                    os.remove(fn)
            st = new
            look(m, st)
        for o, so in others:
            look(o, so, "others.")
        if st["dat"] and min(ns) > 2:
            v.call("call.verify", m.verify)


def replay_energy(b, rec, ctx):
    v = V(rec, "energy")
    sv = np.array(b["sv"], dtype=float)
    th = rat(b["v"])
    R = b["ranks"]
    n = len(sv) + 2
    rng = np.arange(len(sv))[::-1]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for arr in (sv, sv[rng], np.array(b["sv"]), sv * 4):
            fz = Frozen(singular_values=arr)
            v.eq("rank.svdval_decay", B.svdval_decay(arr, th, plot=False), R["decay"])
            v.eq("rank.cumulative_energy", B.cumulative_energy(arr, th, plot=False), R["cumulative"])
            v.eq("rank.residual_energy", B.residual_energy(arr, th, plot=False), R["residual"])
            v.eq("rank.projection_error", B.residual_energy(arr, th, plot=False, sqrt=True), R["error"])
            v.eq("rank.list", B.residual_energy(arr, [th, th], plot=False), [R["residual"]] * 2)
            v.eq("rank.list", B.cumulative_energy(arr, [th, th], plot=False), [R["cumulative"]] * 2)
            v.eq("rank.list", B.svdval_decay(arr, [th, th], plot=False), [R["decay"]] * 2)
            fz.check(v, "mutated.energy")
        first = b["hist"][0]
        left = np.eye(n)[:, :len(sv)]
        bs = B.PODBasis.from_svd(left, sv.copy(), **{first["n"]: th})
        cum = rat(b["cum"])
        for k, h in enumerate(b["hist"]):
            if k:
                bs.set_dimension(**{h["n"]: th})
            v.eq("rank.class", bs.reduced_state_dimension, h["r"])
            v.eq("svdvals.class", bs.svdvals, sv / sv[0])
            v.eq("energy.class", bs.cumulative_energy, cum[h["r"] - 1] if h["r"] else 0.0)
            v.eq("energy.class", bs.residual_energy, 1 - (cum[h["r"] - 1] if h["r"] else 0.0))
            v.eq("entries.class", bs.entries, left[:, :h["r"]])
        bs = B.PODBasis.from_svd(left, sv.copy())
        v.eq("rank.class", bs.reduced_state_dimension, len(sv))


def c06(chk):
    q = chk.tier == "quick"
    s = chk.seed * 10
    only = r"(others\.)?(shape|entries|getitem|weights|orthonormal|compress|decompress|project|locs|left_inverse|idempotent|refuse|name|again|split|get_var|block|sizes)"
    ctx = dict(only=only)
    seeds = {s, s + 1, s + 2} if q else set(range(s, s + 8))
    inv = ["Orthonormal", "Idempotent", "DimOk"]
    chk.execute([
        Run("BasisMC", dict(Kinds={"linear", "orth"}, Solvers={"dense"}, Forms={"none", "diag", "dense", "sparse"}, Ns={2, 3, 4, 5, 6},
                            MaxVecs={0}, Seeds=set(range(s, s + (8 if q else 30))), MaxLen=1, Acts={"fit", "copy", "saveload"}),
            inv, replay, name="linear", ctx=ctx),
        Run("BasisMultiMC", dict(NVs={1, 2, 3}, Mixes={"linear", "pod", "mixed"}, Forms={"none", "diag"} if q else {"none", "diag", "dense"},
                                 Sizes={"equal", "different"}, Seeds=set(range(s, s + (2 if q else 6))), MaxLen=2 if q else 3,
                                 Acts={"fit", "badfit", "copy", "saveload"}), ["Orthonormal"], replay_multi, name="multi",
            ctx=dict(only=None)),
        Run("BasisMC", dict(Kinds={"pod"}, Solvers={"dense", "eigh"}, Forms={"none", "diag", "dense"}, Ns={3, 4, 5}, MaxVecs={0, 2},
                            Seeds=seeds, MaxLen=2, Acts={"fit", "setr"}), inv, replay, name="pod", ctx=ctx),
    ])
    return ["basis vectors compared up to sign; tolerance 1e-6 where a decomposition is computed"]


def c07(chk):
    q = chk.tier == "quick"
    s = chk.seed * 10 + 5
    only = r"(others\.)?(shape|entries|orthonormal|leftvecs|rightvecs|svdvals|energy|max_vectors|function|projection_error|fit_compress|refuse\.(fit|svdsolver)|rank|svdsolver)"
    ctx = dict(only=only, functions=True, each=True)
    inv = ["Orthonormal", "DimOk", "EnergyMonotone"]
    sol = {"dense", "randomized", "eigh", "custom", "ascending", "partial"}
    chk.execute([
        Run("EnergyMC", dict(Denoms={32} if q else {32, 64, 24}, MaxLen=2), ["Smallest"], replay_energy, name="boundaries", ctx=ctx),
        Run("BasisMC", dict(Kinds={"pod"}, Solvers=sol, Forms={"none", "diag", "dense"}, Ns={3, 5}, MaxVecs={0, 2},
                            Seeds={s} if q else {s, s + 1, s + 2}, MaxLen=2, Acts={"fit", "setdim"}), inv, replay, name="dimensions", ctx=ctx),
        Run("BasisMC", dict(Kinds={"pod"}, Solvers=sol, Forms={"none", "diag", "dense"}, Ns={4}, MaxVecs={0, 2},
                            Seeds={s}, MaxLen=2 if q else 3, Acts={"fit", "engine"} | (set() if q else {"copy", "saveload"})), inv, replay, name="engines", ctx=ctx),
        Run("BasisMC", dict(Kinds={"pod"}, Solvers=sol, Forms={"none", "diag", "dense"}, Ns={4, 6}, MaxVecs={0, 3},
                            Seeds=set(range(s, s + 5)), MaxLen=6, Acts={"fit", "setdim", "setr", "badfit", "copy", "loadmax", "engine", "badengine"}),
            ["DimOk"], replay, name="histories", simulate=6 if q else 200, depth=10, seed=chk.seed, ctx=ctx),
    ])
    return ["singular values well separated; thresholds off the boundary except for exactly representable spectra"]


CHECKS = dict(C06=c06, C07=c07)
