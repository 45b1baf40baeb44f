"""Reduced-order models (spec/Rom.tla, RomMC.tla): C19, C20; clauses for C04, C05, C26."""
import warnings
import numpy as np
import opinf
from vp import Run
from num import V, Frozen, rat, close, why
from p_tf import build as build_tf

R, M, B, O = opinf.roms, opinf.models, opinf.basis, opinf.operators
ERR = (ValueError, TypeError, opinf.errors.DimensionalityError)
UNTRAINED = (AttributeError, RuntimeError)
SCHEMES = ["fwd1", "fwd2", "fwd3", "fwd4", "fwd5", "fwd6", "bwd1", "bwd2", "bwd3", "bwd4", "bwd5", "bwd6",
           "ctr2", "ctr4", "ctr6", "ord2", "ord4", "ord6"]
PARAMS = [1.0, 2.0, 4.0]


class LearnBasis(B.BasisTemplate):
    """a user's basis; learns integer vectors that depend on all the training data and their order"""

    def __init__(self, r, name=None):
        super().__init__(name)
        self.rr = r

    def fit(self, states):
        Y = np.asarray(states)
        e = 1 / 1009
        cols = []
        sg = np.where(np.arange(1, len(Y) + 1) % 2 == 0, 1.0, -1.0)
        for c in range(1, self.rr + 1):
            if c == 1:
                cols.append(1.0 + np.sum(Y > Y[:, :1] + e, axis=1))
            else:
                j = np.arange(1, Y.shape[1] + 1)
                cols.append(sg * (1.0 + np.sum((Y > e) & (j % 2 == c % 2), axis=1)))
        self.V = np.column_stack(cols)
        self.full_state_dimension, self.reduced_state_dimension = self.V.shape
        return self

    def compress(self, states):
        if self.full_state_dimension is None:
            raise AttributeError("basis not trained")
        return self.V.T @ states

    def decompress(self, states_compressed, locs=None):
        if self.full_state_dimension is None:
            raise AttributeError("basis not trained")
        return (self.V if locs is None else self.V[locs]) @ states_compressed


def lifter(l):
    return dict(none=lambda: None, quad=opinf.lift.QuadraticLifter, cube=lambda: opinf.lift.PolynomialLifter((3, 1)))[l]()


def unlift(l, Y):
    h = len(Y) // 2
    return Y if l == "none" else Y[:h] if l == "quad" else Y[h:]


def basis(rec, V0):
    k = rec["k"]
    if k == "none":
        return None
    if k == "lin":
        return B.LinearBasis(V0, check_orthogonality=False)
    if k == "learn":
        return LearnBasis(rec["r"])
    if k == "multi":
        return B.BasisMulti([LearnBasis(1), LearnBasis(1)])
    return B.PODBasis(num_vectors=2)


def model(cfg):
    """an untrained model; L2 regularisation makes its regression well posed"""
    kd, m, s = cfg["kd"], cfg["m"], cfg["s"]
    sol = opinf.lstsq.L2Solver(1.5)
    if not cfg["par"]:
        form = ("cA", "A", "Ac")[s % 3] + ("B" if m else "")
        return (M.ContinuousModel if kd == "c" else M.DiscreteModel)(form, solver=sol)
    if (s + m) % 2:
        return (M.InterpContinuousModel if kd == "c" else M.InterpDiscreteModel)("cA" + ("B" if m else ""), solver=sol)
    ops = [O.AffineLinearOperator(lambda mu: np.array([1.0, float(np.squeeze(mu))]), nterms=2), O.ConstantOperator()]
    if m:
        ops.append(O.InputOperator())
    return (M.ParametricContinuousModel if kd == "c" else M.ParametricDiscreteModel)(ops, solver=sol)


def entries(mod, par):
    mods = [mod.evaluate(mu) for mu in (1.0, 1.5, 4.0)] if par else [mod]
    return np.concatenate([np.ravel(op.entries) for q in mods for op in q.operators])


def replay_rom(b, rec, ctx):
    cfg, hist = b["cfg"], b["hist"]
    l, tfk, kd, m, par, s = cfg["l"], cfg["tf"], cfg["kd"], cfg["m"], cfg["par"], cfg["s"]
    bk = b["basis"]["k"]
    v = V(rec, "%s.%s.%s.%s.m%d.%s" % (l, b["tree"]["k"] if tfk else "none", bk, kd, m, "par" if par else "mono"))
    data = [[{k: (rat(t[k]) if len(t[k]) else None) for k in "QZU"} for t in d] for d in b["data"]]
    first = next((h["obs"] for h in hist if h["obs"]["trained"]), None)
    V0 = rat(first["V"]) if (bk == "lin" and first) else None
    tf = build_tf(b["tree"], s) if tfk else None
    if tf is None and bk == "lin" and V0 is None:
        return
    bs = basis(b["basis"], V0)
    der = None
    scheme = SCHEMES[b["dd"] - 1]
    if kd == "c":
        der = opinf.ddt.UniformFiniteDifferencer(np.arange(1, 6) / 2, scheme=scheme)
    mod = model(cfg)
    Cls = R.ParametricROM if par else R.ROM
    rom = Cls(mod, lifter=lifter(l), transformer=tf, basis=bs, ddt_estimator=der)
    v.true("parts", rom.transformer is tf and rom.basis is bs and rom.model is mod and rom.ddt_estimator is der)
    v.call("call.str", lambda: (str(rom), repr(rom)))
    X0 = np.arange(4.0).reshape(2, 2)
    if not b["pre"] and b["tree"]["k"] not in ("null",):
        v.raises("untrained.encode", UNTRAINED, lambda: rom.encode(X0))
    upred = (lambda: rom.predict(1.0, X0[:, 0], *((3,) if kd == "d" else (np.arange(3.0),)))) if par else \
        (lambda: rom.predict(X0[:, 0], *((3,) if kd == "d" else (np.arange(3.0),))))
    if b["pre"] and not m:
        v.raises("untrained.predict", UNTRAINED, upred)
    prevV = prevE = None
    trained = None
    for i, h in enumerate(hist):
        a, o = h["a"], h["obs"]
        d = data[a["d"] - 1] if a["n"] == "fit" else data[0]
        rec.count("call." + a["n"])
        if a["n"] == "fit":
            args = fit_args(d, cfg, i, par)
            fz = Frozen(**{"%s%d" % (k, j): t[k] for j, t in enumerate(d) for k in "QZU"})
            kw = {}
            if not a["ft"] or i % 2:
                kw["fit_transformer"] = a["ft"]
            if not a["fb"] or i % 2:
                kw["fit_basis"] = a["fb"]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, out = v.call("call.romfit", lambda: rom.fit(**args, **kw))
            if not ok:
                return
            v.true("fit.self", out is rom)
            fz.check(v, "mutated.fit")
        else:
            bad_fit(rom, Cls, data, cfg, a["d"], v)
        # ------------------------------------------------ observations
        if not o["trained"]:
            continue
        av, bv = rat(o["a"]), rat(o["b"])
        Vm = rat(o["V"])
        if bk == "pod":
            Vm = np.array(bs.entries)
            if a["n"] == "fit" and a["fb"]:
                Y = rat(h["Y"])
                fresh = B.PODBasis(num_vectors=2).fit(Y)
                v.eq("train.pod.svdvals", bs.svdvals, fresh.svdvals, atol=1e-6)
                sv = fresh.svdvals
                if len(sv) < 3 or sv[1] - sv[2] > 1e-3:
                    v.eq("train.pod.space", Vm @ Vm.T, fresh.entries @ fresh.entries.T, atol=1e-6)
            elif prevV is not None:
                v.eq("train.pod.kept", Vm, prevV, atol=0, rtol=0)
            prevV = Vm
        red = (lambda A: Vm.T @ A) if bk == "pod" else (lambda A: A)

        def dec(c):
            return unlift(l, ((Vm @ c).T - bv).T / (av if np.ndim(c) == 1 else av[:, None]))

        X, D = rat(o["X"]), rat(o["D"])
        E, ED = red(rat(o["E"])), red(rat(o["ED"]))
        fz = Frozen(X=X, D=D)
        v.eq("encode.states", rom.encode(X), E)
        v.eq("encode.vector", rom.encode(X[:, 0]), E[:, 0])
        v.eq("encode.integer", rom.encode(X.astype(int)), E)
        got = rom.encode(X, D)
        if v.true("encode.pair", isinstance(got, tuple) and len(got) == 2):
            v.eq("encode.pair.states", got[0], E)
            v.eq("encode.pair.lhs", got[1], ED)
        got = rom.encode(X[:, 1], lhs=D[:, 1])
        v.eq("encode.pair.vector", got[0], E[:, 1])
        v.eq("encode.pair.vector", got[1], ED[:, 1])
        v.eq("project", rom.project(X), dec(E) if bk == "pod" else rat(o["PX"]))
        v.eq("project.vector", rom.project(X[:, 2]), (dec(E) if bk == "pod" else rat(o["PX"]))[:, 2])
        C = rat(o["C"]) if bk != "pod" else rat(o["C"])[:Vm.shape[1]]
        DC = rat(o["DC"]) if bk != "pod" else dec(C)
        fc = Frozen(C=C)
        v.eq("decode.states", rom.decode(C), DC)
        v.eq("decode.vector", rom.decode(C[:, 0]), DC[:, 0])
        if o["locsok"] and bk != "pod":
            locs = np.array(o["locs"]) - 1
            v.eq("decode.locs", rom.decode(C, locs=locs), rat(o["DL"]))
            v.eq("decode.locs", rom.decode(C[:, 1], locs=locs), rat(o["DL"])[:, 1])
            v.eq("decode.locs", rom.decode(C, slice(int(locs[0]), int(locs[0]) + 1)), rat(o["DL"])[[k for k in range(len(o["DL"])) if k % len(locs) == 0]]) if tf is None or tf.state_dimension else None
        fc.check(v, "mutated.decode")
        fz.check(v, "mutated.encode")
        Xi, Di = X.copy(), D.copy()
        got = rom.encode(Xi, Di, inplace=True)
        v.eq("encode.inplace", got[0], E)
        v.eq("encode.inplace", got[1], ED)
        # --------------------------------------------------- the model
        if a["n"] == "fit":
            trained = h
        if trained is None:
            continue
        reg = [{k: (rat(t[k]) if len(t[k]) else None) for k in "SZU"} for t in trained["reg"]]
        if a["n"] == "bad":
            ok, got = v.call("call.entries", lambda: entries(mod, par))
            if ok and prevE is not None:
                v.eq("align.rom.model", got, prevE, rtol=1e-12, atol=0)
        if bk == "pod":
            if trained is not h:
                continue
            for t in reg:
                t["S"], t["Z"] = Vm.T @ t["S"], Vm.T @ t["Z"]
        ref = model(cfg)
        U = None if m == 0 else [t["U"] for t in reg]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if par:
                ref.fit(PARAMS[:len(reg)], [t["S"] for t in reg], [t["Z"] for t in reg], U)
            else:
                hs = np.hstack
                ref.fit(hs([t["S"] for t in reg]), hs([t["Z"] for t in reg]), None if U is None else hs(U))
        ok, got = v.call("call.entries", lambda: entries(mod, par))
        if ok:
            v.eq("train.model", got, entries(ref, par), rtol=1e-6, atol=1e-7)
            prevE = got
        # ---------------------------------------------------- prediction
        q0 = X[:, 1]
        e0 = E[:, 1]
        pa = (1.5,) if par else ()
        rng = np.random.default_rng(s + i)
        if kd == "d":
            Up = (rng.integers(-2, 3, (m, 4)).astype(float),) if m else ()
            want = ref.predict(*pa, e0, 4, *Up)
            fp = Frozen(q0=q0, U=Up[0] if m else None)
            v.eq("predict", rom.predict(*pa, q0, 4, *Up), dec(want), rtol=1e-6, atol=1e-6)
            if m:
                v.eq("predict.keyword", rom.predict(*pa, q0, niters=4, inputs=Up[0]), dec(want), rtol=1e-6, atol=1e-6)
            fp.check(v, "mutated.predict")
        else:
            t = np.array([0.0, 0.05, 0.2])
            fu = ((lambda x: np.ones(m) * (1 + x)),) if m else ()
            want = ref.predict(*pa, e0, t, *fu, method="RK45", rtol=1e-8, atol=1e-8)
            got = rom.predict(*pa, q0, t, *fu, method="RK45", rtol=1e-8, atol=1e-8)
            v.eq("predict", got, dec(want), rtol=1e-4, atol=1e-4)


def fit_args(d, cfg, i, par):
    Q, Z, U = [t["Q"] for t in d], [t["Z"] for t in d], [t["U"] for t in d]
    if i % 3 == 2:
        Q = [q.astype(int) for q in Q]
    if cfg["m"] == 1 and (i + cfg["s"]) % 2:
        U = [u[0] for u in U]
    if len(d) == 1 and not par and i % 2 == 0:
        Q, Z, U = Q[0], Z[0], U[0]
        out = dict(states=Q)
        if Z is not None:
            out["lhs"] = Z
        if U is not None:
            out["inputs"] = U
        return out
    if i % 2:
        Q = tuple(Q)
    out = dict(states=Q)
    if Z[0] is not None:
        out["lhs"] = Z
    if U[0] is not None:
        out["inputs"] = U
    if par:
        out["parameters"] = PARAMS[:len(d)]
    return out


def bad_fit(rom, Cls, data, cfg, k, v):
    """a training call whose arguments do not match each other"""
    par, m, kd = cfg["par"], cfg["m"], cfg["kd"]
    d = data[1]          # three trajectories of different lengths
    Q = [t["Q"] + 1 for t in d]
    Z = [np.ones_like(q) for q in Q]
    U = [np.resize(t["U"], (m, q.shape[1])) for t, q in zip(d, Q)] if m else None
    kw = dict(parameters=PARAMS) if par else {}
    r = rom
    if k == 1:
        if m:
            args = dict(states=Q, lhs=Z)
        else:
            args = dict(states=Q, lhs=[z[:, :-1] for z in Z])
    elif k == 2:
        if kd == "c":
            r = Cls(rom.model, lifter=rom.lifter, transformer=rom.transformer, basis=rom.basis)
            args = dict(states=Q, inputs=U)
        else:
            args = dict(states=Q, lhs=[z[:1] for z in Z], inputs=U)
    elif k == 3:
        args = dict(states=Q, lhs=Z + [Z[0]], inputs=U)
    elif k == 4:
        args = dict(states=Q, lhs=[Z[1], Z[0], Z[2]], inputs=U)
    elif k == 5:
        if m and kd == "d" and cfg["s"] % 2:
            args = dict(states=Q, inputs=[U[0], U[1][:, :-2], U[2]])
        elif m:
            args = dict(states=Q, inputs=U + [U[0]])
        else:
            args = dict(states=Q, lhs=Z[:2])
    elif k == 6:
        args = dict(states=Q, lhs=Z, inputs=[U[1], U[0], U[2]]) if m else dict(states=Q + [Q[0][:1]], lhs=Z + [Z[0][:1]])
        if not m and par:
            kw = dict(parameters=PARAMS + [8.0])
    else:
        args = dict(states=Q, lhs=[np.vstack((z, z[:1])) for z in Z], inputs=U)
        if par and cfg["s"] % 2:
            args = dict(states=Q, lhs=Z, inputs=U)
            kw = dict(parameters=PARAMS[:2])
    v.raises("align.rom.fit%d" % k, ERR, lambda: r.fit(**args, **kw))


def rom_runs(chk, acts, maxlen, stride, only=None, seeds=None, stride2=1):
    q, s = chk.tier == "quick", chk.seed * 10
    r = Run("RomMC", dict(Lifters={"none", "quad", "cube"}, Tfs=set(range(9)), Bases={"none", "lin", "learn", "multi", "pod"},
                          Kinds={"c", "d"}, Ms={0, 1, 2}, Seeds=seeds or set(range(s, s + (4 if q else 12))), MaxLen=maxlen, Acts=set(acts),
                          Stride=stride, Stride2=stride2), ["RoundTrip", "Separate"], replay_rom, name="rom%d" % maxlen)
    if only:
        r.ctx["only"] = only
    return r


# ------------------------------------------------------- exact recovery --
def exact_parts(c, o):
    """(transformer, basis) whose composition keeps the range of V0 r-dimensional"""
    n, r, tf, s = c["n"], c["r"], c["tf"], c["s"]
    V0 = np.array(o["V0"], dtype=float).reshape(n, r)
    rows = 2.0 ** (np.arange(n) % 3)
    P = opinf.pre
    D = np.eye(n)
    if tf == 0:
        T = None
    elif tf == 1:
        T = P.ScaleTransformer(0.25)
    elif tf == 2:
        T, D = P.ScaleTransformer(rows), None
    elif tf == 3:
        T = P.ShiftScaleTransformer(centering=True)
    elif tf == 4:
        T = P.ShiftScaleTransformer(centering=True, scaling=("maxabs", "standard", "maxnorm")[s % 3])
    else:
        sh = P.ShiftTransformer(V0 @ (1.0 + np.arange(r)))
        T = P.TransformerPipeline([sh, P.ScaleTransformer(0.5), P.ShiftScaleTransformer(centering=True)])
    k = (s // 2) % 4
    if k == 0 and D is not None:
        b = B.LinearBasis(np.linalg.qr(V0)[0])
    elif k == 1 and n > r:
        b = B.PODBasis(num_vectors=r, weights=1.0 + np.arange(n) % 2)
    elif k == 2 and n == r:
        b = None
    else:
        b = B.PODBasis(num_vectors=r)
    return T, b


AFF = dict(c=O.AffineConstantOperator, A=O.AffineLinearOperator, H=O.AffineQuadraticOperator, G=O.AffineCubicOperator,
           B=O.AffineInputOperator, N=O.AffineStateInputOperator)


def exact_model(c, cont):
    f, md = c["f"], c["md"]
    sol = opinf.lstsq.PlainSolver()
    form = "".join(f)
    if md == "affine":
        ops = [AFF[k]([lambda mu: 1.0, lambda mu: float(np.squeeze(mu))]) for k in f]
        return (M.ParametricContinuousModel if cont else M.ParametricDiscreteModel)(ops, solver=sol)
    if md == "interp":
        return (M.InterpContinuousModel if cont else M.InterpDiscreteModel)(form, solver=sol)
    return (M.ContinuousModel if cont else M.DiscreteModel)(form, solver=sol)


def replay_exact(b, rec, ctx):
    c, o = b["cfg"], b["o"]
    f, md, m, s = "".join(c["f"]), c["md"], c["m"], c["s"]
    cont = c["kd"] == "c"
    v = V(rec, "exact.%s.%s.%s.tf%d.r%dn%dm%d" % (f, c["kd"], md, c["tf"], c["r"], c["n"], m))
    T, bs = exact_parts(c, o)
    par = md in ("affine", "interp")
    pcs = [p for mu in o["pieces"] for p in mu]
    Q = [np.array(p["Q"], dtype=float) for p in pcs]
    L = [np.array(p["L"], dtype=float) if len(p["L"]) else None for p in pcs]
    U = [np.array(p["U"], dtype=float) if m else None for p in pcs]
    args = dict(states=Q)
    if L[0] is not None:
        args["lhs"] = L
    if m:
        args["inputs"] = U
    if par:
        args["parameters"] = [float(x) for x in o["mus"]]
        if s % 3 == 0:     # the order of the training parameters is arbitrary
            for k in args:
                args[k] = [args[k][i] for i in (2, 0, 1)]
    rom = (R.ParametricROM if par else R.ROM)(exact_model(c, cont), transformer=T, basis=bs)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ok, _ = v.call("call.romfit", lambda: rom.fit(**args))
    if not ok:
        return
    q0 = np.array(o["q0"], dtype=float)
    pa = (float(o["mu"]),) if par else ()
    if not cont:
        want = np.array(o["traj"], dtype=float).reshape(c["n"], -1)
        k = want.shape[1]
        if k < 2:
            return
        up = (np.array(o["U"], dtype=float)[:, :k - 1],) if m else ()
        ok, got = v.call("call.predict", lambda: rom.predict(*pa, q0, k, *up))
        if ok:
            v.eq("train.exact", got, want, rtol=1e-4, atol=1e-5)
    else:
        sol = [rat(x) for x in o["sol"]]
        t = np.array([0.0, 0.03, 0.11, 0.25])
        want = np.array([np.polynomial.polynomial.polyval(t, x) for x in sol])
        if not np.all(np.isfinite(want)):
            return
        up = ()
        if m:
            uc = [rat(x) for x in o["u"]]
            up = (lambda x: np.array([np.polynomial.polynomial.polyval(x, z) for z in uc]),)
        ok, got = v.call("call.predict", lambda: rom.predict(*pa, q0, t, *up, method="RK45", rtol=1e-9, atol=1e-9))
        if ok:
            v.eq("train.exact", got, want, rtol=1e-4, atol=1e-4)


def exact_run(chk):
    q, s = chk.tier == "quick", chk.seed * 10
    T = lambda x: tuple(x)
    return Run("RomExactMC", dict(Forms={T("A"), T("cA"), T("AH"), T("cAH"), T("AB"), T("cAB"), T("cABN"), T("cAHB")}, Kinds={"c", "d"},
                                  Rs={1, 2, 3}, Ns={2, 3, 4, 5}, Ms={0, 1, 2}, Tfs=set(range(6)), Modes={"lhs", "traj", "affine", "interp"},
                                  Seeds=set(range(s, s + (4 if q else 20))), Stride=7 if q else 2), ["InRange0"], replay_exact, name="exact")


def c19(chk):
    q = chk.tier == "quick"
    chk.execute([rom_runs(chk, (), 1, 5 if q else 1, r"encode|decode|project|predict|parts|call")])


def c20(chk):
    q = chk.tier == "quick"
    chk.execute([rom_runs(chk, (), 1, 13 if q else 3, r"train|fit|encode|predict|call"),
                 rom_runs(chk, ("bad",), 2, 11 if q else 5, r"train|fit|encode|predict|call", stride2=9 if q else 3),
                 exact_run(chk)])


CHECKS = dict(C19=c19, C20=c20)
