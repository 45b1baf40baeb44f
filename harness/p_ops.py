"""C08, C09, C10: nonparametric operators (spec/Ops.tla, spec/OpsMC.tla)."""
import os
import numpy as np
import scipy.sparse as sparse
import opinf
from vp import Run
from num import V, Frozen, ints, rat, close, why

O = opinf.operators
CLS = dict(c=O.ConstantOperator, A=O.LinearOperator, H=O.QuadraticOperator, G=O.CubicOperator,
           Q=O.QuarticOperator, B=O.InputOperator, N=O.StateInputOperator)
DEG = dict(c=0, A=1, H=2, G=3, Q=4)
ERR_UNSET = (AttributeError, RuntimeError)


def entries_for(t, E):
    E = ints(E)
    return E[:, 0].copy() if t == "c" else E


def make(kind, t):
    """kind 'std' -> the dedicated class, 'poly' -> PolynomialOperator of that degree."""
    if kind == "poly":
        return O.PolynomialOperator(DEG[t])
    return CLS[t]()


def setform(t, call):
    E = ints(call["E"])
    if call["form"] == "tensor":
        r, p = E.shape[0], DEG[t]
        return E.reshape((r,) * (p + 1))
    return entries_for(t, E)


def jac_eq(v, clause, obs, exp):
    exp = np.asarray(exp, dtype=float)
    if np.isscalar(obs) or np.ndim(obs) == 0:
        obs = np.full(exp.shape, float(obs)) if float(obs) == 0 else obs
    if sparse.issparse(obs):
        obs = obs.toarray()
    return v.eq(clause, obs, exp)


def observe(op, obs, cfg, v, focus, kind="std", parity=0, c=1.0):
    """c: the entries given to the object are c times those of the behaviour
    (operators are linear in their entries, so every output scales by c)."""
    t, r, m = cfg["t"], cfg["r"], cfg["m"]
    if not obs["trained"]:
        v.true("unset.entries", op.entries is None and op.shape is None and op.state_dimension is None)
        if t in "BN":
            v.true("unset.input_dimension", op.input_dimension is None)
        q, u = np.ones(r), (np.ones(m) if m else None)
        v.raises("unset.apply", ERR_UNSET, lambda: op.apply(q, u))
        v.raises("unset.jacobian", ERR_UNSET, lambda: op.jacobian(q, u))
        if kind == "std":
            v.raises("unset.galerkin", ERR_UNSET, lambda: op.galerkin(np.eye(r), None))
        return
    E = c * entries_for(t, obs["E"])
    Q, U = ints(obs["Q"]), (ints(obs["U"]) if m else None)
    if parity:       # other memory layouts / integer dtype must not matter
        Q = np.asfortranarray(Q)
    Y = c * ints(obs["apply"])
    k = Q.shape[1]
    fz = Frozen(Q=Q, U=U)
    ent = op.entries
    if sparse.issparse(ent):
        ent = ent.toarray()
    if kind == "poly" and t == "c":
        ent = np.ravel(ent)
    v.eq("entries", ent, E)
    v.true("state_dimension", op.state_dimension == r)
    if t in "BN":
        v.true("input_dimension", op.input_dimension == m, op.input_dimension)

    # datablock
    dim = op.operator_dimension(r, m)
    v.true("operator_dimension", dim == obs["dim"], (dim, obs["dim"]))
    blk = op.datablock(Q, U)
    v.eq("datablock", blk, ints(obs["block"]))
    if k > 1 or True:
        E2 = E.reshape(r, -1)
        v.eq("entries@datablock", E2 @ np.asarray(blk), Y)
    if r == 1 and t not in "BN":
        v.eq("datablock.1d", op.datablock(Q[0], U), ints(obs["block"]))
    if m == 1 and t in "BN":
        v.eq("datablock.1dinput", op.datablock(Q, U[0]), ints(obs["block"]))
        if r == 1:
            v.eq("datablock.1d1d", op.datablock(Q[0], U[0]), ints(obs["block"]))

    # apply: single
    for j in range(k):
        q = Q[:, j]
        u = U[:, j] if m else None
        v.eq("apply.single", op.apply(q, u), Y[:, j])
        if m == 1:
            v.eq("apply.scalar_input", np.reshape(op.apply(q, float(u[0])), (r,)), Y[:, j])
        if kind == "std" and r == 1:
            out = op.apply(float(q[0]), u if (m != 1) else float(u[0]))
            v.true("apply.scalar_state", np.size(out) == 1 and close(np.ravel(out)[0], Y[0, j]), why(out, Y[0, j]))
    # integer-typed states are states too
    if kind == "std":
        qi = Q[:, 0].astype(int)
        v.eq("apply.int_state", op.apply(qi, U[:, 0] if m else None), Y[:, 0])
        v.eq("apply.int_batch", op.apply(Q.astype(int), U), Y)
    # batch
    v.eq("apply.batch", op.apply(Q, U), Y)
    v.eq("apply.batch1", op.apply(Q[:, :1], U[:, :1] if m else None), Y[:, :1])
    if m == 1:
        v.eq("apply.batch_1dinput", np.reshape(op.apply(Q, U[0]), (r, k)), Y)
    if kind == "std" and r == 1 and k > 1:
        out = op.apply(Q[0], U if m > 1 else (U[0] if m else None))
        v.true("apply.batch_r1", close(np.ravel(out), Y[0]), why(out, Y[0]))

    if kind == "std" and t in "HGQ":
        C = CLS[t]
        p = DEG[t]
        full = C.expand_entries(E)
        v.eq("compress(expand)", C.compress_entries(full), E)
        kr = Q
        for _ in range(p - 1):
            kr = np.vstack([Q[i] * kr for i in range(r)])
        v.eq("expand@kron", full @ kr, Y)
        # integer-typed and one-dimensional coefficients are coefficients too
        Ei = np.asarray(entries_for(t, obs["E"]))
        if np.array_equal(Ei, np.round(Ei)):
            fi = C.expand_entries(Ei.astype(int))
            v.eq("expand.int", c * fi, full)
            v.eq("compress.int", c * np.asarray(C.compress_entries(np.ones(C.expand_entries(Ei).shape, dtype=int))), c * C.compress_entries(np.ones(full.shape)))
            v.eq("apply.int_entries", c * np.asarray(C(Ei.astype(int)).apply(Q)), Y)
        if r > 0:
            v.eq("expand.row", C.expand_entries(E[0]), full[:1])
            v.eq("compress.row", C.compress_entries(full[0]), E[:1])
        op2 = C(full)
        v.eq("apply.full_entries", op2.apply(Q), Y)

    # Jacobian
    if obs["jac"]:
        for j in range(k):
            J = c * ints(obs["jac"][j])
            q = Q[:, j]
            u = U[:, j] if m else None
            jac_eq(v, "jacobian", op.jacobian(q, u), J)
            if r == 1:
                jac_eq(v, "jacobian.scalar", np.reshape(op.jacobian(float(q[0]), u), (1, 1)) if t not in "cB" else
                       op.jacobian(float(q[0]), u), J)
            if m == 1:
                jac_eq(v, "jacobian.scalar_input", op.jacobian(q, float(u[0])), J)
        # evaluation order / repetition must not matter
        jac_eq(v, "jacobian.again", op.jacobian(Q[:, 0], U[:, 0] if m else None), c * ints(obs["jac"][0]))
        v.eq("apply.after_jacobian", op.apply(Q, U), Y)

    # Galerkin
    if obs["gal"] and kind == "std":
        for g in obs["gal"]:
            Vm, W, Z = ints(g["V"]), ints(g["W"]), ints(g["Z"])
            fb = Frozen(V=Vm, W=W)
            for which, args in (("pg", (Vm, W)), ("g", (Vm,))):
                ok, red = v.call("galerkin." + which, lambda: op.galerkin(*args))
                if not ok:
                    continue
                v.true("galerkin.type", type(red) is type(op), type(red))
                v.true("galerkin.dim", red.state_dimension == g["rr"], red.state_dimension)
                if m:
                    v.true("galerkin.input_dimension", red.input_dimension == m, red.input_dimension)
                exp = c * np.array([rat(x) for x in g[which]])
                for j in range(Z.shape[1]):
                    u = U[:, j] if m else None
                    v.eq("galerkin.%s.apply" % which, red.apply(Z[:, j], u), exp[j])
                v.eq("galerkin.%s.batch" % which, red.apply(Z, U[:, :Z.shape[1]] if m else None), exp.T)
                if which == "pg":
                    for j in range(2):
                        jac_eq(v, "galerkin.jacobian", red.jacobian(Z[:, j], U[:, j] if m else None), c * rat(g["pj"][j]))
            v.raises("galerkin.misaligned_rows", (ValueError, TypeError),
                     lambda: op.galerkin(np.vstack([Vm, Vm[:1]])))
            v.raises("galerkin.misaligned_cols", (ValueError, TypeError),
                     lambda: op.galerkin(Vm, np.hstack([W, W[:, :1]])))
            fb.check(v, "galerkin.args_untouched")
        ent = op.entries
        v.eq("galerkin.original_untouched", ent.toarray() if sparse.issparse(ent) else ent, E)
    fz.check(v, "args_untouched")


def replay_ops(b, rec, ctx):
    cfg, hist = b["cfg"], b["hist"]
    t, r = cfg["t"], cfg["r"]
    for kind in ctx["kinds"]:
        if kind == "poly" and t in "BN":
            continue
        if kind == "sparse" and t != "A":
            continue
        label = "%s.%s.r%d.m%d" % ("std" if kind == "sparse" else kind, t, r, cfg["m"])
        v = V(rec, label)
        k2 = "std" if kind == "sparse" else kind
        op = None
        c = (1.0, 0.5, 0.25)[cfg["s"] % 3]
        for i, step in enumerate(hist):
            call = step["call"]
            rec.count("call." + call["a"])
            if call["a"] == "set":
                if kind == "poly" and call["form"] != "comp":
                    E = c * entries_for(t, step["obs"]["E"])
                else:
                    E = c * setform(t, call)
                if kind == "poly" and t == "c":
                    E = E.reshape(-1, 1)
                arg = E.copy()
                if kind == "sparse":
                    E = sparse.csc_array(E) if i % 2 else sparse.coo_array(E)
                if op is None and cfg["s"] % 2 and k2 == "std":
                    op = CLS[t](E)
                else:
                    op = make(k2, t) if op is None else op
                    if i % 2:
                        op.entries = E
                    else:
                        op.set_entries(E)
                if kind != "sparse":
                    v.true("set.arg_untouched", np.array_equal(arg, E))
            elif call["a"] == "clear":
                del op.entries
            elif call["a"] == "copy":
                old = op
                op = old.copy()
                v.true("copy.type", type(op) is type(old) and op is not old)
                v.true("copy.equal", bool(op == old))
                E2 = c * entries_for(t, call["E"])
                if kind == "poly" and t == "c":
                    E2 = E2.reshape(-1, 1)
                same = np.array_equal(E2, old.entries.toarray() if sparse.issparse(old.entries) else old.entries)
                # overwrite the original, including in its own storage
                if not sparse.issparse(old.entries):
                    old.entries[...] = 77.0
                old.set_entries(E2)
                if kind != "sparse" and not same:
                    v.true("copy.not_equal_after_change", not bool(op == old))
            if op is None:
                op = make(k2, t)
            observe(op, step["obs"], cfg, v, ctx["focus"], k2, parity=(cfg["s"] + i) % 2, c=c)
            v.true("roundtrip.eq_self", bool(op == op))


def ops_runs(chk, focus, invs):
    s0 = chk.seed * 100
    q = chk.tier == "quick"
    ctx = dict(focus=focus, kinds=["std", "poly", "sparse"])
    runs = []
    if q:
        runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "G", "Q", "B", "N"}, Rs={1, 2, 3}, Ms={0, 1, 2, 3},
                                      Seeds={s0 + 1, s0 + 2}, MaxLen=2, K=5, Focus=focus), invs, replay_ops, ctx=ctx, name="histories"))
        runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "G", "B", "N"}, Rs={4, 5}, Ms={0, 1, 4},
                                      Seeds={s0 + 1, s0 + 2}, MaxLen=1, K=6, Focus=focus), invs, replay_ops, ctx=ctx, name="larger"))
        if focus != "gal":
            runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "B", "N"}, Rs={6, 9}, Ms={0, 5},
                                          Seeds={s0 + 1}, MaxLen=1, K=3, Focus=focus), invs, replay_ops, ctx=ctx, name="largest"))
        runs.append(Run("OpsMC", dict(Ts={"Q"}, Rs={4}, Ms={0},
                                      Seeds={s0 + 1}, MaxLen=1, K=3, Focus=focus), invs, replay_ops, ctx=ctx, name="quartic"))
    else:
        runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "G", "Q", "B", "N"}, Rs={1, 2, 3}, Ms={0, 1, 2, 3},
                                      Seeds=set(range(s0, s0 + 6)), MaxLen=3, K=5, Focus=focus), invs, replay_ops, ctx=ctx, name="histories"))
        runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "G", "Q", "B", "N"}, Rs={4}, Ms={0, 1, 2, 4},
                                      Seeds=set(range(s0, s0 + 4)), MaxLen=2, K=5, Focus=focus), invs, replay_ops, ctx=ctx, name="larger"))
        runs.append(Run("OpsMC", dict(Ts={"c", "A", "H", "G", "B", "N"}, Rs={5, 6, 7}, Ms={0, 1, 3, 6},
                                      Seeds=set(range(s0, s0 + 3)), MaxLen=1, K=5, Focus=focus), invs, replay_ops, ctx=ctx, name="largest"))
        runs.append(Run("OpsMC", dict(Ts={"Q"}, Rs={5}, Ms={0},
                                      Seeds={s0 + 1}, MaxLen=1, K=3, Focus=focus), invs, replay_ops, ctx=ctx, name="quartic5"))
    return runs


def c08(chk):
    chk.execute(ops_runs(chk, "app", ["CompressSound"]))
    return ["entries, states and inputs are small integers (exact in binary floating point)"]


def c09(chk):
    import p_model
    more = p_model.model_runs(chk, "jac", ["SumIsSum"])
    more[0].ctx["only"] = "jac"
    chk.execute(ops_runs(chk, "jac", ["Euler"]) + more)


def c10(chk):
    import p_model
    more = p_model.model_runs(chk, "gal", ["SumIsSum"])
    more[0].ctx["only"] = "galerkin"
    chk.execute(ops_runs(chk, "gal", []) + more)


CHECKS = dict(C08=c08, C09=c09, C10=c10)
