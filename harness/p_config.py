"""Entries of operators and lists of operators (spec/EntriesMC.tla, ConfigMC.tla): C30."""
import warnings
import numpy as np
import scipy.sparse as sparse
import opinf
from vp import Run
from num import V, ints
from p_ops import CLS, DEG

O = opinf.operators
REFUSED = (TypeError, ValueError, AttributeError, opinf.errors.DimensionalityError)
AFF = {t: getattr(O, "Affine%sOperator" % k) for t, k in dict(c="Constant", A="Linear", H="Quadratic", G="Cubic", B="Input", N="StateInput").items()}
INT = {t: getattr(O, "Interp%sOperator" % k) for t, k in dict(c="Constant", A="Linear", H="Quadratic", G="Cubic", B="Input", N="StateInput").items()}


def coeff(j):
    """the j-th affine coefficient of spec/EntriesMC.tla (Coeff)"""
    return lambda mu: (1, np.atleast_1d(mu)[0], np.atleast_1d(mu)[0] ** 2 + np.atleast_1d(mu).size)[j]


class AtNodes:
    """an interpolator that is exact at the training parameters"""

    def __init__(self, points, values):
        self.x, self.y = np.array(points, dtype=float), np.array(values)
        if len(np.unique(self.x.reshape(len(self.x), -1), axis=0)) < len(self.x):
            raise ValueError("points are not distinct")

    def __call__(self, at):
        d = abs(self.x - at)
        return self.y[np.argmin(d if d.ndim == 1 else d.sum(axis=1))]


def given(h):
    """the object handed to set_entries()"""
    x, d, f = ints(h["x"]), tuple(h["d"]), h["form"]
    a = x.reshape(d)
    if f == "array":
        return a if d else float(x[0])
    if f == "int":
        return a.astype(int) if d else int(x[0])
    if f == "fortran":
        return np.asfortranarray(a) if d else float(x[0])
    if f == "view":
        if not d:
            return np.float64(x[0])
        big = np.full(tuple(2 * k for k in d), 77.0)
        w = tuple(slice(0, None, 2) for _ in d)
        big[w] = a
        return big[w]
    if f in ("nan", "inf"):
        a = a.copy()
        a.flat[a.size // 2] = np.nan if f == "nan" else np.inf * (-1) ** a.size
        return a
    if f == "list":
        return a.tolist()
    return sparse.csr_array(a) if f == "csr" else sparse.coo_array(a)


def dense(E):
    return E.toarray() if sparse.issparse(E) else np.asarray(E)


def entries_eq(v, clause, obs, E):
    E = ints(E)
    o = dense(obs)
    v.eq(clause, o.reshape(E.shape) if o.size == E.size and o.shape[0] == E.shape[0] else o, E)


def observe(v, op, cfg, o, parametric):
    if not o["set"]:
        v.true("none", op.entries is None and op.shape is None and op.state_dimension is None)
        if cfg["t"] in "BN":
            v.true("none.inputs", op.input_dimension is None)
        q = np.ones(2)
        v.raises("none.apply", (AttributeError, RuntimeError), (lambda: op.evaluate(q)) if parametric else lambda: op.apply(q, q))
    else:
        if parametric:
            v.true("count", len(op.entries) == len(o["E"]), "%d entries, required %d" % (len(op.entries), len(o["E"])))
            for A, E in zip(op.entries, o["E"]):
                entries_eq(v, "entries", A, E)
            one = op.entries[0]
        else:
            one = op.entries
            entries_eq(v, "entries", one, o["E"])
            ok, y = v.call("apply", lambda: op.apply(ints(o["probe"]["q"]), ints(o["probe"]["u"])))
            if ok:
                v.eq("apply", y, ints(o["probe"]["y"]))
        v.true("shape", tuple(op.shape) == tuple(one.shape), "%s: %s" % (op.shape, one.shape))
        v.true("state_dimension", op.state_dimension == o["r"], "%r, required %r" % (op.state_dimension, o["r"]))
        if cfg["t"] in "BN":
            v.true("input_dimension", op.input_dimension == o["m"], "%r, required %r" % (op.input_dimension, o["m"]))
    if parametric:
        v.true("parameter_dimension", op.parameter_dimension == (o["p"] or None), "%r, required %r" % (op.parameter_dimension, o["p"] or None))
        if cfg["kind"] == "interp":
            pars = op.training_parameters
            if o["pars"]:
                v.eq("training_parameters", np.reshape(pars, (len(pars), -1)), ints(o["pars"]))
            else:
                v.true("training_parameters", pars is None)


def attempt(v, what, ok, fn):
    """fn() has to be accepted iff ok"""
    v.rec.count("accepted" if ok else "refused")
    try:
        out = fn()
    except REFUSED as ex:
        if ok:
            v.true("accepts." + what, False, repr(ex))
        return None
    except Exception as ex:
        v.true(("accepts." if ok else "refuses.") + what, False, repr(ex))
        return None
    if not ok:
        v.true("refuses." + what, False, "accepted")
    return out


def replay_entries(b, rec, ctx):
    cfg, H = b["cfg"], b["h"]
    kind, t, s = cfg["kind"], cfg["t"], cfg["s"]
    v = V(rec, kind + "." + t)
    parametric = kind in ("affine", "interp")
    via = (s + len(H) + sum(len(h["op"]) for h in H)) % 3
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mk = {"std": lambda e=None: CLS[t](e), "poly": lambda e=None: O.PolynomialOperator(DEG[t], e)}.get(kind)
        if kind == "affine":
            fs = [coeff(j) for j in range(cfg["nterms"])]
            mk = lambda: AFF[t](fs) if via else AFF[t](lambda mu: [f(mu) for f in fs], nterms=cfg["nterms"])
        elif kind == "interp":
            p = max((h["p"] for h in H if h["op"] == "pars" and h["ok"]), default=1)
            mk = lambda: INT[t](InterpolatorClass=AtNodes if p > 1 or via == 2 and not any(h.get("how") == "dup" for h in H) else None)
        op = mk()
        for i, h in enumerate(H):
            if h["op"] == "set":
                e = given(h)
                keep = dense(e).copy() if h["ok"] else None
                if i == 0 and via == 0 and h["ok"]:
                    op = attempt(v, "new", True, lambda: mk(e)) or op
                elif via == 1:
                    attempt(v, "entries", h["ok"], lambda: setattr(op, "entries", e))
                else:
                    attempt(v, "entries", h["ok"], lambda: op.set_entries(e))
                if h["ok"]:
                    v.true("argument", np.array_equal(dense(e), keep))
            elif h["op"] == "del":
                del op.entries
            elif h["op"] == "list":
                mats = [ints(x).reshape(tuple(h["d"] if j < h["n"] - 1 else h["d2"])) for j, x in enumerate(h["x"])]
                if not h["d"]:
                    mats = [float(x) for x in mats]
                same = h["d"] == h["d2"] and via == 2 and len(h["d"]) > 0
                if i == 0 and via == 0 and h["ok"] and kind == "affine":
                    op = attempt(v, "new", True, lambda: AFF[t]([coeff(j) for j in range(cfg["nterms"])], entries=mats)) or op
                else:
                    attempt(v, "list", h["ok"], lambda: op.set_entries(np.array(mats) if same else mats))
            elif h["op"] == "block":
                a = ints(h["x"]).reshape(tuple(h["d"]))
                attempt(v, "block", h["ok"], lambda: op.set_entries(a, fromblock=True))
            elif h["op"] == "p":
                attempt(v, "parameter_dimension", h["ok"], lambda: setattr(op, "parameter_dimension", h["p"]))
            elif h["op"] == "pars":
                P = ints(h["pars"])
                if h["how"] == "ragged":
                    P = [row[: 1 + (j % 2)] for j, row in enumerate(P.tolist())]
                elif h["how"] == "cube":
                    P = P[:, :, None] * np.ones((1, 1, 2))
                elif h["p"] == 1 and via:
                    P = P[:, 0] if via == 1 else P[:, 0].tolist()
                attempt(v, "training_parameters", h["ok"], lambda: op.set_training_parameters(P) if via else setattr(op, "training_parameters", P))
            elif h["op"] == "eval":
                mu = ints(h["mu"])
                if h["p"] == 1 and (s + i) % 2:
                    mu = float(mu[0])
                out = attempt(v, "evaluate", h["ok"], lambda: op.evaluate(mu))
                if out is not None and h["ok"]:
                    v.true("evaluate.type", type(out) is CLS[t], type(out).__name__)
                    entries_eq(v, "evaluate.entries", out.entries, h["value"])
            observe(v, op, cfg, h["obs"], parametric)


# ------------------------------------------------------------------- models --
M = opinf.models
MODELS = dict(d=M.DiscreteModel, c=M.ContinuousModel, pd=M.ParametricDiscreteModel, pc=M.ParametricContinuousModel,
              id=M.InterpDiscreteModel, ic=M.InterpContinuousModel)
ERROR = dict(empty=ValueError, type=TypeError, twice=ValueError, r=opinf.errors.DimensionalityError, m=opinf.errors.DimensionalityError,
             p=opinf.errors.DimensionalityError)
SOLVER = dict(none=lambda: None, zero=lambda: 0, number=lambda: 2.0, L2=lambda: opinf.lstsq.L2Solver(1.0), TSVD=lambda: opinf.lstsq.TruncatedSVDSolver(1),
              negative=lambda: -1.0)
SOLVER["class"] = lambda: opinf.lstsq.L2Solver
KIND = dict(Plain=opinf.lstsq.PlainSolver, L2=opinf.lstsq.L2Solver, TSVD=opinf.lstsq.TruncatedSVDSolver)


class User(O.OperatorTemplate):
    """an operator of the user's own, known from the start"""

    def __init__(self, op):
        self.op = op

    @property
    def state_dimension(self):
        return self.op.state_dimension

    def apply(self, state, input_=None):
        return self.op.apply(state, input_)

    def jacobian(self, state, input_=None):
        return self.op.jacobian(state, input_)


class UserIn(User, O.InputMixin):
    @property
    def input_dimension(self):
        return self.op.input_dimension


def operator(o, E):
    t, f = o["t"], o["form"]
    E = ints(E)
    e = E[:, 0] if t == "c" else E
    if f == "abbr":
        return t
    if f in ("junk", "badabbr", "class"):
        return {"junk": 3.5, "badabbr": "Z", "class": CLS[t]}[f]
    if f == "std":
        return CLS[t](e) if o["known"] else CLS[t]()
    if f == "poly":
        return O.PolynomialOperator(DEG[t], e) if o["known"] else O.PolynomialOperator(DEG[t])
    if f == "user":
        return (UserIn if t in "BN" else User)(CLS[t](e))
    if f == "affine":
        op = AFF[t]([coeff(0), coeff(1)], entries=[e, 2 * e] if o["known"] else None)
        if o["p"]:
            op.parameter_dimension = o["p"]
        return op
    pars = np.arange(1.0, 4.0) if o["p"] == 1 else np.arange(6.0).reshape(3, 2) if o["p"] == 2 else np.arange(9.0).reshape(3, 3)
    op = INT[t](training_parameters=pars if o["p"] else None, InterpolatorClass=AtNodes)
    if o["known"]:
        op.set_entries([e, 2 * e, -e])
    return op


def look_model(v, model, kd, o, objs, fresh):
    r, m, p = o["r"] or None, (o["m"] or None if o["inputs"] else 0), o["p"] or None
    v.true("state_dimension", model.state_dimension == r, "%r, required %r" % (model.state_dimension, r))
    v.true("input_dimension", model.input_dimension == m, "%r, required %r" % (model.input_dimension, m))
    if kd[0] in "pi":
        v.true("parameter_dimension", model.parameter_dimension == p, "%r, required %r" % (model.parameter_dimension, p))
    ops = model.operators
    if not v.true("operators.number", len(ops) == o["n"], "%d, required %d" % (len(ops), o["n"])):
        return
    for op, i, t, known in zip(ops, o["ids"], o["ts"], o["known"]):
        v.true("operators.object", op is objs[i] if i else type(op) is (CLS if len(kd) == 1 else INT)[t] and op.entries is None, "%r in place of %r" % (op, objs.get(i, t)))
    for j, t in zip(o["first"], "cAHGBN"):
        got = getattr(model, t + "_")
        v.true("found", got is (ops[j - 1] if j else None), "%s_ is %r" % (t, got))
    if o["solver"] == "none":
        v.true("solver", model.solver is None, repr(model.solver))
    elif o["solver"] == "some":
        v.true("solver", model.solver is not None, repr(model.solver))
    elif o["solver"] != "free":
        v.true("solver", type(model.solver) is KIND[o["solver"]], "%s instead of %s" % (type(model.solver).__name__, o["solver"]))
    disc = kd[-1] == "d"
    if all(o["known"]):
        if o["rhs"]:
            q, u = ints(o["rhs"]["q"]), ints(o["rhs"]["u"]) if o["inputs"] else None
            fn = (lambda g: g(q, u)) if disc else (lambda g: g(0.5, q, (lambda t: u) if o["inputs"] else None))
            for what, g, want in (("rhs", model.rhs, o["rhs"]["y"]), ("jacobian", model.jacobian, o["rhs"]["J"])):
                ok, y = v.call(what, lambda: fn(g))
                if ok:
                    v.eq(what, y, ints(want))
        if o["inputs"]:
            q, mu = np.ones(r), (() if len(kd) == 1 else (np.ones(p or 1),))
            v.raises("inputs.required", ValueError, lambda: model.predict(*mu, q, 3) if disc else model.predict(*mu, q, np.linspace(0, 1e-3, 3)))
    elif len(kd) == 1:
        q = np.ones(r or 2)
        v.raises("untrained", (AttributeError, ValueError), lambda: model.predict(q, 3) if disc else model.predict(q, np.linspace(0, 1e-3, 3)))
    if fresh:
        other = MODELS[kd](list(ops)[::-1])
        same = other.state_dimension == model.state_dimension and other.input_dimension == model.input_dimension
        v.true("equal", (model == other) is same or (model == other) == same, "model == model with the same operators: %r" % (model == other))
        for i, j in o["unequal"]:
            twice = list(ops)
            twice[j - 1] = ops[i - 1].copy()
            try:
                other = MODELS[kd](twice)
                other.state_dimension = model.state_dimension
                if o["inputs"] and other._has_inputs and model.input_dimension:
                    other.input_dimension = model.input_dimension
            except Exception:
                continue
            v.true("unequal.twice", not (model == other) and not (other == model), "%d in place of %d" % (i, j))
        if len(ops) > 1:
            try:
                less = MODELS[kd](list(ops)[1:])
            except Exception:
                return
            v.true("unequal", not (model == less), "equal to the model without the first operator")


def replay_config(b, rec, ctx):
    kd, s, H = b["cfg"]["kind"], b["cfg"]["s"], b["h"]
    v = V(rec, kd)
    model, objs = None, {}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for h in H:
            if h["op"] in ("new", "operators"):
                new = [operator(o, E) for o, E in zip(h["ops"], h["entries"])]
                for o, x in zip(h["ops"], new):
                    if not isinstance(x, str):
                        objs[o["id"]] = x
                arg = new
                if len(new) == 1 and h["single"]:
                    arg = new[0]
                elif new and all(isinstance(x, str) for x in new):
                    arg = "".join(new)
                elif h["single"]:
                    arg = tuple(new)
                if h["op"] == "new":
                    def go():
                        return MODELS[kd](arg)
                else:
                    def go():
                        model.operators = arg
                rec.count("list." + ("accepted" if h["ok"] else "+".join(sorted(h["wrong"]))))
                try:
                    out = go()
                    got = None
                except Exception as ex:
                    out, got = ex, type(ex)
                want = {ERROR[w] for w in h["wrong"]}
                if (got is None) != (not want) or (got and got not in want):
                    v.true("%s.%s" % ("accepts" if not want else "refuses", "+".join(sorted(h["wrong"])) or "list"), False,
                           "%s(%r): %r, required: %s" % (h["op"], [(o["t"], o["form"], o["known"], o["r"], o["m"], o["p"]) for o in h["ops"]], out, sorted(h["wrong"]) or "accepted"))
                    return
                if h["op"] == "new" and h["ok"]:
                    model = out
                if h["ok"] and not (isinstance(arg, (str, tuple)) or arg is new):
                    pass
                if h["ok"] and isinstance(arg, list):
                    arg.append(None)                     # the model keeps a list of its own
                    v.true("list.own", len(model.operators) == len(new) - 1)
            elif h["op"] in ("r", "m"):
                name = "state_dimension" if h["op"] == "r" else "input_dimension"
                attempt(v, name, h["ok"], lambda: setattr(model, name, h["x"]))
            else:
                attempt(v, "solver", h["ok"], lambda: setattr(model, "solver", SOLVER[h["x"]]()))
            if model is not None:
                look_model(v, model, kd, h["obs"], objs, h["op"] in ("new", "operators", "r") and h["ok"])


def c30(chk):
    q, s = chk.tier == "quick", chk.seed
    chk.execute([
        Run("EntriesMC", dict(Kinds={"std", "poly", "affine", "interp"}, Ts={"c", "A", "H", "G", "Q", "B", "N"}, Seeds=set(range(s, s + (2 if q else 6))),
                              MaxLen=3, Keep=9 if q else 8), ["WellFormed", "SameShape"], replay_entries),
        Run("ConfigMC", dict(Kinds=set(MODELS), Seeds=set(range(s, s + (4 if q else 8))), MaxLen=3, Lists=24 if q else 48, Keep=7),
            ["Consistent"], replay_config),
    ])
    return []


CHECKS = dict(C30=c30)
