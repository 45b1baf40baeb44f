"""The life of an object (spec/LifeMC.tla): C04, C05, C23, C24, C26.

One adapter per class says how to make, train, set, use, observe, save ... an object.  The specification says
when two objects must behave alike; the replay compares each object with one brought to the same state directly."""
import contextlib
import copy
import hashlib
import io
import os
import re
import shutil
import tempfile
import warnings
import numpy as np
import scipy.interpolate as spinterpolate
import scipy.sparse as sparse
import h5py
import opinf
from vp import Run, Raw, tla
from num import V, why

O, M, B, P, S, R = opinf.operators, opinf.models, opinf.basis, opinf.pre, opinf.lstsq, opinf.roms
ERR = (ValueError, TypeError, opinf.errors.DimensionalityError)
UNTRAINED = (AttributeError, RuntimeError)
REFUSED = ERR + UNTRAINED + (NotImplementedError,)
LOADERR = (opinf.errors.LoadfileFormatError, TypeError, ValueError, KeyError, OSError, AttributeError)


_GIVEN = []        # every array made for a call, with a copy


def arr(seed, *shape, lo=-4, hi=4):
    rng = np.random.default_rng(seed)
    x = rng.integers(lo, hi + 1, shape) + rng.integers(0, 8, shape) / 8.0
    _GIVEN.append((x, x.copy()))
    return x


class A:
    """adapter of one class"""
    name, nd, ns, nb, nw = None, 2, 1, 0, 0
    refit_ = reset_ = rs = save_ = copy_ = False
    setpre = True
    verify_ = False
    tol = 1e-9
    dim, alt, last = "n", None, None

    def other(self, size):
        """one more data set, the last one: of another dimension"""
        self.nd += 1
        self.last, self.alt = {self.nd: size}, getattr(self, self.dim)
        return self

    def at(self, tr):
        """arguments from now on are of the dimension of data set tr"""
        if self.last:
            setattr(self, self.dim, self.last.get(tr, self.alt))

    def rec(self, i):
        return dict(name=self.name, id=i + 1, nd=self.nd, ns=self.ns, nb=self.nb, nw=self.nw, refit=self.refit_, reset=self.reset_,
                    rs=self.rs, save=self.save_, copy=self.copy_, setpre=self.setpre, verify=hasattr(self.cls, 'verify') if hasattr(self, 'cls') else False)

    # arguments: (fit arguments), made anew for every call
    def data(self, d):
        return ()

    def inplace(self, k):
        """is the bad call k one that may write into its argument?"""
        return False

    def use(self, o):
        """-> (arguments given, things returned)"""
        return (), ()

    def fit(self, o, d):
        args = self.data(d)
        self.dofit(o, args, d)
        return args

    def dofit(self, o, args, d):
        o.fit(*args)

    def copy(self, o):
        return o.copy()

    def save(self, o, path, ow):
        o.save(path, overwrite=ow) if ow or hash(path) % 2 else o.save(path)

    def load(self, path):
        return self.cls.load(path)

    def wrong(self, k):
        return self.wrongs[k]

    def ops(self, o, trained):
        """{name: thunk} the behaviour; names starting with ! need training"""
        return {}


# --------------------------------------------------------------- transformers
class Tf(A):
    save_ = True
    n, fitn = 4, True

    def __init__(self, name, mk, cls, loader=None, n=4, trains=True, wrongs=(), nb=6):
        self.name, self.mk, self.cls, self.loader, self.n, self.trains = name, mk, cls, loader, n, trains
        self.nd = 3 if trains else 2
        self.wrongs = list(wrongs)
        self.nw = len(self.wrongs)
        self.nb = nb

    def new(self):
        return self.mk()

    def load(self, path):
        return self.loader(path) if self.loader else self.cls.load(path)

    def data(self, d):
        return (arr(10 * self.n + d, self.n, 5 + d),)

    def dofit(self, o, args, d):
        if d == 2:
            o.fit_transform(*args)
        else:
            o.fit(*args)

    def use(self, o):
        Y, W, L = arr(5, self.n, 3), arr(6, self.n, 3), arr(7, 2, 3)
        out = []
        try:
            out = [o.transform(Y), o.inverse_transform(W), o.transform_ddts(W), o.transform(Y[:, 0]), o.inverse_transform(L, locs=[0, self.n - 1])]
        except UNTRAINED + ERR:
            pass
        return (Y, W, L), out

    def ops(self, o, trained):
        p = "!" if self.trains else ""
        Y, W = arr(3, self.n, 3), arr(4, self.n, 3)
        out = {p + "transform": lambda: o.transform(Y), p + "inverse": lambda: o.inverse_transform(W),
               p + "ddts": lambda: o.transform_ddts(W), p + "vector": lambda: o.transform(Y[:, 0])}
        if not isinstance(o, (P.TransformerMulti,)):
            out["name"] = lambda: o.name
        else:
            out["names"] = lambda: o.variable_names
        out["dim"] = lambda: o.state_dimension
        for a in ("centering", "scaling", "byrow", "verbose", "num_variables", "num_transformers", "mean_", "scale_", "shift_", "reference", "scaler"):
            if hasattr(o, a):
                out["attr." + a] = lambda a=a: getattr(o, a)
        return out

    def bad(self, o, k):
        n = self.n
        if k == 1:
            o.transform(arr(1, n + 1, 3))
        elif k == 2:
            o.inverse_transform(arr(1, n - 1, 3))
        elif k == 3:
            o.transform_ddts(arr(1, n + 1, 3))
        elif k == 4:
            o.inverse_transform(arr(1, 2, 3), locs=[0, 1, 2])
        elif k == 5:
            o.transform(arr(1, n + 1, 3), inplace=True)
        else:
            o.transform(arr(1, n - 1))


    def inplace(self, k):
        return k == 5


class NullTf(Tf):
    """learns nothing but the dimension, which may stay open"""

    def ops(self, o, trained):
        out = Tf.ops(self, o, trained)
        return {k.lstrip("!"): f for k, f in out.items()}



# --------------------------------------------------------------- bases
class Bas(A):
    save_, copy_ = True, True

    def __init__(self, name, mk, cls, loader=None, n=5, sets=(), trains=True, wrongs=(), sym=False):
        self.name, self.mk, self.cls, self.loader, self.n, self.sets, self.trains = name, mk, cls, loader, n, sets, trains
        self.ns = 1 + len(sets)
        self.nd = 3 if trains else 2
        self.nb = 5
        self.wrongs = list(wrongs)
        self.nw = len(self.wrongs)
        self.copy_ = hasattr(cls, "copy")

    def new(self):
        return self.mk()

    def load(self, path):
        return self.loader(path) if self.loader else self.cls.load(path)

    def data(self, d):
        return (arr(20 * self.n + d, self.n, 7 + d),)

    def dofit(self, o, args, d):
        if d == 2:
            o.fit_compress(*args) if hasattr(o, "fit_compress") else o.fit(*args)
        else:
            o.fit(*args)

    def set(self, o, k):
        o.set_dimension(**(self.first if k == 1 else self.sets[k - 2]))

    def use(self, o):
        Y, out = arr(5, self.n, 3), []
        C = None
        try:
            C = arr(6, o.reduced_state_dimension, 2)
            out = [o.compress(Y), o.decompress(C), o.project(Y), o.compress(Y[:, 0]), o.decompress(C[:, 0], locs=[1, 2]), o.projection_error(Y)]
        except UNTRAINED + ERR:
            pass
        return (Y,) + (() if C is None else (C,)), out

    def ops(self, o, trained):
        p = "!" if self.trains else ""
        Y = arr(3, self.n, 3)
        C = arr(4, 9, 2)
        out = {p + "compress": lambda: o.compress(Y), p + "decompress": lambda: o.decompress(C[:o.reduced_state_dimension or 1]),
               p + "project": lambda: o.project(Y), p + "vector": lambda: o.compress(Y[:, 1]), "shape": lambda: o.shape,
               "r": lambda: o.reduced_state_dimension, "n": lambda: o.full_state_dimension, p + "error": lambda: o.projection_error(Y)}
        for a in ("entries", "weights", "svdvals", "leftvecs", "rightvecs", "max_vectors", "cumulative_energy", "residual_energy", "num_variables",
                  "name", "svdsolver", "full_variable_sizes", "variable_names"):
            if hasattr(o, a):
                out["attr." + a] = lambda a=a: dense(getattr(o, a))
        return out

    def bad(self, o, k):
        n = self.n
        if k == 1:
            o.compress(arr(1, n + 1, 3))
        elif k == 2:
            o.decompress(arr(1, (o.reduced_state_dimension or 2) + 1, 3))
        elif k == 3:
            o.compress(arr(1, n - 1))
        elif k == 4:
            o.project(arr(1, n + 1, 2))
        elif hasattr(o, "set_dimension"):
            o.set_dimension()
        else:
            o.decompress(arr(1, (o.reduced_state_dimension or 2) + 2))


def dense(x):
    return x.toarray() if sparse.issparse(x) else x


# --------------------------------------------------------------- solvers
class Sol(A):
    save_ = copy_ = reset_ = True

    wide = 3        # columns of the third data set

    def __init__(self, name, mk, cls, sets=(), setter=None, rs=False, wrongs=(), nd=3, bads=()):
        if setter in (None, "num_svdmodes") or cls in (S.L2Solver, S.L2DecoupledSolver):
            self.wide = 5
        self.name, self.mk, self.cls, self.sets, self.setter, self.rs = name, mk, cls, list(sets), setter, rs
        self.ns, self.nd, self.bads = max(1, len(self.sets)), nd, list(bads)
        self.nb = 5 + len(self.bads)
        self.wrongs = list(wrongs)
        self.nw = len(self.wrongs)
        self.reset_ = rs or setter != "regularizer" and setter != "method"

    def new(self):
        return self.mk()

    def set(self, o, k):
        setattr(o, self.setter, copy.deepcopy(self.sets[k - 1]))

    def data(self, d):
        w = self.wide if d == 3 else 3
        return (arr(30 + d, 8 + d, w), arr(40 + d, 2, 8 + d))

    def use(self, o):
        out, Oh = [], arr(8, 2, o.d or 3)
        try:
            out = [o.solve(), o.residual(Oh), o.cond()]
            if hasattr(o, "regresidual"):
                out.append(o.regresidual(Oh))
        except UNTRAINED + ERR:
            pass
        return (Oh,), out

    def ops(self, o, trained):
        Oh = arr(9, 2, o.d or 3)
        out = {"!solve": lambda: o.solve(), "!residual": lambda: o.residual(Oh), "!cond": lambda: o.cond(), "str": lambda: re.sub(r"np\.\w+\(([^()]*)\)", r"\1", str(o))}
        for a in ("k", "d", "r", "data_matrix", "lhs_matrix", "options", "regularizer", "method", "num_svdmodes", "max_modes"):
            if hasattr(type(o), a):
                out["attr." + a] = lambda a=a: getattr(o, a)
        for a in ("regcond", "posterior", "augcond", "error", "tcond"):
            if callable(getattr(o, a, None)) and not (a == "posterior" and not trained):
                out["!" + a] = lambda a=a: getattr(o, a)()
        if hasattr(o, "regresidual"):
            out["!regresidual"] = lambda: o.regresidual(Oh)
        return out

    def bad(self, o, k):
        D, Z = self.data(2)
        if k == 1:
            o.fit(D, Z[:, :-1])
        elif k == 2:
            o.fit(D[0], Z)
        elif k == 3:
            o.fit(D, np.array([Z, Z]))
        elif k == 4:
            o.residual(arr(1, 2, (o.d or 3) + 1))
        elif k == 5:
            o.residual(arr(1, 3, o.d or 3))
        else:
            self.bads[k - 6](o)


# --------------------------------------------------------------- operators
class Op(A):
    save_ = copy_ = True

    def __init__(self, cls, shape, r=3, m=0, mk=None, wrongs=(), sp=False, name=None):
        self.cls, self.shape, self.r, self.m, self.mk, self.sp = cls, shape, r, m, mk or cls, sp
        self.name = name or cls.__name__ + ("Sparse" if sp else "")
        self.nb = 3
        self.wrongs = [w for w in wrongs if w is not cls]
        self.nw = len(self.wrongs)

    def new(self):
        return self.mk()

    def wrong(self, k):
        return self.wrongs[k].load

    def data(self, d):
        E = arr(50 + d, *self.shape)
        if self.sp and d == 1:
            E = E * np.outer([1.0, 1.0, 0.0], [1.0, 1.0, 0.0])          # nothing stored in the last row and column
        return (sparse.csr_array(E) if self.sp else E,)

    def dofit(self, o, args, d):
        if d == 2 and not self.sp:
            o.entries = args[0]
        else:
            o.set_entries(*args)

    def qu(self):
        return arr(8, self.r), (arr(9, self.m) if self.m else None)

    def use(self, o):
        q, u = self.qu()
        Q, U, Vr = arr(4, self.r, 4), (arr(6, self.m, 4) if self.m else None), arr(7, self.r, 2)
        out = []
        try:
            out = [o.apply(q, u), o.apply(Q, U), o.jacobian(q, u), o.galerkin(Vr).entries]
        except UNTRAINED + ERR:
            pass
        if not self.sp:
            out.append(o.datablock(Q, U))
        return (q, Q, Vr) + ((u, U) if self.m else ()), out

    def ops(self, o, trained):
        q, u = self.qu()
        Vr = np.linalg.qr(arr(7, self.r, 2))[0]
        return {"!apply": lambda: o.apply(q, u), "!jacobian": lambda: dense(o.jacobian(q, u)), "!galerkin": lambda: dense(o.galerkin(Vr).entries),
                "entries": lambda: dense(o.entries), "shape": lambda: o.shape if o.entries is not None else None,
                "r": lambda: o.state_dimension if o.entries is not None else None,
                "m": lambda: o.input_dimension if hasattr(o, "input_dimension") and o.entries is not None else None,
                "order": lambda: getattr(o, "polynomial_order", None), "class": lambda: type(o).__name__}

    def bad(self, o, k):
        sh = self.shape
        if k == 1:
            o.set_entries(np.zeros((2,) + tuple(sh)) if len(sh) > 1 else np.zeros((2, 2, 2)))
        elif k == 2:
            o.set_entries([[1.0, "x"], [2.0]])
        else:
            if len(sh) == 1:
                o.set_entries(np.zeros((sh[0], 2)))
            elif self.m and "State" not in type(o).__name__:
                o.set_entries(np.zeros((2, 2, 2)))
            else:
                o.set_entries(np.zeros((sh[0], sh[1] + 1)))


AFF = lambda mu: np.array([1.0, np.atleast_1d(mu)[0], np.atleast_1d(mu)[0] ** 2])


class AffOp(Op):
    def __init__(self, cls, shape, r=3, m=0, wrongs=(), kind="affine", nt=3, name=None, how=None):
        Op.__init__(self, cls, shape, r, m, wrongs=wrongs, name=name)
        self.kind, self.nt = kind, nt
        self.aff = how if kind == "affine" and how else AFF if nt == 3 else lambda mu: np.cos(np.arange(nt) + np.atleast_1d(mu)[0])
        ps = [[1.0], [2.0], [4.0]] + [[4.5 + i / 2] for i in range(nt - 3)]
        self.mk = (lambda: cls(self.aff, nterms=None if how else nt)) if kind == "affine" else (lambda: cls(training_parameters=ps, InterpolatorClass=how))

    def par(self, x):
        return [x, 2.0, -x][:self.nt] if isinstance(self.aff, int) else [x]

    def wrong(self, k):
        return lambda p: self.wrongs[k].load(p, self.aff) if self.kind == "affine" else self.wrongs[k].load(p)

    def load(self, path):
        return self.cls.load(path, self.aff) if self.kind == "affine" else self.cls.load(path)

    def data(self, d):
        return ([arr(60 + d + 7 * i, *self.shape) for i in range(self.nt)],)

    def dofit(self, o, args, d):
        if d == 2 and self.kind == "affine":
            o.set_entries(np.hstack([a.reshape(self.shape[0], -1) for a in args[0]]), fromblock=True)
        else:
            o.set_entries(*args)

    def use(self, o):
        q, u = self.qu()
        mu = np.array(self.par(1.5))
        out = []
        try:
            op = o.evaluate(mu)
            out = [op.entries, op.apply(q, u), op.jacobian(q, u)]
        except UNTRAINED + ERR:
            pass
        return (q, mu) + ((u,) if self.m else ()), out

    def ops(self, o, trained):
        q, u = self.qu()
        Vr = np.linalg.qr(arr(7, self.r, 2))[0]
        out = {"!evaluate": lambda: o.evaluate(self.par(1.5)).entries, "!apply": lambda: o.apply(self.par(2.0), q, u), "!jacobian": lambda: o.jacobian(self.par(3.0), q, u),
               "!galerkin": lambda: o.galerkin(Vr).evaluate(self.par(1.0)).entries,
               "entries": lambda: None if o.entries is None else np.array(o.entries), "class": lambda: type(o).__name__,
               "nterms": lambda: getattr(o, "nterms", None)}
        if isinstance(self.aff, int):
            out["p"] = lambda: o.parameter_dimension
        if self.kind == "interp":
            out["params"] = lambda: o.training_parameters
            if trained:
                out["p"] = lambda: o.parameter_dimension
        return out

    def bad(self, o, k):
        E = self.data(1)[0]
        if k == 1:
            o.set_entries(E[:2])
        elif k == 2:
            o.set_entries(E + E[:1])
        else:
            o.evaluate([1.0, 2.0]) if self.kind == "interp" else o.set_entries(E[:-1] + [E[-1][:-1]])


# --------------------------------------------------------------- models
class Mod(A):
    save_ = copy_ = refit_ = True
    ns = 3
    regs = (0.5, 2.0, 10.0)
    dim = "r"

    def __init__(self, cls, ops, m=0, name=None, par=None, nb=6, npar=3):
        self.npar = npar
        self.cls, self.opsf, self.m, self.par = cls, ops, m, par
        self.name = name or cls.__name__
        self.nd, self.nb = 3, nb
        self.disc = "Discrete" in cls.__name__
        if par == "affine":
            self.save_ = False

    def new(self):
        return self.cls(self.opsf(), solver=S.L2Solver(self.regs[0]))

    def set(self, o, k):
        for sol in [o.solver] + list(getattr(o, "solvers", [])):
            sol.regularizer = self.regs[k - 1]

    r = 2

    def data(self, d):
        rr = self.r
        k = 6 + 2 * d
        one = lambda j: (arr(70 + d + 10 * j, rr, k, lo=-1, hi=1), arr(80 + d + 10 * j, rr, k, lo=-1, hi=1), arr(90 + d + 10 * j, self.m, k) if self.m else None)
        if not self.par:
            Q, Z, U = one(0)
            return (Q, Z) + ((U,) if self.m else ())
        ps = [1.0, 2.0, 4.0] + [4.5 + i / 2 for i in range(self.npar - 3)]
        if d == 2:
            ps[:3] = [2.0, 0.5, 3.0]
        X = [one(j) for j in range(self.npar)]
        return (ps, [x[0] for x in X], [x[1] for x in X]) + (([x[2] for x in X],) if self.m else ())

    def refit(self, o):
        o.refit()

    def pa(self):
        return ([1.5],) if self.par else ()

    def rhs(self, o, q, u):
        a = () if not self.m else (u,)
        if self.disc:
            return o.rhs(*self.pa(), q, *a)
        return o.rhs(0.0, *self.pa(), q, *((lambda t: u,) if self.m else ()))

    def jac(self, o, q, u):
        a = () if not self.m else (u,)
        if self.disc:
            return o.jacobian(*self.pa(), q, *a)
        return o.jacobian(0.0, *self.pa(), q, *((lambda t: u,) if self.m else ()))

    def predict(self, o, q, U):
        if self.disc:
            return o.predict(*self.pa(), q, 3, *((U,) if self.m else ()))
        t = np.array([0.0, 0.01, 0.02])
        return o.predict(*self.pa(), q, t, *((U,) if self.m else ()), method="RK45")

    def use(self, o):
        q, u, U = arr(8, self.r, lo=-1, hi=1), (arr(9, self.m) if self.m else None), (arr(11, self.m, 3) if self.m else None)
        out = []
        try:
            out = [self.rhs(o, q, u), self.jac(o, q, u), self.predict(o, q, U)]
        except UNTRAINED + ERR:
            pass
        return (q,) + ((u, U) if self.m else ()), out

    def ops(self, o, trained):
        q, u, U = arr(12, self.r, lo=-1, hi=1), (arr(13, self.m) if self.m else None), (arr(14, self.m, 3) if self.m else None)
        out = {"!rhs": lambda: self.rhs(o, q, u), "!jacobian": lambda: self.jac(o, q, u), "!predict": lambda: self.predict(o, q, U),
               "ops": lambda: [type(op).__name__ for op in o.operators],
               "solver": lambda: type(o.solver).__name__, "reg": lambda: o.solver.regularizer}
        for i, op in enumerate(o.operators):
            out["op%d" % i] = lambda op=op: None if op.entries is None else np.array(op.entries)
        if trained:
            out["r"] = lambda: o.state_dimension
            out["m"] = lambda: o.input_dimension
        return out

    def bad(self, o, k):
        a = list(self.data(3))
        i = 1 if self.par else 0
        if self.par:
            a = [list(x) for x in a]
            Q, Z = a[1], a[2]
        if k == 1:      # states not aligned with the left-hand side
            if self.par:
                Q[1] = Q[1][:, :-1]
            else:
                a[0] = a[0][:, :-1]
        elif k == 2:
            if self.par:
                Z[2] = Z[2][:-1]
            else:
                a[1] = np.vstack((a[1], a[1][:1]))
        elif k == 3:
            if self.m:
                if self.par:
                    a[3][0] = a[3][0][:, :-1]
                else:
                    a[2] = a[2][:, :-1]
            elif self.par:
                a[1] = [x[:1] if self.r > 1 else np.vstack((x, x)) for x in a[1]]
            else:
                a[0] = np.vstack((a[0], a[0][:1]))
        elif k == 4:
            if self.m:
                a = a[:-1]
            elif self.par:
                a[0] = a[0][:2]
            else:
                a[1] = a[1][:, 1:]
        elif k == 5:
            if self.par:
                a[1] = a[1][:2]
            else:
                return o.fit(np.stack((a[0], a[0])), *a[1:])
        elif k == 6:
            if self.par:
                a[2] = a[2] + a[2][:1]
            else:
                return self.predict(o, np.ones(self.r + 1), np.ones((self.m, 3)) if self.m else None)
        o.fit(*a)


class Interp(Mod):
    """the setting is how operators are interpolated, which counts immediately"""
    how = (spinterpolate.CubicSpline, spinterpolate.PchipInterpolator, spinterpolate.Akima1DInterpolator)

    def new(self):
        return self.cls(self.opsf(), InterpolatorClass=self.how[0], solver=S.L2Solver(0.5))

    def set(self, o, k):
        o.set_interpolator(self.how[k - 1])

    def data(self, d):
        a = Mod.data(self, d)
        return ([1.0, 2.0, 4.0],) + a[1:]          # in order, and where every interpolator agrees on the known operator


# --------------------------------------------------------------- ROMs
class Rom(A):
    nb = 5

    def __init__(self, name, mk, m=0, disc=True, par=False):
        self.name, self.mk, self.m, self.disc, self.par = name, mk, m, disc, par
        self.nd = 3

    def new(self):
        return self.mk()

    n = 4

    def data(self, d):
        nt = {1: 1, 2: 3, 3: 2, 4: 2}[d] if not self.par else {1: 3, 2: 3, 3: 2, 4: 3}[d]
        Qs = [arr(100 + 10 * d + i, self.n, 6 + (i + d) % 3, lo=-1, hi=1) for i in range(nt)]
        Zs = [arr(150 + 10 * d + i, *q.shape, lo=-1, hi=1) for i, q in enumerate(Qs)]
        Us = [arr(200 + 10 * d + i, self.m, q.shape[1]) for i, q in enumerate(Qs)] if self.m else None
        if d == 1 and not self.par:
            Qs, Zs, Us = Qs[0], Zs[0], (Us[0] if self.m else None)
        return (Qs, Zs) + ((Us,) if self.m else ()), ([1.0, 2.0, 4.0][:nt] if self.par else None)

    def fit(self, o, d):
        (a, ps) = self.data(d)
        self.rfit(o, a, ps)
        return a

    def rfit(self, o, a, ps):
        if self.par:
            o.fit(ps, a[0], a[1], *a[2:])
        else:
            o.fit(*a)

    def use(self, o):
        Y, out = arr(5, self.n, 3), []
        U = arr(6, self.m, 3) if self.m else None
        try:
            out = [o.encode(Y), o.project(Y)]
            out.append(self.predict(o, Y[:, 0], U))
        except UNTRAINED + ERR:
            pass
        return (Y,) + ((U,) if self.m else ()), out

    def predict(self, o, q, U):
        pa = ([1.5],) if self.par else ()
        if self.disc:
            return o.predict(*pa, q, 3, *((U,) if self.m else ()))
        return o.predict(*pa, q, np.array([0.0, 0.01, 0.02]), *((U,) if self.m else ()), method="RK45")

    def ops(self, o, trained):
        Y, U = arr(15, self.n, 3), (arr(16, self.m, 3) if self.m else None)
        out = {"!predict": lambda: self.predict(o, Y[:, 0], U), "!encode": lambda: o.encode(Y), "!project": lambda: o.project(Y)}
        for i, op in enumerate(o.model.operators):
            out["op%d" % i] = lambda op=op: None if op.entries is None else np.array(op.entries)
        return out

    def bad(self, o, k):
        (a, ps) = self.data(2)
        a = [list(x) for x in a]
        if k == 1:
            a[0][1] = a[0][1][:, :-1]
        elif k == 2:
            a[1][2] = a[1][2][:-1]
        elif k == 3:
            a[1] = a[1][:2]
        elif k == 4:
            if self.m:
                a[2][0] = a[2][0][:, :-2]
            else:
                a[1] = a[1] + a[1][:1]
        else:
            if self.par:
                ps = ps[:2]
            elif self.m:
                a = a[:2]
            else:
                a[0] = a[0] + a[0][:1]
        self.rfit(o, a, ps)


class SS(P.ShiftScaleTransformer):
    pass


def adapters():
    T = P.ShiftScaleTransformer
    w = np.array([1.0, 2.0, 0.5, 4.0, 1.5])
    W2 = np.diag(w) + 0.25 * (np.eye(5, k=1) + np.eye(5, k=-1))
    V0 = np.linalg.qr(arr(77, 5, 2))[0]
    out = [
        Tf("ShiftScale.standard", lambda: T(scaling="standard", name="a"), T, wrongs=[P.ShiftTransformer.load, P.ScaleTransformer.load]),
        Tf("ShiftScale.center", lambda: T(centering=True), T),
        Tf("ShiftScale.minmax.byrow", lambda: T(centering=True, scaling="minmax", byrow=True), T),
        Tf("ShiftScale.maxabssym", lambda: T(centering=True, scaling="maxabssym", verbose=False), T),
        Tf("ShiftScale.maxabs.byrow", lambda: T(scaling="maxabs", byrow=True, name="row"), T),
        Tf("ScaleTransformer", lambda: P.ScaleTransformer(2.5, name="s"), P.ScaleTransformer, trains=False, nb=0, wrongs=[P.ShiftTransformer.load, T.load]),
        Tf("ScaleTransformer.rows", lambda: P.ScaleTransformer(np.array([1.0, 2.0, 4.0, 8.0])), P.ScaleTransformer, trains=False),
        Tf("ShiftTransformer", lambda: P.ShiftTransformer(arr(1, 4), name="shift"), P.ShiftTransformer, trains=False, wrongs=[P.ScaleTransformer.load, T.load]),
        NullTf("NullTransformer", lambda: P.NullTransformer(name="null"), P.NullTransformer, trains=False, nb=0),
        Tf("Pipeline", lambda: P.TransformerPipeline([T(centering=True), P.ScaleTransformer(2.0), T(scaling="minmax")], name="pipe"), P.TransformerPipeline,
           loader=lambda p: P.TransformerPipeline.load(p, [T, P.ScaleTransformer, T]),
           wrongs=[lambda p: P.TransformerPipeline.load(p, [T, T]), lambda p: P.TransformerPipeline.load(p, [T, P.ShiftTransformer, T])]),
        Tf("TransformerMulti", lambda: P.TransformerMulti([T(scaling="standard", name="x"), T(centering=True)]), P.TransformerMulti,
           loader=lambda p: P.TransformerMulti.load(p, T), wrongs=[lambda p: P.TransformerMulti.load(p, [T]), lambda p: P.TransformerMulti.load(p, [T, P.ShiftTransformer])]),
    ]
    # more than ten parts: their order is that of the numbers, not of the names
    out += [
        Tf("TransformerMulti.12", lambda: P.TransformerMulti([T(centering=i % 2 == 0, scaling="maxabs") for i in range(12)]), P.TransformerMulti, n=12,
           loader=lambda p: P.TransformerMulti.load(p, T)),
        Tf("Pipeline.11", lambda: P.TransformerPipeline([P.ScaleTransformer(1.0 + i / 8) if i % 2 else P.ShiftTransformer(arr(i, 3)) for i in range(11)]), P.TransformerPipeline,
           n=3, trains=False, loader=lambda p: P.TransformerPipeline.load(p, [P.ScaleTransformer if i % 2 else P.ShiftTransformer for i in range(11)])),
    ]
    PB = B.PODBasis

    def pod(label, first, sets, **kw):
        b = Bas(label, lambda: PB(**first, **kw), PB, sets=sets)
        b.first = first
        return b
    out += [
        pod("POD.num", dict(num_vectors=2), [dict(num_vectors=3), dict(cumulative_energy=.8)], name="pod"),
        pod("POD.energy", dict(cumulative_energy=.9), [dict(num_vectors=1), dict(residual_energy=.2)], weights=w),
        pod("POD.weights2", dict(residual_energy=.1), [dict(svdval_threshold=.3)], weights=W2, max_vectors=4),
        pod("POD.err", dict(projection_error=.4), [dict(num_vectors=2)], max_vectors=3),
        pod("POD.snapshots", dict(num_vectors=2), [dict(num_vectors=1)], svdsolver="method-of-snapshots"),
        pod("POD.snapshots.weights", dict(num_vectors=2), [dict(cumulative_energy=.7)], svdsolver="method-of-snapshots", weights=w),
        Bas("LinearBasis", lambda: B.LinearBasis(V0, name="lin"), B.LinearBasis, trains=False, wrongs=[PB.load]),
        Bas("LinearBasis.weights", lambda: B.LinearBasis(V0, weights=w, check_orthogonality=False), B.LinearBasis, trains=False),
        Bas("LinearBasis.sparse", lambda: B.LinearBasis(V0, weights=sparse.csr_array(W2), check_orthogonality=False), B.LinearBasis, trains=False),
        Bas("BasisMulti", lambda: B.BasisMulti([PB(num_vectors=1, name="a"), PB(num_vectors=2)]), B.BasisMulti, loader=lambda p: B.BasisMulti.load(p, PB), n=6,
            wrongs=[lambda p: B.BasisMulti.load(p, [PB])]),
        Bas("BasisMulti.sizes", lambda: B.BasisMulti([PB(num_vectors=1), PB(num_vectors=2)], [2, 4]), B.BasisMulti, loader=lambda p: B.BasisMulti.load(p, PB), n=6,
            wrongs=[lambda p: B.BasisMulti.load(p, [PB, B.LinearBasis])]),
        Bas("BasisMulti.11", lambda: B.BasisMulti([PB(num_vectors=1) for _ in range(11)]), B.BasisMulti, loader=lambda p: B.BasisMulti.load(p, PB), n=33),
    ]

    def setreg(x):
        return lambda o: setattr(o, "regularizer", x)
    out += [
        Sol("PlainSolver", S.PlainSolver, S.PlainSolver),
        Sol("PlainSolver.cond", lambda: S.PlainSolver(cond=1e-8, lapack_driver="gelsy"), S.PlainSolver),
        Sol("L2Solver", lambda: S.L2Solver(None), S.L2Solver, [None, 1.0, 3.5], "regularizer", rs=True, bads=[setreg(-1.0), setreg(np.array([1.0, 2.0]))]),
        Sol("L2Solver.gesvd", lambda: S.L2Solver(2.0, lapack_driver="gesvd"), S.L2Solver, [2.0, 0.0], "regularizer"),
        Sol("L2Decoupled", lambda: S.L2DecoupledSolver([1.0, 2.0]), S.L2DecoupledSolver, [[1.0, 2.0], [0.5, 0.0]], "regularizer",
            bads=[setreg([1.0, -2.0]), setreg(np.ones((2, 2)))]),
        Sol("Tikhonov", lambda: S.TikhonovSolver(None), S.TikhonovSolver, [None, np.array([1.0, 2.0, 3.0]), arr(3, 3, 3) + 5 * np.eye(3)], "regularizer", rs=True,
            bads=[setreg(np.array([1.0, -1.0, 2.0]))]),
        Sol("Tikhonov.normal", lambda: S.TikhonovSolver(np.diag([1.0, 2.0, 3.0]), method="normal"), S.TikhonovSolver,
            [np.diag([1.0, 2.0, 3.0]), np.array([3.0, 3.0, 1.0])], "regularizer"),
        Sol("Tikhonov.method", lambda: S.TikhonovSolver(np.diag([1.0, 2.0, 3.0]), method="lstsq", cond=1e-9, lapack_driver="gelsd"), S.TikhonovSolver,
            ["lstsq", "normal"], "method"),
        Sol("TikhonovDecoupled", lambda: S.TikhonovDecoupledSolver([np.diag([1.0, 2.0, 3.0]), np.eye(3)]), S.TikhonovDecoupledSolver,
            [[np.diag([1.0, 2.0, 3.0]), np.eye(3)], [np.array([1.0, 1.0, 2.0]), np.array([5.0, 1.0, 0.5])]], "regularizer"),
        Sol("TotalLeastSquares", S.TotalLeastSquaresSolver, S.TotalLeastSquaresSolver),
        Sol("TruncatedSVD", lambda: S.TruncatedSVDSolver(2), S.TruncatedSVDSolver, [2, 1, 3], "num_svdmodes"),
        Sol("TruncatedSVD.neg", lambda: S.TruncatedSVDSolver(-1, lapack_driver="gesvd"), S.TruncatedSVDSolver, [-1, -2], "num_svdmodes"),
    ]
    ws = [O.LinearOperator, O.InputOperator]
    out += [Op(O.ConstantOperator, (3,), wrongs=ws), Op(O.LinearOperator, (3, 3), wrongs=[O.InputOperator, O.QuadraticOperator]),
            Op(O.LinearOperator, (3, 3), sp=True, wrongs=ws), Op(O.QuadraticOperator, (3, 6), wrongs=ws), Op(O.CubicOperator, (3, 10), wrongs=ws),
            Op(O.QuarticOperator, (3, 15), wrongs=ws), Op(O.InputOperator, (3, 2), m=2, wrongs=ws), Op(O.StateInputOperator, (3, 6), m=2, wrongs=ws),
            Op(O.PolynomialOperator, (3, 6), mk=lambda: O.PolynomialOperator(2), wrongs=ws + [O.QuadraticOperator])]
    out += [Op(O.PolynomialOperator, (3, c), mk=lambda p=p: O.PolynomialOperator(p), wrongs=ws, name="PolynomialOperator.%d" % p) for p, c in ((0, 1), (1, 3), (3, 10))]
    wa = [O.AffineLinearOperator, O.AffineInputOperator]
    wi = [O.InterpLinearOperator, O.InterpInputOperator]
    for pre, kind, ww in (("Affine", "affine", wa), ("Interp", "interp", wi)):
        for t, sh, m in (("Constant", (3,), 0), ("Linear", (3, 3), 0), ("Quadratic", (3, 6), 0), ("Cubic", (3, 10), 0), ("Input", (3, 2), 2), ("StateInput", (3, 6), 2)):
            out.append(AffOp(getattr(O, pre + t + "Operator"), sh, m=m, wrongs=ww, kind=kind))
        out.append(AffOp(getattr(O, pre + "LinearOperator"), (2, 2), r=2, kind=kind, nt=12, name=pre + "LinearOperator.12"))
    out.append(AffOp(O.AffineLinearOperator, (3, 3), how=3, name="AffineLinearOperator.int"))
    for how in Interp.how[1:]:
        out.append(AffOp(O.InterpLinearOperator, (2, 2), r=2, kind="interp", nt=5, how=how, name="InterpLinearOperator." + how.__name__))
        out[-1].near = [lambda: O.InterpLinearOperator([[1.0], [2.0], [4.0], [4.5], [5.0]]),
                        lambda: O.InterpLinearOperator([[1.0], [2.0], [4.0], [4.5], [5.0]], InterpolatorClass=spinterpolate.CubicSpline),
                        lambda how=how: O.InterpLinearOperator([[1.0], [2.0], [4.0], [4.5], [6.0]], InterpolatorClass=how)]
    K = arr(31, 2, 2)
    aff = lambda: [O.AffineConstantOperator(2), O.AffineLinearOperator(AFF, nterms=3)]
    out += [Mod(M.ContinuousModel, lambda: "cA"), Mod(M.DiscreteModel, lambda: "AB", m=1), Mod(M.ContinuousModel, lambda: "cAHB", m=2, name="ContinuousModel.cAHB"),
            Mod(M.ContinuousModel, lambda: [O.ConstantOperator(), O.LinearOperator(K.copy())], name="ContinuousModel.known"),
            Mod(M.DiscreteModel, lambda: [O.LinearOperator(), O.ConstantOperator(np.array([1.0, 2.0])), O.InputOperator()], m=1, name="DiscreteModel.known"),
            Mod(M.ParametricDiscreteModel, lambda: [O.ConstantOperator(), O.AffineLinearOperator(AFF, nterms=3)], par="affine", name="ParametricDiscreteModel"),
            Mod(M.ParametricContinuousModel, lambda: [O.AffineConstantOperator(AFF, nterms=3), O.LinearOperator(), O.InputOperator()], m=1, par="affine", name="ParametricContinuousModel"),
            Mod(M.ParametricContinuousModel, lambda: [O.InterpLinearOperator(), O.ConstantOperator(np.array([1.0, -1.0]))], par="affine", name="ParametricContinuousModel.interp"),
            Mod(M.InterpDiscreteModel, lambda: "cA", par="interp"),
            Mod(M.InterpContinuousModel, lambda: "cAB", m=1, par="interp"),
            Mod(M.InterpDiscreteModel, lambda: "cAB", m=1, par="interp", npar=12, name="InterpDiscreteModel.12"),
            Mod(M.InterpContinuousModel, lambda: [O.InterpLinearOperator(), O.InterpConstantOperator([1.0, 2.0, 4.0], np.array([[1.0, -1.0], [0.0, 2.0], [1.0, 1.0]]))], par="interp", name="InterpContinuousModel.known"),
            Interp(M.InterpDiscreteModel, lambda: "cB", m=1, par="interp", name="InterpDiscreteModel.how"),
            Interp(M.InterpContinuousModel, lambda: [O.InterpLinearOperator(), O.InterpConstantOperator([1.0, 2.0, 4.0], np.array([[1.0, -1.0], [0.0, 2.0], [1.0, 1.0]]))], par="interp", name="InterpContinuousModel.how")]
    sol = lambda: S.L2Solver(1.0)
    ss = lambda: T(centering=True, scaling="maxabs")
    out += [Rom("ROM.d", lambda: R.ROM(M.DiscreteModel("cA", solver=sol()), transformer=ss(), basis=PB(num_vectors=2))),
            Rom("ROM.c", lambda: R.ROM(M.ContinuousModel("AB", solver=sol()), transformer=ss(), basis=PB(cumulative_energy=.9)), m=1, disc=False),
            Rom("ROM.nobasis", lambda: R.ROM(M.DiscreteModel("AB", solver=sol()), transformer=ss()), m=2),
            Rom("PROM.affine", lambda: R.ParametricROM(M.ParametricDiscreteModel([O.AffineLinearOperator(AFF, nterms=3), O.InputOperator()], solver=sol()),
                                                       transformer=ss(), basis=PB(num_vectors=2)), m=1, par=True),
            Rom("PROM.interp", lambda: R.ParametricROM(M.InterpContinuousModel("cA", solver=sol()), basis=PB(num_vectors=2)), disc=False, par=True)]
    # objects that differ a little from what the adapter makes
    bump = lambda A, *at: (lambda B: (B.__setitem__(at, B[at] + 0.25), B)[1])(A.copy())
    by = {a.name: a for a in out}
    LB = lambda *a, **k: B.LinearBasis(*a, check_orthogonality=False, **k)
    by["LinearBasis"].near = [lambda: LB(bump(V0, 0, 0)), lambda: LB(bump(V0, -1, -1)), lambda: LB(V0[:, :1]), lambda: LB(V0, weights=w)]
    by["LinearBasis.weights"].near = [lambda: LB(V0), lambda: LB(V0, weights=bump(w, *[-1] * w.ndim)), lambda: LB(bump(V0, 0, -1), weights=w)]
    by["LinearBasis.sparse"].near = [lambda: LB(V0), lambda: LB(V0, weights=bump(W2, -1, -1)), lambda: LB(V0, weights=sparse.csc_array(bump(W2, 0, 0))), lambda: LB(V0, weights=2 * W2)]
    # retraining with data of another dimension
    for a in out:
        size = {"ShiftScale.standard": 5, "ShiftScale.center": 3, "ShiftScale.minmax.byrow": 5, "ScaleTransformer": 3, "NullTransformer": 6,
                "Pipeline": 5, "POD.num": 6, "POD.err": 4, "POD.snapshots": 7, "ContinuousModel": 3, "DiscreteModel": 1, "ContinuousModel.cAHB": 1,
                "ParametricDiscreteModel": 3, "InterpDiscreteModel": 1, "InterpContinuousModel": 3, "ROM.d": 5, "ROM.c": 3, "PROM.interp": 5}.get(a.name)
        if size:
            a.other(size)
    names = [a.name for a in out]
    assert len(set(names)) == len(names), names
    return {a.name: a for a in out}


_AD = {}


def adapter(name):
    if not _AD:
        _AD.update(adapters())
    return _AD[name]


# --------------------------------------------------------------- observation
def snap(x):
    """a deep copy for comparison"""
    if isinstance(x, np.ndarray) or np.isscalar(x):
        return np.array(x, copy=True)
    if sparse.issparse(x):
        return x.toarray()
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    if isinstance(x, dict):
        return {k: snap(y) for k, y in x.items()}
    return x


def same(a, b, tol):
    if isinstance(a, tuple) and a and a[0] == "raised" or isinstance(b, tuple) and b and b[0] == "raised":
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return (a is None) == (b is None) and (a is None or str(a) == str(b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
        a, b = a.astype(float), b.astype(float)
        fa = np.isfinite(a)
        if not np.array_equal(fa, np.isfinite(b)):
            return False
        sc = max(1.0, np.abs(b[fa]).max()) if fa.any() else 1.0
        return bool(np.all(np.abs(a[fa] - b[fa]) <= tol * sc))
    return bool(np.all(a == b))


def observe(ad, o, tr, v=None):
    out = {}
    ad.at(tr)
    for k, f in ad.ops(o, tr > 0 or not getattr(ad, "trains", True)).items():
        try:
            out[k] = snap(f())
        except Exception as ex:
            out[k] = ("raised", type(ex).__name__)
            if v is not None and k[0] == "!" and tr == 0:
                v.true("life.untrained.%s" % k[1:], isinstance(ex, UNTRAINED), "raised %r" % ex)
        else:
            if v is not None and k[0] == "!" and tr == 0:
                v.true("life.untrained.%s" % k[1:], False, "%s worked on an untrained object: %r" % (k[1:], out[k]))
    return out


_CANON = {}


def canon(ad, t):
    """observation of an object brought to the state t directly"""
    key = (ad.name, t["tr"], t["ts"], t["st"])
    if key not in _CANON:
        o = made(ad, t)
        _CANON[key] = (observe(ad, o, t["tr"]), type(o))
    return _CANON[key]


def made(ad, t):
    o = ad.new()
    cur = 1
    if t["tr"]:
        if t["ts"] != 1:
            ad.set(o, t["ts"])
        cur = t["ts"]
        ad.at(t["tr"])
        ad.fit(o, t["tr"])
    if t["st"] != cur:
        ad.set(o, t["st"])
    return o


_TWINS = {}


def twin(ad, t):
    """an object brought to the state t directly, only ever compared to others"""
    key = (ad.name, t["tr"], t["ts"], t["st"])
    if key not in _TWINS:
        _TWINS[key] = made(ad, t)
    return _TWINS[key]


def equality(ad, v, o, t, i):
    """objects equal those made the same way, and differ from those trained on other data"""
    if type(o).__eq__ is object.__eq__ or getattr(ad, "par", None) == "affine" and any(type(op).__eq__ is object.__eq__ for op in o.operators):
        return True         # the same object, that is
    w, ok = twin(ad, t), True
    ok &= v.true("life.eq.same", bool(o == w) and bool(w == o) and not o != w, "state %s: not equal to an object made the same way" % t)
    d = (t["tr"] + i) % (ad.nd + 1)
    if d != t["tr"] and getattr(ad, "trains", True):
        w = twin(ad, dict(tr=d, ts=t["ts"] if d else 1, st=t["st"]))
        ok &= v.true("life.eq.other", not o == w and not w == o and o != w, "state %s: equal to an object %s" % (t, "trained on data set %d" % d if d else "not trained"))
        if d and t["tr"]:
            for parts in ("bases", "transformers"):
                for j in range(len(getattr(o, parts, ()))):
                    x = [list(getattr(y, parts)) for y in (o, w)]
                    if x[0][j] != x[1][j]:
                        w2 = type(o)(x[0][:j] + x[1][j:j + 1] + x[0][j + 1:])
                        ok &= v.true("life.eq.part", not o == w2 and not w2 == o, "state %s: equal to an object whose part %d was trained on data set %d" % (t, j, d))
    for k, mk in enumerate(getattr(ad, "near", ())):
        w = mk()
        ok &= v.true("life.eq.near", not o == w and not w == o and o != w, "equal to different object %d" % k)
    ad.at(t["tr"])
    return ok


def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def make_foreign(path, k):
    if k == 1:
        with open(path, "wb") as f:
            f.write(b"precious notes\n" * 40)
    elif k == 2:
        with h5py.File(path, "w") as hf:
            hf.create_dataset("precious", data=np.arange(5.0))
    elif k == 4:
        open(path, "wb").close()               # a file, but nothing in it
    else:
        with h5py.File(path, "w") as hf:       # cut short
            hf.create_dataset("precious", data=np.arange(50.0))
        with open(path, "r+b") as f:
            f.truncate(600)


def replay_life(b, rec, ctx):
    ad = adapter(b["c"])
    v = V(rec, ad.name)
    d = tempfile.mkdtemp(prefix="life_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _replay(ad, v, b, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def verify(o, d, v):
    """call verify() twice in d, the second time with a file in the way of every file written the first time"""
    real, written = h5py.File, []

    class File(real):
        def __init__(self, name, *a, **k):
            written.append(os.path.abspath(os.fspath(name)))
            real.__init__(self, name, *a, **k)

    cwd = os.getcwd()
    os.chdir(d)
    h5py.File = File
    state = np.random.get_state()
    try:
        for k in range(2):
            for p in {p for p in written if os.path.dirname(p) == d}:
                make_foreign(p, 1)
            kept = {p: digest(p) for p in written if os.path.exists(p)}
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    o.verify()
                except Exception:
                    pass        # what verify() thinks of the object is not at issue
            for p, x in kept.items():
                if v.true("life.file.verify", os.path.exists(p) and digest(p) == x, "verify() damaged the file " + os.path.basename(p)):
                    os.remove(p)
    finally:
        h5py.File = real
        os.chdir(cwd)
        np.random.set_state(state)


def _replay(ad, v, b, d):
    objs = [ad.new(), None]
    paths = [os.path.join(d, "one.h5"), os.path.join(d, "two.h5")]
    if b["s"]["k"]:
        make_foreign(paths[1], b["s"]["k"])
    digests = [digest(p) if os.path.exists(p) else None for p in paths]
    returned = []
    for i, st in enumerate(b["hist"]):
        a, o, x, bad = st["a"], st["o"] - 1, st["x"], st["bad"]
        v.rec.count("call." + a)
        err = None
        given = not (a == "bad" and ad.inplace(x))
        del _GIVEN[:]
        trained = [y["tr"] for y in (b["hist"][i - 1]["objs"] if i else [dict(tr=0), dict(tr=-1)])]
        ad.at(x if a == "fit" else trained[o])
        try:
            if a == "fit":
                ad.fit(objs[o], x)
            elif a == "refit":
                ad.refit(objs[o])
            elif a == "set":
                ad.set(objs[o], x)
            elif a == "reset":
                objs[o].reset()
            elif a == "bad":
                ad.bad(objs[o], x)
            elif a == "use":
                returned += [(y, snap(y)) for y in ad.use(objs[o])[1]]
            elif a == "copy":
                objs[1 - o] = ad.copy(objs[o])
                v.true("life.copy.type", type(objs[1 - o]) is type(objs[o]) and objs[1 - o] is not objs[o])
            elif a == "save":
                f, ow = divmod(x, 2)
                ad.save(objs[o], paths[f - 1], bool(ow))
            elif a == "load":
                objs[o] = ad.load(paths[x - 1])
            elif a == "wrong":
                ad.wrong(x - 1)(paths[o])
            elif a == "group":
                with h5py.File(os.path.join(d, "g%d.h5" % i), "w") as hf:
                    g = hf.create_group("inner")
                    ad.save(objs[o], g, False)
                    v.true("life.group.open", bool(hf) and bool(g), "save closed the caller's file")
                    new = ad.load(g)
                    v.true("life.group.open", bool(hf) and bool(g), "load closed the caller's file")
                objs[1 - o] = new
            elif a == "verify":
                verify(objs[o], d, v)
        except Exception as ex:
            import traceback
            err, tb = ex, traceback.format_exc()[-900:]
        if bad:
            allowed = dict(save=(FileExistsError,), load=LOADERR, wrong=LOADERR, refit=REFUSED).get(a, REFUSED)
            if not v.true("life.refused.%s%s" % (a, x if a in ("bad", "wrong") else ""), isinstance(err, allowed),
                          "%s(%s) %s" % (a, x, "accepted" if err is None else "raised %r" % err)):
                return
            if a == "load" and not os.path.exists(paths[x - 1]):
                v.true("life.refused.missing", isinstance(err, FileNotFoundError), repr(err))
        elif err is not None:
            v.true("life.works.%s" % a, False, "%s(%s) raised %r\n%s" % (a, x, err, tb))
            return
        ok = True
        for y, z in _GIVEN if given else ():
            ok &= v.true("life.mutated.%s" % a, np.array_equal(y, z), "an array given to %s was modified" % a)
        del _GIVEN[:]
        # ---- files
        for f in (0, 1):
            want = st["files"][f]["is"]
            ex = os.path.exists(paths[f])
            if want == "nothing":
                ok &= v.true("life.file.created", not ex, "file appeared after %s" % a)
            elif not ex:
                ok &= v.true("life.file.gone", False, "file vanished after %s" % a)
            else:
                dg = digest(paths[f])
                if a == "save" and not bad and x // 2 - 1 == f:
                    digests[f] = dg
                else:
                    ok &= v.true("life.file.kept", dg == digests[f], "content of a file changed by %s%s" % ("refused " if bad else "", a))
        left = sorted(y for y in os.listdir(d) if y not in ("one.h5", "two.h5") and not y.startswith("g"))
        ok &= v.true("life.file.strays", not left, "stray files %s" % left)
        # ---- objects
        for j in (0, 1):
            t = st["objs"][j]
            if t["tr"] < 0:
                continue
            want, typ = canon(ad, t)
            acted = j == (1 - o if a in ("copy", "group") else o) and a not in ("save", "wrong")
            src = a in ("copy", "group", "save") and j == o
            cl = "life.%s" % a if acted else "life.%s.original" % a if src else "life.other.%s" % a
            ok &= v.true(cl + ".type", type(objs[j]) is typ, "%s instead of %s" % (type(objs[j]), typ))
            got = observe(ad, objs[j], t["tr"], v if j == o else None)
            for k in want:
                if not v.true(cl + "." + k.lstrip("!"), k in got and same(got[k], want[k], ad.tol),
                              "state %s after %s:\ngot %r\nrequired %r" % (t, [(y["a"], y["o"], y["x"]) for y in b["hist"][:i + 1]], got.get(k), want[k])):
                    ok = False
            ok &= equality(ad, v, objs[j], t, i + 1)
        for y, z in returned:
            ok &= v.true("life.returned", same(snap(y), z, 0), "an array returned earlier was changed by %s" % a)
        if not ok:
            return


def life_runs(chk, acts, maxlen, stride, names=None, only=None, seeds=None, tag="", plan=()):
    s = chk.seed * 10
    ads = adapters()
    cl = [a.rec(i) for i, a in enumerate(ads.values()) if names is None or names(a)]
    r = Run("LifeMC", dict(Classes=Raw("{" + ", ".join(tla(x) for x in cl) + "}"), Acts=set(acts), MaxLen=maxlen, Seeds=set(range(s, s + (seeds or 3))), Stride=stride,
                             Plan=[set(p) for p in plan]), [],
            replay_life, name="life%s%d" % (tag, maxlen), properties=["FilesKept", "RefusedKept", "OthersKept"])
    if only:
        r.ctx["only"] = only
    return r


def some(rs, only):
    """runs of another specification, decided for some of their clauses only"""
    for r in rs:
        r.ctx = dict(r.ctx, only=only)
    return rs


ARRAYS = {"fit", "set", "use", "refit", "copy", "bad"}
NOTE = ["training data, options and probe arguments are fixed small arrays per class; objects compared with tolerance 1e-9"]


def c04(chk):
    import p_tf, p_fd, p_lift, p_util, p_rom
    q, s = chk.tier == "quick", chk.seed
    only = r"life\.(mutated|returned|other)"
    m = r"mutated|alias|inplace"
    big = lambda a: not a.name.startswith(("Tikhonov", "Affine", "Interp"))
    chk.execute([
        life_runs(chk, ARRAYS, 3, 4 if q else 1, only=only, tag="arrays"),
        life_runs(chk, ARRAYS | {"save", "load", "group"}, 5, 14 if q else 7, only=only, tag="long", names=None),
        Run("TfMC", dict(Shapes={"leaf", "pipe2", "multi2", "nested"}, Ns={2, 3}, Ks={4}, Seeds={s}, MaxLen=2, Stride=45 if q else 6),
            p_tf.INV, p_tf.replay_tf, ctx=dict(only=m), name="transformers"),
        Run("FdMC", dict(Kinds={"uniform", "nonuniform", "interp"}, Ks={5, 8}, Seeds={s}, MaxLen=1, Exact=True), [], p_fd.replay_fd, ctx=dict(only=m), name="fd"),
        Run("LiftMC", dict(Ns={1, 3}, Ks={1, 4}, Seeds={s}, MaxVars=2), [], p_lift.replay_lift, ctx=dict(only=m), name="lift"),
    ] + some(p_util.util_runs(chk, {"errors", "reproj", "shiftscale"}), m)
      + some([p_rom.rom_runs(chk, (), 1, 25 if q else 3, "")], m))
    return NOTE


def c05(chk):
    q = chk.tier == "quick"
    only = r"life\.(fit|refit|set|reset|use|bad|untrained|refused\.refit|works|other\.)"
    acts = {"fit", "set", "use", "refit", "reset", "bad", "verify"}
    chk.execute([life_runs(chk, acts, 2, 1, only=only, seeds=1, tag="short"),
                 life_runs(chk, acts, 4, 7 if q else 3, only=only, tag="long"),
                 life_runs(chk, acts | {"copy", "save", "load"}, 6, 15 if q else 10, only=only, tag="deep")])
    return NOTE


AFTER = "fit set refit reset"


def c23(chk):
    import p_bayes
    q = chk.tier == "quick"

    def plan(before, stride, *then):
        """a few settings and trainings, one way to a second object, and then settings and trainings of either"""
        p = [x.split() for x in ("fit set",) * before + then]
        return life_runs(chk, set(sum(p, [])), len(p), stride, only=only, tag="plan%d%s" % (before, then[0][0] + str(len(then))), plan=p, seeds=1)
    only = r"life\.(eq|copy|load|group|save|other|refused\.wrong|works|fit|set|refit)"
    chk.execute([life_runs(chk, {"fit", "set", "copy", "save", "load", "wrong", "group"}, 3, 5 if q else 2, only=only, tag="short"),
                 life_runs(chk, {"fit", "set", "refit", "use", "copy", "save", "load", "group", "wrong"}, 5, 12 if q else 8, only=only, tag="long"),
                 plan(1, 1, "copy group", AFTER), plan(2, 2 if q else 1, "copy group", AFTER), plan(1, 2 if q else 1, "copy group", AFTER, AFTER),
                 plan(1, 2 if q else 1, "save", "load", AFTER), plan(2, 3 if q else 2, "save", "load", AFTER),
                 p_bayes.posterior_run(chk, r"save$|load$|group|nrows|rows|mean|cov|equal|unequal", 9 if q else 6)])
    return NOTE


def c24(chk):
    import p_bayes
    q = chk.tier == "quick"
    only = r"life\.(file|refused\.(save|load|wrong|missing)|group\.open|works\.(save|group|load)|load|save)"
    savers = lambda a: a.save_
    chk.execute([life_runs(chk, {"fit", "save", "load", "wrong", "group", "foreign", "verify"}, 3, 4 if q else 1, only=only, tag="short", names=savers),
                 life_runs(chk, {"fit", "set", "save", "load", "copy", "foreign", "verify"}, 5, 12 if q else 7, only=only, tag="long", names=savers),
                 p_bayes.posterior_run(chk, r"save|load|group|mean|cov", 9 if q else 6)])
    return NOTE


def c26(chk):
    import p_align, p_tf, p_fd, p_rom, p_model, p_lstsq, p_basis
    q, s = chk.tier == "quick", chk.seed
    m = r"align|refuse"
    chk.execute([
        p_align.align_run(chk),
        life_runs(chk, {"fit", "bad", "set"}, 3, 3 if q else 1, only=r"life\.(bad|refused\.bad|other\.bad|file)", tag="bad"),
        Run("TfMC", dict(Shapes={"leaf", "pipe2", "multi2"}, Ns={2, 3}, Ks={4}, Seeds={s}, MaxLen=2, Stride=30 if q else 5),
            p_tf.INV, p_tf.replay_tf, ctx=dict(only=m), name="transformers"),
        Run("FdMC", dict(Kinds={"uniform", "nonuniform", "interp"}, Ks={3, 5, 8}, Seeds={s}, MaxLen=1, Exact=True), [], p_fd.replay_fd, ctx=dict(only=m), name="fd"),
        Run("SolverMC", dict(Ks=p_lstsq.KS, Dims={2, 3}, Rs={1, 2}, Slack={2}, Seeds={s}, MaxLen=2, Acts={"fit", "badfit", "set", "badset", "method"}),
            p_lstsq.INV, p_lstsq.replay, name="solvers", ctx=dict(only=m, each=True)),
        Run("BasisMultiMC", dict(NVs={2, 3}, Mixes={"linear", "pod", "mixed"}, Forms={"none", "diag"}, Sizes={"equal", "different"},
                                 Seeds={s}, MaxLen=2, Acts={"fit", "badfit"}), ["Orthonormal"], p_basis.replay_multi, name="bases", ctx=dict(only=m)),
        Run("BasisMC", dict(Kinds={"pod", "linear"}, Solvers={"dense"}, Forms={"none", "diag"}, Ns={3, 5}, MaxVecs={0}, Seeds={s},
                            MaxLen=2, Acts={"fit", "badfit"}), [], p_basis.replay, name="basis", ctx=dict(only=m)),
        Run("FitMC", dict(Forms=p_model.FITF, Kinds={"d", "c"}, Rs={1, 2}, Ms={0, 1, 2}, Seeds={s * 100}, Regs={2}, MaxLen=2, Acts={"bad"}, Noise={2}),
            ["Consistent"], p_model.replay_fit, name="fit", ctx=dict(only=m)),
    ] + some(p_model.model_runs(chk, "run", []), m)
      + some([p_rom.rom_runs(chk, ("bad",), 2, 11 if q else 4, "", stride2=11 if q else 3)], m))
    return NOTE


CHECKS = dict(C04=c04, C05=c05, C23=c23, C24=c24, C26=c26)
