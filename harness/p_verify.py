"""verify() of user-defined components (spec/VerifyMC.tla): C29."""
import os, json, warnings
import numpy as np
import opinf
from vp import Run
from num import rat, V

E = {"small": 1e-3, "large": 1e-1}


def spoil(D, how):
    """derivatives that are wrong beyond every tolerance, but only in the last snapshot or entry"""
    if how in ("lastcol", "lastrow"):
        D = D.copy()
        D[(slice(None), -1) if how == "lastcol" else -1] *= 1e9
    return D


class Conf:
    """the implementation under construction: field -> choice (changed by the repairs)"""

    def __init__(self, b):
        self.f, self.b = dict(b["impl"]), b

    def __getitem__(self, k):
        return self.f[k]


# ------------------------------------------------------------ transformers --
def make_tf(c):
    a, s = rat(c.b["data"]["a"]).reshape(-1, 1), rat(c.b["data"]["b"]).reshape(-1, 1)
    n = a.shape[0]

    class Tf(opinf.pre.TransformerTemplate):
        def fit_transform(self, states, inplace=False):
            self.state_dimension = states.shape[0]
            return self.transform(states, inplace)

        def out(self, given, new, inplace, honoured, copied):
            if inplace and honoured or (not inplace and not copied):
                given[...] = new
                return given
            return new

        def transform(self, states, inplace=False):
            new = a * states + s
            if c["tshape"] == "cols":
                return new[:, :-1]
            if c["tshape"] == "rows":
                return np.vstack([new, new[:1]])
            return self.out(states, new, inplace, c["tin"] == "yes", c["tcopy"] == "yes")

        def inverse_transform(self, states, inplace=False, locs=None):
            if c["inv"] == "rows":
                ia, ib = 1 / a[::-1], -s[::-1] / a[::-1]
            else:
                ia, ib = 1 / a, -s / a
            if c["inv"] == "scale":
                ia = ia.copy()
                ia[-1] *= 2
            if c["inv"] == "shift":
                ib = ib.copy()
                ib[0] += 1
            if locs is not None:
                ia, ib = (1 / a)[locs], (-s / a)[locs]
                new = ia * states + ib
                if c["locs"] == "shift":
                    new += 1
                elif c["locs"] == "lastcol":
                    new[:, -1] += 1
                elif c["locs"] == "shape":
                    new = np.hstack([new, new[:, :1]])
            else:
                new = ia * states + ib
                if c["inv"] == "lastcol":
                    new[:, -1] += 1
                if c["ishape"] == "cols":
                    return new[:, 1:]
            return self.out(states, new, inplace, c["iin"] == "yes", c["icopy"] == "yes")

        def transform_ddts(self, ddts, inplace=False):
            if c["ddts"] == "none":
                return NotImplemented
            new = spoil(a * ddts * (1 + E.get(c["ddts"], 0)), c["ddts"])
            return self.out(ddts, new, inplace, c["din"] == "yes", c["dcopy"] == "yes")

    obj = Tf()
    if c["trained"] == "yes":
        obj.state_dimension = n

    def repair(field):
        if field == "trained":
            obj.state_dimension = n
    tol = lambda: {"default": {}, "loose": dict(tol=1e-2), "wide": dict(tol=1.0), "tight": dict(tol=1e-7)}[c["tol"]]
    return obj, lambda: obj.verify(**tol()), repair, lambda: obj.state_dimension


# ------------------------------------------------------------------- bases --
def make_basis(c):
    mats = {}

    def load():
        src = c.b["data"] if c["mat"] == c.b["impl"]["mat"] else c.b["orth"]
        mats["D"], mats["C"] = rat(src["D"]), rat(src["C"])
    load()

    class Ba(opinf.basis.BasisTemplate):
        def fit(self, states):
            self.full_state_dimension = states.shape[0]
            self.reduced_state_dimension = mats["C"].shape[0]
            return self

        def compress(self, states):
            out = mats["C"] @ states
            if states.ndim == 1:
                return out.reshape(-1, 1) if c["cvec"] == "matrix" else out
            return np.hstack([out, out[:, :1]]) if c["ccols"] == "more" else out

        def decompress(self, states, locs=None):
            D = mats["D"]
            if locs is not None:
                if c["locs"] == "shape":
                    return D @ states
                out = D[locs] @ states + (1 if c["locs"] == "shift" else 0)
                if c["locs"] == "lastcol":
                    out[:, -1] += 1
                return out
            out = D @ states
            if states.ndim == 1:
                return out.reshape(-1, 1) if c["dvec"] == "matrix" else out
            return np.vstack([out, out[:1]]) if c["dshape"] == "rows" else out

        def project(self, state):
            out = super().project(state) * (2 if c["proj"] == "double" else 1)
            if c["proj"] == "lastcol" and np.ndim(state) == 2:
                out[:, -1] += 1
            return out

    obj = Ba()
    n = mats["D"].shape[0]
    train = lambda: obj.fit(np.ones((n, 2)))
    if c["trained"] == "yes":
        train()

    def repair(field):
        if field == "trained":
            train()
        load()
    return obj, lambda: obj.verify(), repair, lambda: (obj.full_state_dimension, obj.reduced_state_dimension)


# ------------------------------------------------------------------ lifters --
def make_lift(c):
    n, s = c.b["n"], c.b["s"]
    rng = np.random.default_rng(s)

    class Li(opinf.lift.LifterTemplate):
        num_variables = 2

        def lift(self, states):
            out = np.concatenate((states, states**2))
            return out[:, 1:] if c["cols"] == "wrong" else out

        def unlift(self, lifted):
            q = lifted[: lifted.shape[0] // 2]
            if c["unlift"] in ("lastcol", "lastrow"):
                q = q.copy()
                q[(slice(None), -1) if c["unlift"] == "lastcol" else -1] += 1
            return q * 2 if c["unlift"] == "scale" else lifted if c["unlift"] == "rows" else q

        def lift_ddts(self, states, ddts):
            if c["ddts"] == "none":
                return NotImplemented
            out = np.concatenate((ddts, 2 * states * ddts)) * (1 + E.get(c["ddts"], 0))
            return out[:-1] if c["ddts"] == "shape" else spoil(out, c["ddts"])

    obj = Li()
    k = 9 + s % 3
    a, d = rng.integers(1, 4, (n, 1)), rng.integers(1, 4, (n, 1))
    calls = []

    def verify():
        t = np.arange(k) / 10 if c["grid"] == "uniform" else np.cumsum(1 + np.arange(k) % 3) / 10
        S = a + d * t
        keep = S.copy(), t.copy()
        kw = {"default": {}, "loose": dict(tol=1e-2), "wide": dict(tol=1.0)}[c["tol"]]
        if c["t"] == "given":
            kw["t"] = t
        try:
            return obj.verify(S, **kw)
        finally:
            calls.append(np.array_equal(S, keep[0]) and np.array_equal(t, keep[1]))
    return obj, verify, lambda f: None, lambda: all(calls)


# ---------------------------------------------------------------- operators --
def dim(choice, r):
    return {"right": r, "float": float(r), "zero": 0}[choice]


class _Op(opinf.operators.OperatorTemplate):
    """A q + c q*q + B u + d, reduced by V and W"""

    def __init__(self, A, quad, B, d, c, r=None, fault=None):
        self.A, self.q2, self.B, self.d, self.c, self.r, self.fault = A, quad, B, d, c, r, fault or {}

    def full(self, q, u):
        s = (lambda x: x) if q.ndim == 1 else (lambda x: x.reshape(-1, 1))
        return self.A @ q + self.q2 * q * q + s(self.d) + (0 if self.B is None else self.B @ u)

    @property
    def state_dimension(self):
        return self.A.shape[0] if self.r is None else self.r

    def apply(self, state, input_=None):
        out = self.full(state, input_) * self.fault.get("scale", 1)
        return out

    def jacobian(self, state, input_=None):
        return self.A + 2 * np.diag(self.q2 * state)


class _Reduced(opinf.operators.OperatorTemplate):
    def __init__(self, op, V, W, scale, r):
        self.op, self.V, self.W, self.scale, self.r = op, V, V if W is None else W, scale, r

    @property
    def state_dimension(self):
        return self.r

    def apply(self, state, input_=None):
        return self.scale * np.linalg.solve(self.W.T @ self.V, self.W.T @ self.op.full(self.V @ state, input_))


class _ReducedI(_Reduced, opinf.operators.InputMixin):
    m = 0

    @property
    def input_dimension(self):
        return self.m


class NotAnOperator:
    def __init__(self, op):
        self.op, self.state_dimension, self.input_dimension = op, op.state_dimension, getattr(op, "input_dimension", None)

    def apply(self, state, input_=None):
        return self.op.apply(state, input_)


def make_op(c):
    n, s = c.b["n"], c.b["s"]
    m = s % 3
    rng = np.random.default_rng(1000 + s)
    A = rng.integers(1, 4, (n, n)).astype(float)
    q2, B, d = float(rng.integers(1, 3)), (rng.integers(1, 4, (n, m)).astype(float) if m else None), rng.integers(1, 4, n).astype(float)

    class Mine(_Op):
        def lin(self):
            return c["what"]

        def full(self, q, u):
            what = c["what"]
            sh = (lambda x: x) if q.ndim == 1 else (lambda x: x.reshape(-1, 1))
            out = 0 * q + sh(self.d) + (0 if self.B is None else self.B @ u)
            if what != "constant":
                out = out + self.A @ q
            if what == "quadratic":
                out = out + self.q2 * q * q
            return out

        @property
        def state_dimension(self):
            return dim(c["rdim"], n + self.fault.get("r", 0))

        def apply(self, state, input_=None):
            out = self.full(state, input_) * self.fault.get("scale", 1)
            if self.fault.get("one"):
                out[-1] += 1
            if state.ndim == 1:
                return out.reshape(-1, 1) if c["vec"] == "column" else list(out) if c["vec"] == "list" else out
            return out[:, :-1] if c["mat"] == "transposed" else out[:, 0] if c["mat"] == "vector" else out

        def jacobian(self, state, input_=None):
            j, what = c["jac"], c["what"]
            if j == "none":
                raise NotImplementedError
            if j == "zero":
                return 0
            J = np.zeros((n, n)) if what == "constant" else self.A + (2 * np.diag(self.q2 * state) if what == "quadratic" else 0)
            if j == "shape":
                return np.vstack([J, J[:1]])
            if j == "entry" and c["tol"] != "wide":
                J = J.copy()
                J[-1, -1] += 1 + 10 * np.linalg.norm(J)
            return J * (1 + E.get(j, 0))

        def galerkin(self, Vr, Wr=None):
            g = c["gal"]
            if g == "none":
                raise NotImplementedError
            k = Vr.shape[1] + (1 if g == "state" else 0)
            scale = 2 if g == "scaled" or (g == "onlyV" and Wr is None) or (g == "onlyW" and Wr is not None) else 1
            out = (_ReducedI if m else _Reduced)(self, Vr, Wr, scale, k)
            if m:
                out.m = m + (1 if g == "input" else 0)
            return NotAnOperator(out) if g == "class" else out

        def other(self, fault):
            cls = Other if fault == "class" else type(self)
            return cls(A, q2, B, d, c, fault=dict(entries=dict(scale=1.5), one=dict(one=1), state=dict(r=1), input=dict(m=1)).get(fault, {}))

        def copy(self):
            return self if c["copy"] == "self" else self.other(c["copy"])

        def save(self, savefile, overwrite=False):
            if c["file"] == "none":
                raise NotImplementedError
            if os.path.exists(savefile) and not overwrite:
                raise FileExistsError(savefile)
            with open(savefile, "w") as f:
                json.dump(dict(fault=c["file"]), f)

        @classmethod
        def load(cls, loadfile):
            with open(loadfile) as f:
                fault = json.load(f)["fault"]
            return Mine_.other(obj, fault)

    if m:
        class MineI(Mine, opinf.operators.InputMixin):
            @property
            def input_dimension(self):
                return dim(c["mdim"], m + self.fault.get("m", 0))
        Mine_ = MineI
    else:
        Mine_ = Mine

    class Other(Mine_):
        pass

    obj = Mine_(A, q2, B, d, c)
    tol = lambda: {"default": {}, "loose": dict(fdifftol=1e-2), "wide": dict(fdifftol=1.0)}[c["tol"]]
    q, u = np.arange(1.0, n + 1), np.ones(m) if m else None
    return obj, lambda: obj.verify(**tol()), lambda f: None, lambda: (obj.A.tolist(), obj.d.tolist(), obj.full(q, u).tolist() if c["what"] else None)


def make_opinf(c):
    n, s = c.b["n"], c.b["s"]

    def operator_dimension(r, m):
        d = r + m
        return {"right": d, "float": float(d), "zero": 0, "more": d + 1}[c["dim"]]

    def datablock(states, inputs):
        out = np.vstack([states, inputs])
        return {"right": out, "vector": out[0], "rows": out[:-1], "cols": out[:, :-1]}[c["block"]]

    ns = {}

    def build():
        class Mine(opinf.operators.OpInfOperator, opinf.operators.InputMixin):
            def set_entries(self, entries):
                opinf.operators.OpInfOperator.set_entries(self, entries)

            @property
            def input_dimension(self):
                return self.entries.shape[1] - self.entries.shape[0]

            def apply(self, state, input_=None):
                r = self.entries.shape[0]
                return self.entries[:, :r] @ state + self.entries[:, r:] @ input_

            def jacobian(self, state, input_=None):
                return self.entries[:, : self.entries.shape[0]]

            def galerkin(self, Vr, Wr=None):
                W = Vr if Wr is None else Wr
                r = self.entries.shape[0]
                e = np.hstack([W.T @ self.entries[:, :r] @ Vr, W.T @ self.entries[:, r:]])
                return Mine(np.linalg.solve(W.T @ Vr, e))
        Mine.operator_dimension = staticmethod(operator_dimension) if c["dstatic"] == "yes" else (lambda self, r, m: operator_dimension(r, m))
        Mine.datablock = staticmethod(datablock) if c["bstatic"] == "yes" else (lambda self, q, u: datablock(q, u))
        Mine.__abstractmethods__ = frozenset()
        m = 1 + s % 2
        ent = np.random.default_rng(s).integers(1, 5, (n, n + m)).astype(float)
        ns["o"] = Mine(ent) if c["entries"] == "given" else Mine()
    build()
    return None, lambda: ns["o"].verify(), lambda f: build(), lambda: None if ns["o"].entries is None else ns["o"].entries.tolist()


def make_param(c):
    n, s = c.b["n"], c.b["s"]
    m, p = s % 3, 1 + s % 2

    class Base(opinf.operators.OperatorTemplate):
        r, m = n, None

        @property
        def state_dimension(self):
            return self.r

        def apply(self, state, input_=None):
            return state

    class BaseI(Base, opinf.operators.InputMixin):
        @property
        def input_dimension(self):
            return self.m

    class Alien(opinf.operators.OperatorTemplate):
        state_dimension = n

        def apply(self, state, input_=None):
            return state

    class AlienI(Alien, opinf.operators.InputMixin):
        input_dimension = m

    class Par(opinf.operators.ParametricOperatorTemplate):
        @property
        def _OperatorClass(self):
            return NotAnOperator if c["opclass"] == "plain" else Base

        @property
        def state_dimension(self):
            return dim(c["rdim"], n)

        @property
        def parameter_dimension(self):
            return p

        def evaluate(self, parameter):
            if np.shape(parameter) != (p,):
                raise IndexError("parameter")
            e = c["eval"]
            if e == "class":
                return (AlienI if m else Alien)()
            withu = (m > 0 and e != "noinputs") or e == "inputs"
            out = (BaseI if withu else Base)()
            out.m = (m or 1) + (1 if e == "input" and m else 0)
            if e == "state":
                out.r = n + 1
            return out

    if m:
        class ParI(Par, opinf.operators.InputMixin):
            @property
            def input_dimension(self):
                return dim(c["mdim"], m)
        cls = ParI
    else:
        cls = Par
    obj = cls()

    def verify():
        t = c["testparam"]
        return obj.verify() if t == "none" else obj.verify(testparam=np.ones(p if t == "right" else p + 1))
    return obj, verify, lambda f: None, lambda: None


# --------------------------------------------------------------- estimators --
TESTS = dict([(r"$f(t) = t$", lambda t: 1 + 0 * t), (r"$f(t) = t^4 - \frac{1}{3}t^3$", lambda t: 4 * t**3 - t**2), (r"$f(t) = \sin(t)$", np.cos),
              (r"$f(t) = e^t$", np.exp), (r"$f(t) = \frac{1}{1 + t}$", lambda t: -1 / (t + 1) ** 2),
              (r"$f(t) = t - t^3 + \cos(t) - e^{t/2}$", lambda t: 1 - 3 * t**2 - np.sin(t) - np.exp(t / 2) / 2)])


def make_ddt(c, v):
    n, s = c.b["n"], c.b["s"]
    K = 6 + s % 4
    t0 = np.linspace(0, 1, K) if s % 2 else np.cumsum(1.0 + np.arange(K) % 2)
    DERS = list(TESTS.values())

    class Est(opinf.ddt.DerivativeEstimatorTemplate):
        def estimate(self, states, inputs=None):
            t = self.time_domain
            a, z = {"all": (0, 0), "first": (0, 2), "last": (2, 0), "middle": (1, 3)}[c["window"]]
            w = slice(a, states.shape[1] - z)
            if states.shape[0] == len(DERS) and states.shape[1] == t.size and inputs is None and t.size > 1000:
                if c["boom"] == "yes" and t[1] - t[0] < 1e-5:
                    raise RuntimeError("boom")
                return states[:, w], np.array([f(t) for f in DERS])[:, w] * (1 + E.get(c["error"], 0))
            Q, D = states[:, w], 0 * states[:, w]
            if c["q"] == "rows":
                Q = np.vstack([Q, Q[:1]])
            D = np.vstack([D, D[:1]]) if c["d"] == "rows" else D[:, 1:] if c["d"] == "cols" else D
            if inputs is None:
                return {"right": (Q, D), "list": [Q, D], "three": (Q, D, None), "states": Q}[c["two"]]
            U = np.atleast_2d(inputs)[:, w]
            U = U[:-1] if c["u"] == "rows" else U[:, 1:] if c["u"] == "cols" else U
            return {"right": (Q, D, U), "two": (Q, D), "none": (Q, D, None)}[c["three"]]

        def mask(self, arr):
            return arr

    obj = Est(t0)

    def verify():
        if c["call"] == "shapes":
            return obj.verify_shapes(r=n + 1, m=1 + s % 3)
        out = obj.verify(return_errors=True)
        want = E.get(c["error"], 0)
        v.true("reported.tests", set(out) == set(TESTS) | {"dts"}, sorted(out))
        for name in TESTS:
            if name in out:
                v.eq("reported.error", np.array(out[name]), np.full(len(out["dts"]), want), atol=1e-6)
        v.true("reported.none", True if c["boom"] == "yes" else obj.verify() is None)
        return None
    return obj, verify, lambda f: None, lambda: (obj.time_domain is t0, obj.time_domain.tolist())


# ------------------------------------------------------------------ solvers --
def make_solver(c):
    r, s = c.b["n"], c.b["s"]
    d = 1 + (s // 2) % 3
    k = d + 3
    rng = np.random.default_rng(s)
    X = rng.integers(1, 6, (r, d)).astype(float)
    D, Z = rng.standard_normal((k, d)), rng.standard_normal((r, k))

    class So(opinf.lstsq.SolverTemplate):
        extra = one = 0

        def solve(self):
            out = X + self.extra
            out[-1, -1] += self.one
            return out.T if c["solve"] == "transposed" else out.ravel() if c["solve"] == "flat" else out

        def other(self, fault):
            o = (Alien if fault == "class" else So)()
            o.extra, o.one = self.extra + (1 if fault == "data" else 0), self.one + (fault == "one")
            return o.fit(D[1:], Z[:, 1:]) if fault == "dims" else o.fit(D, Z)

        def copy(self):
            return self.other(c["copy"])

        def save(self, savefile, overwrite=False):
            if c["file"] == "none":
                raise NotImplementedError
            with open(savefile, "w") as f:
                f.write("x")

        def load(self, loadfile):
            if c["file"] == "noload":
                raise NotImplementedError
            assert os.path.exists(loadfile)
            return self.other(c["file"])

    class Alien(So):
        pass

    obj = So()
    if c["trained"] == "yes":
        obj.fit(D, Z)

    def repair(field):
        if field == "trained":
            obj.fit(D, Z)
    return obj, lambda: obj.verify(), repair, lambda: (obj.data_matrix is D, obj.extra)


# ------------------------------------------------- the package's own classes --
def build_class(c):
    """a trained object of the package, and what to look at to see whether it was changed"""
    n, s, name = c.b["n"], c.b["s"], c["class"]
    rng = np.random.default_rng(s * 17 + 5)
    Q = rng.integers(-9, 10, (n, 12)).astype(float)
    Q[:, 0], Q[:, 1] = -11, 12 + np.arange(n)
    probe = rng.integers(-5, 6, (n, 3)).astype(float)
    cen, byrow = c["centering"] == "yes", c["byrow"] == "yes"
    pre, ba, ops, ls = opinf.pre, opinf.basis, opinf.operators, opinf.lstsq
    one = lambda: pre.ShiftScaleTransformer(centering=cen, scaling="minmax", byrow=byrow)
    if name in ("Null", "Shift", "Scale", "Scale.rows", "Pipeline", "Multi") or name.startswith("ShiftScale."):
        if name.startswith("ShiftScale."):
            sc = name.split(".")[1]
            if sc.startswith("maxnorm"):
                byrow = False
            tf = pre.ShiftScaleTransformer(centering=cen, scaling=sc, byrow=byrow).fit(Q)
        elif name == "Pipeline":
            tf = pre.TransformerPipeline([one(), pre.ShiftScaleTransformer(centering=True), pre.ScaleTransformer(3.0)]).fit(Q)
        elif name == "Multi":
            tf = (pre.TransformerMulti([one()]) if n == 1 else
                  pre.TransformerMulti([one(), pre.NullTransformer(), one()][: min(n, 3)], variable_sizes=[1] * (min(n, 3) - 1) + [n - min(n, 3) + 1])).fit(Q)
        else:
            tf = {"Null": pre.NullTransformer, "Shift": lambda: pre.ShiftTransformer(Q[:, 0]), "Scale": lambda: pre.ScaleTransformer(2.5),
                  "Scale.rows": lambda: pre.ScaleTransformer(1.0 + np.arange(n))}[name]()
            tf.fit(Q)
        return tf, lambda o: (o.transform(probe), o.inverse_transform(probe), o.transform_ddts(probe)), True
    if name in ("Linear", "Linear.weights", "POD", "POD.weights", "BasisMulti"):
        w = 1.0 + np.arange(n) % 3
        r = 1 + (s % 2 if n > 1 else 0)
        V = np.linalg.qr(rng.standard_normal((n, r)))[0]
        b = {"Linear": lambda: ba.LinearBasis(V), "Linear.weights": lambda: ba.LinearBasis(V / np.sqrt(w)[:, None], weights=w),
             "POD": lambda: ba.PODBasis(num_vectors=r).fit(Q), "POD.weights": lambda: ba.PODBasis(num_vectors=r, weights=w).fit(Q),
             "BasisMulti": lambda: ba.BasisMulti([ba.PODBasis(num_vectors=1)] * 1 if n == 1 else [ba.PODBasis(num_vectors=1), ba.PODBasis(num_vectors=1)],
                                                 full_variable_sizes=[n] if n == 1 else [1, n - 1]).fit(Q)}[name]()
        return b, lambda o: (o.compress(probe), o.decompress(o.compress(probe)), o.project(probe)), True
    if name in ("Quadratic", "Polynomial"):
        li = opinf.lift.QuadraticLifter() if name == "Quadratic" else opinf.lift.PolynomialLifter(((1, 2, 3), (2, 1), (-1, 2), (0, 1, 0.5))[s % 4])
        return li, lambda o: (o.lift(abs(probe) + 1),), False
    if name.startswith("op."):
        k, m = name[3:], 1 + s % 2
        rnd = lambda *sh: rng.integers(1, 6, sh).astype(float)
        if k.startswith(("Affine", "Interp")):
            base = k.replace("Affine", "").replace("Interp", "")
            cols = {"Linear": n, "Input": m, "StateInput": n * m}[base]
            ents = [rnd(n, cols) for _ in range(3)]
            cls = getattr(ops, k + "Operator")
            op = cls((lambda mu: mu[0], lambda mu: mu[0] ** 2, lambda mu: 1.0), entries=ents) if k.startswith("Affine") else cls(np.array([1.0, 2.0, 4.0]), ents)
            if k.startswith("Affine"):
                op.parameter_dimension = 1
            u = None if base == "Linear" else rnd(m)
            return op, lambda o: (o.evaluate(np.array([1.5])).apply(probe[:, 0], u),), True
        cls = getattr(ops, ("Quadratic" if k == "zero" else k) + "Operator")
        d = cls.operator_dimension(n, m)
        ent = rnd(n) if k == "Constant" else rnd(n, d) * (0 if k == "zero" else 1)
        op = cls(ent)
        u = rnd(m) if k in ("Input", "StateInput") else None
        return op, lambda o: (o.apply(probe[:, 0], u), o.entries), True
    d, k, r = n, n + 4, 1 + s % 3
    D, Z = rng.integers(-6, 7, (k, d)).astype(float) + np.eye(k, d) * 20, rng.integers(-6, 7, (r, k)).astype(float)
    so = {"Plain": lambda: ls.PlainSolver(), "L2": lambda: ls.L2Solver(2.0), "L2Decoupled": lambda: ls.L2DecoupledSolver(1.0 + np.arange(r)),
          "Tikhonov": lambda: ls.TikhonovSolver(np.eye(d) * 2), "TikhonovDecoupled": lambda: ls.TikhonovDecoupledSolver([np.eye(d) * (1 + i) for i in range(r)]),
          "TruncatedSVD": lambda: ls.TruncatedSVDSolver(max(1, d - 1)), "Total": lambda: ls.TotalLeastSquaresSolver()}[name]().fit(D, Z)
    return so, lambda o: (o.solve(),), name not in ("Total",)


def make_built(c, v):
    st = {}

    def build():
        st["o"], st["look"], saves = build_class(c)
        if c["saved"] == "yes" and saves and hasattr(st["o"], "save"):
            f = "built_%d.h5" % os.getpid()
            try:
                st["o"].save(f)
                o = st["o"]
                kw = dict(coeffs=o.coeffs) if isinstance(o, opinf.operators.AffineLinearOperator | opinf.operators.AffineInputOperator) else {}
                if isinstance(o, (opinf.pre.TransformerPipeline, opinf.pre.TransformerMulti)):
                    kw = dict(TransformerClasses=[type(x) for x in o.transformers])
                elif isinstance(o, opinf.basis.BasisMulti):
                    kw = dict(BasisClasses=[type(x) for x in o.bases])
                st["o"] = type(o).load(f, **kw)
                if kw.get("coeffs") and st["o"].parameter_dimension is None:
                    st["o"].parameter_dimension = 1
            finally:
                if os.path.exists(f):
                    os.remove(f)
    build()

    def verify():
        o = st["o"]
        def go():
            if isinstance(o, opinf.lift.LifterTemplate):
                t = np.arange(20) * 1e-3
                return o.verify(2 + np.arange(c.b["n"])[:, None] + np.sin(t + np.arange(c.b["n"])[:, None]), t)
            if isinstance(o, opinf.operators.ParametricOperatorTemplate):
                return o.verify(testparam=np.array([1.25]))
            return o.verify()
        if c["again"] == "yes":
            go()
        return go()

    def see():
        return [np.asarray(x.toarray() if hasattr(x, "toarray") else x).tolist() for x in st["look"](st["o"])]
    return None, verify, lambda f: build(), see


def make_fd(c, v):
    n, s = c.b["n"], c.b["s"]
    t0 = np.linspace(0, 1 + n, 12)
    st = {}

    def build():
        sch = c["scheme"]
        t1 = np.linspace(0.1, 0.9, 5)
        st["o"] = opinf.ddt.NonuniformFiniteDifferencer(t0 ** 2) if sch == "nonuniform" else \
            opinf.ddt.InterpDerivativeEstimator(t0, sch.split(".")[0], **(dict(new_time_domain=t1) if ".new" in sch else {})) if sch[0] in "ca" and sch[:3] != "ctr" else \
            opinf.ddt.UniformFiniteDifferencer(t0, sch)
    build()

    def verify():
        o = st["o"]
        o.verify_shapes(r=n, m=1 + s % 2)
        out = o.verify(return_errors=True)
        deg = c.degree
        names = list(TESTS)
        use = np.array(out["dts"]) > 1e-4
        for name, need in ((names[0], 1), (names[1], 4)):
            if deg >= need:
                v.eq("reported.exact", np.array(out[name])[use], np.zeros(use.sum()), atol=1e-6)
        for name in names:          # no estimate is worse than its truncation error when it is compared at its own times
            v.true("reported.small", bool(np.all(np.array(out[name])[1:5] < 1e-2)), "%s: %s" % (name, out[name]))
        return None

    def see():
        o = st["o"]
        return [o.time_domain.tolist(), o.mask(np.tile(np.arange(12.0), (2, 1))).tolist() if not isinstance(o, opinf.ddt.InterpDerivativeEstimator) else
                None if o.new_time_domain is None else o.new_time_domain.tolist()]
    return None, verify, lambda f: build(), see


MAKE = dict(built=make_built, fd=make_fd, tf=make_tf, basis=make_basis, lift=make_lift, op=make_op, opinf=make_opinf, param=make_param, ddt=make_ddt, solver=make_solver)


def replay_verify(b, rec, ctx):
    c = Conf(b)
    v = V(rec, b["kind"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        before = sorted(os.listdir("."))
        made = MAKE[b["kind"]](c, v) if b["kind"] in ("ddt", "built", "fd") else MAKE[b["kind"]](c)
        _, verify, repair, look = made
        np.random.seed((b["s"] * 7919 + len(b["h"])) % 2**31)
        for h in b["h"]:
            if h["op"] == "repair":
                c.f[h["field"]] = h["to"]
                repair(h["field"])
                continue
            was = look()
            c.degree = h["degree"]
            dev = "+".join("%s=%s" % (k, x) for k, x in sorted(c.f.items()) if x not in ("right", "yes", "default", "given", "orth", "linear", "all", "uniform", "verify", "Null", "ord4")
                           and not (b["kind"] == "built" and (k, x) in (("again", "no"), ("byrow", "no"), ("saved", "no")))
                           and not (k in ("testparam", "error") and x == "none") and not (k == "boom" and x == "no"))
            try:
                out = verify()
                got = "ok"
            except Exception as ex:
                out, got = ex, type(ex).__name__
            rec.count("verdict." + h["want"])
            if got != h["want"]:
                rec.fail(("accepted" if got == "ok" else "refused" if h["want"] == "ok" else "error") + "|" + b["kind"] + "." + dev,
                         "verify() of an implementation with %s: %s (%r), required: %s" % (dev or "no fault", got, out, h["want"]))
            elif got == "ok":
                v.true("returns", out is None, repr(out))
            v.true("unchanged", look() == was or b["kind"] == "lift", "%r -> %r" % (was, look()))
            if b["kind"] == "lift":
                v.true("unchanged", look(), "verify() changed its arguments")
        v.true("files", sorted(os.listdir(".")) == before, "files left behind: %s" % sorted(os.listdir(".")))


def c29(chk):
    q, s = chk.tier == "quick", chk.seed
    kinds = set(MAKE)
    chk.execute([Run("VerifyMC", dict(Kinds=kinds, Ns={1, 2, 3} if q else {1, 2, 3, 4, 7}, Seeds={s, s + 1, s + 2} if q else set(range(s, s + 6)),
                                      MaxDev=2, Keep=3 if q else 1), ["RightAccepted"], replay_verify)]
                + ([] if q else [Run("VerifyMC", dict(Kinds=kinds, Ns={2, 4}, Seeds={s, s + 1}, MaxDev=3, Keep=3), ["RightAccepted"], replay_verify, name="VerifyMC3")]))
    return ["faults are gross (an implementation whose defect is below numpy.allclose is not distinguished from a correct one)",
            "verify() draws random states: the global generator is seeded"]


CHECKS = dict(C29=c29)
