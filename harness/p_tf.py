"""State transformers (spec/Tf.tla, spec/TfMC.tla): C01, C02, C03."""
import contextlib
import io
import warnings
import numpy as np
import opinf
from vp import Run
from num import rat, V, Frozen
import zlib

pre = opinf.pre
DimErr = (ValueError, opinf.errors.DimensionalityError)


def h(*a):
    return zlib.crc32(repr(a).encode())


class User(pre.TransformerTemplate):
    """q -> c q, written against the template, without a rule for time derivatives"""

    def __init__(self, c, name=None):
        super().__init__(name)
        self.c = c

    def fit_transform(self, states, inplace=False):
        self.state_dimension = states.shape[0]
        return self.transform(states, inplace)

    def times(self, c, states, inplace):
        if not inplace:
            return states * c
        states *= c
        return states

    def transform(self, states, inplace=False):
        self._check_shape(states)
        return self.times(self.c, states, inplace)

    def inverse_transform(self, states_transformed, inplace=False, locs=None):
        if locs is None:
            self._check_shape(states_transformed)
        elif len(np.arange(self.state_dimension)[locs]) != len(states_transformed):
            raise ValueError("locs not aligned")
        return self.times(1 / self.c, states_transformed, inplace)


def build(t, variant=0, name=None):
    k = t["k"]
    if k == "null":
        return pre.NullTransformer(name=name)
    if k == "shift":
        return pre.ShiftTransformer(rat(t["par"]), name=name)
    if k == "scale":
        return pre.ScaleTransformer(rat(t["par"])[0].item(), name=name)
    if k == "user":
        return User(rat(t["par"])[0].item(), name=name)
    if k == "scalerow":
        return pre.ScaleTransformer(rat(t["par"]), name=name)
    if k == "ss":
        return pre.ShiftScaleTransformer(centering=t["cen"], scaling=None if t["scl"] == "none" else t["scl"],
                                         byrow=t["byrow"], name=name, verbose=variant % 5 == 1)
    parts = [build(p, variant // 2) for p in t["parts"]]
    if k == "pipe":
        return pre.TransformerPipeline(tuple(parts) if variant % 2 else parts, name=name)
    sizes = [p["n"] for p in t["parts"]]
    if len(set(sizes)) == 1 and variant % 2:
        return pre.TransformerMulti(parts)
    if variant % 3 == 0:     # None stands for the identity
        parts = [None if p["k"] == "null" else q for p, q in zip(t["parts"], parts)]
    return pre.TransformerMulti(parts, variable_sizes=sizes)


def badfit(tf, t, n, fitted):
    """(function, exception) of a fit that must be refused, or None"""
    k = t["k"]
    if k == "ss":
        return lambda m: m(np.arange(1.0, n + 1))
    if k in ("shift", "scalerow"):
        return lambda m: m(np.ones((n + 1, 3)))
    if k == "pipe":
        return badfit(tf, t["parts"][0], n, fitted)
    if k == "multi":
        nq = len(t["parts"])
        rows = n + 1 if tf.state_dimension is not None else nq * n + 1
        return lambda m: m(np.ones((rows, 3)))
    return None


def has_user(t):
    return t["k"] == "user" or any(has_user(p) for p in t.get("parts", []))


def slices(m):
    """slices (with omitted, negative, and out-of-range bounds) selecting at least one of m entries"""
    ends = [None] + list(range(-m - 1, m + 3))
    for a in ends:
        for b in ends:
            for st in (None, 2):
                if len(range(*slice(a, b, st).indices(m))):
                    yield slice(a, b, st)
    yield slice(None, None, -1)


def observe(tf, b, step, v, check_verify):
    o, t = step["obs"], b["tree"]
    n = o["n"]
    X0 = np.arange(3.0 * n).reshape((n, 3))
    if o["trained"] == "no":
        for meth in ("transform", "inverse_transform", "transform_ddts")[:2 if has_user(t) else 3]:
            v.raises("untrained." + meth, AttributeError, lambda: getattr(tf, meth)(X0.copy()))
        return
    if o["trained"] == "free":
        return
    v.true("dim.state_dimension", tf.state_dimension == n, "state_dimension %r != %d" % (tf.state_dimension, n))
    X, TX, Z, IZ = (rat(o[k]) for k in ("X", "TX", "Z", "IZ"))
    DX = rat(o["DX"]) if o["DX"] else None

    def three(clause, meth, A, B, **kw):
        """matrix out of place, matrix in place, single column"""
        f = getattr(tf, meth)
        fz = Frozen(data=A)
        got = f(A, inplace=False, **kw)
        v.eq(clause + ".matrix", got, B)
        fz.check(v, "mutated." + meth)
        v.true("alias." + meth, not np.shares_memory(got, A), "inplace=False returned a view of its argument")
        A2 = A.copy()
        got = f(A2, inplace=True, **kw)
        v.eq(clause + ".inplace", got, B)
        v.true("inplace.is." + meth, got is A2, "inplace=True did not return its argument")
        v.eq("inplace.value." + meth, A2, B)
        for j in (0, A.shape[1] - 1):
            a = np.ascontiguousarray(A[:, j])
            fz = Frozen(data=a)
            v.eq(clause + ".vector", f(a, inplace=False, **kw), B[:, j])
            fz.check(v, "mutated." + meth)
        if np.all(A == np.round(A)):
            AI = A.astype(int)
            got = f(AI, inplace=False, **kw)
            v.eq(clause + ".integers", got, B)
            v.true("mutated.integers." + meth, np.array_equal(AI, A), "integer data modified")
        wide = np.full((A.shape[0], 2 * A.shape[1]), 9.0)
        wide[:, ::2] = A
        f(wide[:, ::2], inplace=True, **kw)
        v.eq("inplace.view." + meth, wide[:, ::2], B)
        v.true("inplace.around." + meth, np.all(wide[:, 1::2] == 9), "in-place work outside the given view")
        v.eq(clause + ".fortran", f(np.asfortranarray(A), inplace=False, **kw), B)
        got = f(A, **kw) if meth != "transform_ddts" else f(A.copy(), **kw)
        v.eq(clause + ".default", got, B)

    three("transform", "transform", X, TX)
    three("inverse", "inverse_transform", Z, IZ)
    if DX is None:
        for kw in (dict(), dict(inplace=False), dict(inplace=True)):
            ok, r = v.call("ddts.notimplemented", lambda: tf.transform_ddts(X.copy(), **kw))
            v.true("ddts.notimplemented", not ok or r is NotImplemented, "a part without transform_ddts(), but the result is not NotImplemented")
    else:
        three("ddts", "transform_ddts", X, DX)
    v.eq("inverse.roundtrip", tf.inverse_transform(tf.transform(X)), X)
    v.eq("inverse.roundtrip2", tf.transform(tf.inverse_transform(Z)), Z)
    # finite differences commute with the derivative transformation
    dt = 0.25
    if DX is not None:
        d1 = (tf.transform(X[:, 1:].copy()) - tf.transform(X[:, :-1].copy())) / dt
        v.eq("ddts.commute", d1, tf.transform_ddts((X[:, 1:] - X[:, :-1]) / dt, inplace=False))
    if "locs" in o:
        locs = np.array(o["locs"]) - 1
        ZL, IZL = rat(o["ZL"]), rat(o["IZL"])
        three("locs", "inverse_transform", ZL, IZL, locs=locs)
        full = tf.inverse_transform(Z)
        rows = np.array(o["lrows"]) - 1
        v.eq("locs.consistent", tf.inverse_transform(Z[rows], locs=locs), full[rows])
        m = t["parts"][0]["n"] if t["k"] == "multi" else n
        nv = len(t["parts"]) if t["k"] == "multi" else 1
        for sl in slices(m):
            r = np.concatenate([np.arange(m)[sl] + i * m for i in range(nv)])
            v.eq("locs.slice", tf.inverse_transform(Z[r], locs=sl), full[r])
        if m > 1:
            v.raises("align.locs", DimErr, lambda: tf.inverse_transform(np.ones((Z.shape[0] + 1 if len(rows) == Z.shape[0] else Z.shape[0] + len(rows), 2)), locs=locs))
    for rows in {n + 1, n - 1} - {0}:
        for meth in ("transform", "inverse_transform", "transform_ddts")[:2 if DX is None else 3]:
            bad = np.ones((rows, 2))
            v.raises("align." + meth, DimErr, lambda: getattr(tf, meth)(bad, inplace=False))
            v.true("align.unchanged", np.all(bad == 1), "data changed by a refused call")
    if check_verify and "locs" in o:
        v.call("verify", tf.verify)


def replay_tf(b, rec, ctx):
    t = b["tree"]
    var = h(b["s"], b["sh"], str(t)[:200])
    v = V(rec, b["sh"])
    np.random.seed(var % 2**31)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        ok, tf = v.call("call.construct", lambda: build(t, var, name=None))
        if not ok:
            return
        o0 = dict(n=t["n"], trained=b["pre"])
        if b["pre"] == "no":
            observe(tf, b, dict(obs=o0), v, False)
        fitted = False
        for i, s in enumerate(b["hist"]):
            if s["a"] == "badfit":
                f = badfit(tf, t, s["n"], fitted)
                if f is not None:
                    for meth in (tf.fit, tf.fit_transform):
                        v.raises("align.fit", DimErr, lambda: f(meth))
            else:
                X, Y = rat(s["X"]), rat(s["Y"])
                fz = Frozen(states=X)
                fitted = True
                whole = (var + i) % 3 == 0 and np.all(X == np.round(X))
                XI = X.astype(int) if whole and s["via"] != "inplace" else X
                if s["via"] == "fit":
                    ok, r = v.call("call.fit", lambda: tf.fit(XI))
                    if not ok:
                        return
                    v.true("fit.returns_self", r is tf)
                    fz.check(v, "mutated.fit")
                elif s["via"] == "fit_transform":
                    ok, r = v.call("call.fit_transform", lambda: tf.fit_transform(XI, inplace=False))
                    if not ok:
                        return
                    fz.check(v, "mutated.fit_transform")
                    v.eq("fit.value", r, Y)
                    v.true("alias.fit_transform", not np.shares_memory(r, X))
                    r += 1.0          # owning the result must not disturb the transformer
                else:
                    X2 = X.copy()
                    ok, r = v.call("call.fit_transform", lambda: tf.fit_transform(X2, inplace=True))
                    if not ok:
                        return
                    v.true("inplace.is.fit_transform", r is X2)
                    v.eq("fit.value.inplace", X2, Y)
                    X2 += 1.0
                v.eq("fit.training_data", tf.transform(X), Y)
                a = s["attrs"]
                if "mean" in a:
                    if a["cen"]:
                        v.eq("fit.mean_", tf.mean_, rat(a["mean"]))
                    if a["scl"] != "none":
                        sc, sh = rat(a["scale"]), rat(a["shift"])
                        v.eq("fit.scale_", tf.scale_, sc if a["byrow"] else sc[0])
                        v.eq("fit.shift_", tf.shift_, sh if a["byrow"] else sh[0])
            observe(tf, b, s, v, fitted and i == len(b["hist"]) - 1 and var % 4 == 0)
            if b["pre"] == "yes" and i == 0 and t["k"] in ("shift", "scalerow"):
                # usable without any training
                fresh = build(t, var)
                observe(fresh, b, s, v, False)


SHAPES = {"leaf", "pipe2", "pipe3", "multi2", "multi3", "nested"}
INV = ["DocStats", "RoundTrip", "FitSound"]


def runs(chk, only):
    q = chk.tier == "quick"
    s = chk.seed
    ctx = dict(only=only)
    seeds = {s} if q else {s * 10 + i for i in range(3)}
    return [
        Run("TfMC", dict(Shapes={"leaf"}, Ns={1, 2, 3}, Ks={4} if q else {4, 5}, Seeds=seeds if not q else {s, s + 100},
                         MaxLen=2 if q else 3, Stride=1), INV, replay_tf, ctx=ctx, name="leaves"),
        Run("TfMC", dict(Shapes=SHAPES, Ns={1, 2, 3}, Ks={4} if q else {4, 5}, Seeds=seeds if q else {s + 50},
                         MaxLen=2, Stride=20 if q else 8), INV, replay_tf, ctx=ctx, name="compositions"),
    ]


def mk(only):
    def f(chk):
        chk.execute(runs(chk, only))
        return ["transformer data are small rationals; comparison tolerance 1e-7"]
    return f


CHECKS = dict(C01=mk(r"inverse|locs|verify|dim"), C02=mk(r"fit|transform|dim|untrained"), C03=mk(r"ddts|verify"))
