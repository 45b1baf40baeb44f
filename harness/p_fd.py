"""Time-derivative estimation (spec/Fd.tla, FdMC.tla): C17."""
import warnings
import numpy as np
import scipy.interpolate as spi
import opinf
from vp import Run
from num import rat, V, Frozen

ddt = opinf.ddt
CLASSES = dict(cubic=spi.CubicSpline, akima=spi.Akima1DInterpolator, pchip=spi.PchipInterpolator)
DIM = (opinf.errors.DimensionalityError, ValueError)


def replay_fd(b, rec, ctx):
    c, hist = b["cfg"], b["hist"]
    t = rat(b["t"])
    k = c["k"]
    v = V(rec, c["scheme"])
    # the unit of time is arbitrary: exact powers of two
    sc = (1.0, 2.0 ** -32, 1.0, 2.0 ** 24)[(c["s"] + k + len(c["scheme"]) + ord(c["scheme"][-1])) % 4]
    t = t * sc
    dt = sc * float(c["dt"][0]) / c["dt"][1]
    kind = c["kind"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tf = t.copy()
        if kind == "uniform":
            est = ddt.UniformFiniteDifferencer(tf + 3.0 * sc, c["scheme"])
            bad_t = t.copy()
            bad_t[-1] += 0.4 * dt
            if k > 2:
                v.raises("refuse.nonuniform", ValueError, lambda: ddt.UniformFiniteDifferencer(bad_t, c["scheme"]))
            v.raises("refuse.scheme", ValueError, lambda: ddt.UniformFiniteDifferencer(t, c["scheme"] + "x"))
            if c["scheme"] == "ord4":
                v.true("default", ddt.UniformFiniteDifferencer(tf).scheme is ddt.ord4)
            v.eq("dt", est.dt / sc, dt / sc)
        elif kind == "nonuniform":
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                est = ddt.NonuniformFiniteDifferencer(tf)
            v.true("warns", bool([x for x in w if issubclass(x.category, opinf.errors.OpInfWarning)]) == b["warns"], c["mode"])
        else:
            t2 = rat(b["t2"]) * sc if c["mode"] != "same" else None
            how = (c["s"] + k + len(c["mode"])) % 3          # by name, or the class with the axis counted from either end
            kw = {} if how == 0 else {"axis": (1, -1)[how - 1]}
            arg = c["scheme"] if how == 0 else CLASSES[c["scheme"]]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                est = ddt.InterpDerivativeEstimator(tf, arg, new_time_domain=t2, **kw)
            v.true("warns", bool([x for x in w if issubclass(x.category, opinf.errors.OpInfWarning)]) == b["warns"], c["mode"])
            v.true("class", est.InterpolatorClass is CLASSES[c["scheme"]], est.InterpolatorClass)
            if t2 is None:
                v.true("new_time_domain", est.new_time_domain is None, est.new_time_domain)
            else:
                v.eq("new_time_domain", est.new_time_domain / sc, rat(b["t2"]))
            v.raises("refuse.interpolator", ValueError, lambda: ddt.InterpDerivativeEstimator(tf, c["scheme"] + "x"))
            v.raises("refuse.newtimes", TypeError, lambda: ddt.InterpDerivativeEstimator(tf, c["scheme"], new_time_domain=[1.0, 2.0]))
            v.raises("refuse.newtimes", TypeError, lambda: ddt.InterpDerivativeEstimator(tf, c["scheme"], new_time_domain=np.array([[1.0, 2.0]])))
        for s in hist:
            nu = s["nu"]
            Q, U, D, Q2, U2 = (rat(s[x]) for x in ("Q", "U", "D", "Q2", "U2"))
            ints = c["s"] % 2 == 0 and kind != "interp"
            if ints:
                Q = Q.astype(int)
            Uin = None if nu == 0 else (U[0] if nu == 1 else U)
            fz = Frozen(Q=Q, U=Uin, t=tf)

            def compare(tag, out):
                if not v.true(tag + ".arity", isinstance(out, tuple) and len(out) == (2 if nu == 0 else 3), repr(type(out))):
                    return
                v.eq(tag + ".states", out[0], Q2)
                v.eq(tag + ".ddts", out[1] * sc, D)
                if nu:
                    v.eq(tag + ".inputs", np.atleast_2d(out[2]), U2)

            ok, out = v.call("call.estimate", lambda: est.estimate(Q) if nu == 0 else est.estimate(Q, Uin))
            if ok:
                compare("estimate", out)
            fz.check(v, "mutated.estimate")
            v.eq("mask.states", est.mask(Q), Q2)
            v.eq("mask.row", est.mask(Q[0]), Q2[0])
            v.eq("mask.stack", est.mask(np.array([Q, 2 * Q])), np.array([Q2, 2 * Q2]))
            if Uin is not None:
                v.eq("mask.inputs", np.atleast_2d(est.mask(Uin)), U2)
            v.eq("mask.times", est.mask(t) / sc, t / sc if kind != "interp" and c["mode"] in ("ord", "non")
                 else (rat(b["t2"]) if kind == "interp" and c["mode"] != "same" else est.mask(t) / sc))
            if kind == "uniform":
                fn = getattr(ddt, c["scheme"])
                ok, out = v.call("call.function", lambda: fn(Q, dt) if nu == 0 else fn(Q, dt, Uin))
                if ok:
                    compare("function", out)
                if c["mode"] == "ord":
                    v.eq("ddt.uniform", ddt.ddt_uniform(Q, dt, order=c["p"]) * sc, D)
                    v.eq("ddt.positional", ddt.ddt(Q, dt, c["p"]) * sc, D)
                    v.eq("ddt.keyword", ddt.ddt(Q, dt=dt, order=c["p"]) * sc, D)
                    v.eq("ddt.mixed", ddt.ddt(Q, dt, order=c["p"]) * sc, D)
                    if c["p"] == 2:
                        v.eq("ddt.default", ddt.ddt(Q, dt) * sc, D)
                        v.eq("ddt.default", ddt.ddt(Q, dt=dt) * sc, D)
                        v.eq("ddt.uniform_as_nonuniform", ddt.ddt_nonuniform(Q, t) * sc, D)
                    v.raises("refuse.order", NotImplementedError, lambda: ddt.ddt_uniform(Q, dt, order=c["p"] + 1))
                    v.raises("refuse.1d", DIM, lambda: ddt.ddt_uniform(Q[0], dt, order=c["p"]))
                    v.raises("refuse.dt", TypeError, lambda: ddt.ddt_uniform(Q, t, order=c["p"]))
                    v.raises("refuse.short", Exception, lambda: ddt.ddt_uniform(Q[:, :c["p"]], dt, order=c["p"]))
                else:
                    v.raises("refuse.short", Exception, lambda: fn(Q[:, :c["p"] - 1], dt)) if c["p"] > 1 else None
            elif kind == "nonuniform":
                v.eq("ddt.nonuniform", ddt.ddt_nonuniform(Q, t) * sc, D)
                v.eq("ddt.t", ddt.ddt(Q, t) * sc, D)
                v.eq("ddt.t", ddt.ddt(Q, t=t) * sc, D)
                v.raises("refuse.times", DIM, lambda: ddt.ddt_nonuniform(Q, t[:-1]))
                v.raises("refuse.times", DIM, lambda: ddt.ddt_nonuniform(Q[:, 1:], t))
                v.raises("refuse.1d", DIM, lambda: ddt.ddt_nonuniform(Q[0], t))
                v.raises("refuse.2dtime", DIM, lambda: ddt.ddt_nonuniform(Q, np.array([t, t])))
            v.raises("refuse.ddt", TypeError, lambda: ddt.ddt(Q))
            v.raises("refuse.ddt", TypeError, lambda: ddt.ddt(Q, order=2))
            v.raises("refuse.ddt", TypeError, lambda: ddt.ddt(Q, other=2))
            # misaligned data
            if kind != "uniform":
                v.raises("refuse.misaligned", DIM, lambda: est.estimate(Q[:, 1:]))
            v.raises("refuse.inputs", DIM, lambda: est.estimate(Q, U[:, 1:]))
            v.raises("refuse.inputs", DIM, lambda: est.estimate(Q, np.hstack((U, U[:, :1]))))
            v.raises("refuse.inputs", DIM, lambda: est.estimate(Q, U[0, 1:]))
            v.raises("refuse.1d", DIM, lambda: est.estimate(Q[0]))
            v.eq("time_domain", est.time_domain / sc, (tf / sc + 3.0 if kind == "uniform" else tf / sc))
        v.raises("refuse.domain", (ValueError, TypeError), lambda: type(est)(np.array([t, t])))


def c17(chk):
    q = chk.tier == "quick"
    s = chk.seed
    ks = {3, 4, 5, 6, 7, 8, 9} if q else set(range(2, 13))
    chk.execute([
        Run("FdMC", dict(Kinds={"uniform", "nonuniform", "interp"}, Ks=ks, Seeds={s, s + 1} if q else set(range(s, s + 6)),
                         MaxLen=2, Exact=True), ["ExactOnPolys"], replay_fd, name="schemes"),
    ])
    return ["nodes, step sizes and data are small rationals; comparison tolerance 1e-7",
            "interpolating estimators are decided on polynomial data they reproduce exactly"]


CHECKS = dict(C17=c17)
