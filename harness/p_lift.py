"""Lifting maps (spec/LiftMC.tla): C18."""
import warnings
import numpy as np
import opinf
from vp import Run
from num import rat, V, Frozen


def order_value(p, j):
    if p[1] == 1:
        return p[0] if j % 2 else float(p[0])
    return p[0] / p[1]


def exercise(lifter, d, v, tag, invertible, rec):
    Q, D, L, LD = (rat(d[x]) for x in ("Q", "D", "L", "LD"))
    fz = Frozen(Q=Q, D=D, L=L)
    got = lifter.lift(Q)
    v.eq(tag + ".lift", got, L)
    v.eq(tag + ".lift_ddts", lifter.lift_ddts(Q, D), LD)
    if invertible:
        v.eq(tag + ".unlift", lifter.unlift(L), Q)
        v.eq(tag + ".roundtrip", lifter.unlift(lifter.lift(Q)), Q)
    else:
        v.raises(tag + ".not_invertible", ZeroDivisionError, lambda: lifter.unlift(L))
    whole = lambda A: np.all(A == np.round(A))
    if whole(Q) and whole(D):       # integer data
        v.eq(tag + ".lift.integers", lifter.lift(Q.astype(int)), L)
        v.eq(tag + ".lift_ddts.integers", lifter.lift_ddts(Q.astype(int), D.astype(int)), LD)
        if invertible and whole(L):
            v.eq(tag + ".unlift.integers", lifter.unlift(L.astype(int)), Q)
    for j in range(Q.shape[1]):
        v.eq(tag + ".lift.vector", lifter.lift(Q[:, j]), L[:, j])
        v.eq(tag + ".lift_ddts.vector", lifter.lift_ddts(Q[:, j], D[:, j]), LD[:, j])
        if invertible:
            v.eq(tag + ".unlift.vector", lifter.unlift(L[:, j]), Q[:, j])
    fz.check(v, "mutated." + tag)


def replay_lift(b, rec, ctx):
    os_ = b["orders"]
    v = V(rec, "orders")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        orders = tuple(order_value(p, b["s"] + i) for i, p in enumerate(os_))
        lif = opinf.lift.PolynomialLifter(orders if b["s"] % 3 else list(orders))
        v.true("num_variables", lif.num_variables == len(orders))
        v.true("orders", tuple(lif.orders) == orders)
        exercise(lif, b["d"], v, "poly", b["inv"], rec)
        if len(orders) == 1:
            exercise(opinf.lift.PolynomialLifter(orders[0]), b["d"], v, "poly.scalar", b["inv"], rec)
        # changing the orders of an existing lifter
        other = opinf.lift.PolynomialLifter((3, 1))
        other.lift(np.ones((2, 3)))
        other.orders = orders
        exercise(other, b["d"], v, "poly.reset", b["inv"], rec)
        if [p for p in os_] == [[1, 1], [2, 1]]:
            exercise(opinf.lift.QuadraticLifter(), b["d"], v, "quad", True, rec)
            exercise(opinf.lift.QuadraticLifter, b["d"], v, "quad.static", True, rec)
        v.raises("refuse.orders", TypeError, lambda: opinf.lift.PolynomialLifter((1, "2")))


def c18(chk):
    q, s = chk.tier == "quick", chk.seed
    chk.execute([Run("LiftMC", dict(Ns={1, 3} if q else {1, 2, 3, 5}, Ks={1, 4} if q else {1, 2, 4, 7},
                                    Seeds={s, s + 1} if q else set(range(s, s + 8)), MaxVars=3),
                     ["ChainRule"], replay_lift)])
    return ["orders are integers and half-integers; states are admissible for the chosen powers"]


CHECKS = dict(C18=c18)
