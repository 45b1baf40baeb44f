"""Decoding of specification values and comparison with observed ones."""
import numpy as np

RTOL, ATOL = 1e-7, 1e-8


def ints(x):
    return np.array(x, dtype=float)


def rat(x):
    """rationals [n, d] at the innermost level -> float array (or float)."""
    a = np.array(x, dtype=float)
    if a.size == 0:
        return a
    v = a[..., 0] / a[..., 1]
    return float(v) if v.ndim == 0 else v


def close(obs, exp, rtol=RTOL, atol=ATOL):
    try:
        o = np.asarray(obs, dtype=float)
    except Exception:
        return False
    e = np.asarray(exp, dtype=float)
    if o.shape != e.shape:
        return False
    if e.size == 0:
        return True
    if not np.all(np.isfinite(o)):
        return False
    s = max(1.0, float(np.max(np.abs(e))))
    return bool(np.all(np.abs(o - e) <= atol * s + rtol * np.abs(e)))


def why(obs, exp):
    try:
        o = np.asarray(obs)
        return "observed shape %s value %s\nrequired shape %s value %s" % (
            o.shape, np.array2string(o, precision=8, threshold=40), np.shape(exp),
            np.array2string(np.asarray(exp), precision=8, threshold=40))
    except Exception as ex:
        return "observed %r (%s), required %r" % (obs, ex, exp)


class V:
    """check helper bound to a Rec and a context label"""

    def __init__(self, rec, label=""):
        self.rec, self.label = rec, label

    def eq(self, clause, obs, exp, **kw):
        e = np.asarray(exp)
        if e.dtype.kind == "f" and not np.all(np.isfinite(e)):
            # the specification's rational arithmetic left its range (see DESIGN.md): nothing to compare
            self.rec.count("not_decided." + clause)
            return True
        self.rec.count(clause)
        if not close(obs, exp, **kw):
            self.rec.fail(clause + "|" + self.label, why(obs, exp))
            return False
        return True

    def true(self, clause, cond, detail=""):
        self.rec.count(clause)
        if not cond:
            self.rec.fail(clause + "|" + self.label, detail)
            return False
        return True

    def raises(self, clause, exc, fn, detail=""):
        """fn() must raise one of exc (and nothing else)."""
        self.rec.count(clause)
        try:
            out = fn()
        except exc:
            return True
        except Exception as ex:
            self.rec.fail(clause + "|" + self.label, "raised %s: %s instead of %s; %s" % (type(ex).__name__, ex, exc, detail))
            return False
        self.rec.fail(clause + "|" + self.label, "returned %r instead of raising %s; %s" % (type(out).__name__, exc, detail))
        return False

    def call(self, clause, fn):
        """fn() must not raise; returns (ok, value)."""
        self.rec.count(clause)
        try:
            return True, fn()
        except Exception as ex:
            import traceback
            self.rec.fail(clause + "|" + self.label, "raised %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-700:]))
            return False, None


class Frozen:
    """copies of arrays to verify later that the caller's data is untouched"""

    def __init__(self, **arrays):
        self.a = {k: (v, None if v is None else np.array(v, copy=True)) for k, v in arrays.items()}

    def check(self, v, clause):
        for k, (ref, cp) in self.a.items():
            if cp is None:
                continue
            v.rec.count(clause)
            if not (np.shape(ref) == cp.shape and np.array_equal(np.asarray(ref), cp, equal_nan=True)
                    if cp.dtype.kind in "fc" else np.array_equal(ref, cp)):
                v.rec.fail(clause + "|" + v.label, "argument %s was modified:\n%s" % (k, why(ref, cp)))
