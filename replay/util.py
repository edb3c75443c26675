"""Shared helpers of the bounded searches."""
import math
import numpy as np


def close(a, b, rel=1e-9, abs_=1e-9):
    """numeric equality, element-wise, NaN equal to NaN; False for shape mismatch"""
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except Exception:
        return False
    if a.shape != b.shape: return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any(): return False
    a, b = a[~na], b[~nb]
    inf = np.isinf(a) | np.isinf(b)
    if (a[inf] != b[inf]).any(): return False
    a, b = a[~inf], b[~inf]
    return bool((np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))).all())


class Rep:
    """collects (key, message)"""
    def __init__(self): self.out = []
    def eq(self, key, got, want, ctx="", **kw):
        if not close(got, want, **kw): self.out.append((key, "got %s want %s %s" % (short(got), short(want), ctx)))
    def true(self, key, ok, msg=""):
        if not ok: self.out.append((key, msg))
    def res(self): return self.out or None


def short(x):
    s = repr(x.tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) < 400 else s[:400] + "..."


def xlogy(x, y):
    return 0.0 if x == 0 else x * math.log(y)


def entropy(x): return -sum(xlogy(v, v) for v in x)


def iv_terms(e, ne):
    """(event rate, woe, iv, js) of one bin given totals"""
    pass


def guarded(f, key):
    """run f; an exception of the code under test is a failure"""
    try:
        return f(), None
    except Exception as ex:
        return None, [(key + ":" + type(ex).__name__, repr(ex)[:300])]
