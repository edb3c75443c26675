"""Bounded search for C20: to_json followed by read_json in a fresh object, tables compared."""
import os, tempfile
import numpy as np
from replay.util import *
from replay import c02, c08

RULE = ("random fits (as for C08: the three targets, numerical, integer and categorical variables, special codes as list, array and dict, user splits) "
        "written with to_json to a scratch directory and read by a fresh object; the two built tables compared cell by cell; distinct = distinct inputs")


def cases(rng, tier):
    for c in c08.cases(rng, tier):
        if c["t"] == "fit" and c["n"] <= 150: yield c


def same(a, b):
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating, int)) or isinstance(b, (float, np.floating)) and isinstance(a, (int, np.integer)):
        return close(a, b) or a != a and b != b
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        try: return len(a) == len(b) and all(same(u, v) for u, v in zip(a, b))
        except TypeError: return False
    return str(a) == str(b)


def check(c):
    R = Rep()
    bl = c08.build(c)
    if bl is None: return None
    cls, kw, x, y, sw, us, fixed, T = bl
    o = cls(**kw)
    try: o.fit(*((x.copy(), y.copy()) + (() if T == "multi" else (sw,))))
    except ValueError: return None
    if o.status not in ("OPTIMAL", "FEASIBLE"): return None
    nm = {"bin": "binary", "cont": "continuous", "multi": "multiclass"}[T] + (" categorical" if c["cat"] else " numerical")
    try: t0 = o.binning_table.build()
    except Exception as e: return None                   # C02/C03
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "b.json")
        r, ex = guarded(lambda: o.to_json(f), "to_json %s" % nm)
        if ex: return ex
        p = cls()
        r, ex = guarded(lambda: p.read_json(f), "read_json %s" % nm)
        if ex: return ex
        t1, ex = guarded(lambda: p.binning_table.build(), "build after read_json %s" % nm)
        if ex: return ex
    R.true("%s: same columns and rows" % nm, list(map(str, t0.columns)) == list(map(str, t1.columns)) and list(map(str, t0.index)) == list(map(str, t1.index)),
           "%s %s / %s" % (list(t1.columns), len(t0), len(t1)))
    if R.out: return R.res()
    for col in t0.columns:
        for i in range(len(t0)):
            a, b = t0[col].iloc[i], t1[col].iloc[i]
            R.true("%s: same %s" % (nm, col), same(a, b), "row %d: saved %s, read %s" % (i, short(a), short(b)))
    R.true("%s: same table again" % nm, o.binning_table.build().astype(str).equals(t0.astype(str)), "saving changed the table")
    return R.res()
