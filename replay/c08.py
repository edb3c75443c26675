"""Bounded search for C08: the pre-bins handed to the optimizer against the candidates and the raw records."""
import bisect
import numpy as np
from replay.util import *
from replay import c02

RULE = ("random fits (as for C02, iv and js divergences, fixed user splits): splits and counts returned by the refinement recomputed from the "
        "records it was given and from the candidate splits; fixed splits searched in the result; distinct = distinct inputs")


def cases(rng, tier):
    for c in c02.cases(rng, tier):
        if c["t"] != "fit": continue
        if c["div"] not in ("iv", "js"): c["div"] = "iv"
        c["lost"] = False
        c["us"] = rng.choice([None, "rand", "rand", "far"]) if not c["cat"] else rng.choice([None, "some", "far", "unsorted"])
        c["k"] = rng.randint(1, 9); c["fix"] = rng.random() < .6; c["useed"] = rng.randint(0, 10 ** 6)
        c["fw"] = c["target"] == "bin" and rng.random() < .3
        c["direct"] = rng.random() < .35
        yield c


def build(c):
    from optbinning import OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning
    x, y, sw, sv = c02.data(c)
    if c.get("fw"): sw = np.random.RandomState(c["useed"]).choice([.0390625, .296875, .5, 1.578125], len(x))       # sums are exact
    sc = c02.spec_of(c, sv)
    T = c["target"]
    kw = dict(special_codes=sc, prebinning_method=c["pm"], monotonic_trend=c["mono"] if T != "multi" or c["mono"] in ("auto", "auto_heuristic", None) else "auto")
    if T != "multi": kw["dtype"] = "categorical" if c["cat"] else "numerical"
    if T == "bin": kw["divergence"] = c["div"]
    if c["cat"] and c["us"] is None: kw["cat_cutoff"] = c["cut"]
    if c["dig"] is not None: kw["split_digits"] = c["dig"]
    us = fixed = None
    rs = np.random.RandomState(c["useed"])
    if c["us"]:
        if c["cat"]:
            u = [["k0", "k1"], ["k2"], ["k3", "k4"], ["k5", "k6", "rare"]]
            if c["us"] == "far": u = u[:2] + [["k3", "k4", "k5"]]
            if c["us"] == "unsorted": u = u[::-1]
            us = np.array(u, dtype=object)
        else:
            us = sorted(set(np.round(rs.normal(size=c["k"]) * (1.5 if c["us"] == "rand" else 4), 1)))
            rs.shuffle(us); us = [float(v) for v in us]
        kw["user_splits"] = us
        if c["fix"]:
            fixed = [bool(b) for b in rs.rand(len(us)) < .5]
            kw["user_splits_fixed"] = list(fixed)
    cls = {"bin": OptimalBinning, "cont": ContinuousOptimalBinning, "multi": MulticlassOptimalBinning}[T]
    clean = np.array([not c02.isnull(v) and not any(v == s for g in c02.groups_of(sc) for s in g) for v in x])
    if clean.sum() < 10 or T != "cont" and len(set(y[clean])) < 2: return None
    return cls, kw, x, y, sw, us, fixed, T


def check(c):
    R = Rep()
    bl = build(c)
    if bl is None: return None
    cls, kw, x, y, sw, us, fixed, T = bl
    rec = []

    class Sub(cls):
        def _prebinning_refinement(self, splits, x, y, *a, **k):
            cand = np.array(splits).copy()
            if self.split_digits is not None: cand = np.round(cand, self.split_digits)
            r = cls._prebinning_refinement(self, splits, x, y, *a, **k)
            names = [n for n in cls._prebinning_refinement.__code__.co_varnames[:cls._prebinning_refinement.__code__.co_argcount]][4:]
            w = dict(zip(names, a)); w.update(k)
            rec.append((cand, np.array(x), np.array(y), w.get("sw_clean"), r))
            return r
    Sub.__name__ = cls.__name__
    o = (Sub if hasattr(cls, "_prebinning_refinement") else cls)(**kw)
    err = None
    try: o.fit(*((x.copy(), y.copy()) + (() if T == "multi" else (sw,))))
    except ValueError as e:
        err = str(e)
        if not ("Fixed user_splits" in err or "moved to others" in err or "must be" in err):
            return [("fit %s:ValueError" % T, err[:300])]
    except Exception as e:
        return [("fit %s:%s" % (T, type(e).__name__), repr(e)[:300])]
    nm = {"bin": "binary", "cont": "continuous", "multi": "multiclass"}[T]
    for cand, xc, yc, w, r in rec:
        sp = list(np.asarray(r[0]))
        cand = list(cand)
        j = -1
        ok = True
        for s in sp:
            k = [q for q in range(j + 1, len(cand)) if cand[q] == s]
            if not k: ok = False; break
            j = k[0]
        R.true("%s: surviving splits are candidates in their order" % nm, ok, "%s of %s" % (short(sp), short(cand)))
        catu = c["cat"] and us is not None
        if not len(sp):
            if len(cand): pass
            continue
        w = np.ones(len(xc)) if w is None or not len(w) else np.asarray(w)
        whole = (lambda v: int(v)) if c.get("fw") else (lambda v: v)
        idx = np.array([bisect.bisect_left(sp, v) if catu else bisect.bisect_right(sp, v) for v in xc])
        nb = len(sp) + (0 if catu else 1)
        R.true("%s: every record is in a pre-bin" % nm, (idx < nb).all(), "%s" % short(idx))
        if R.out: return R.res()
        for b in range(nb):
            m = idx == b
            if T == "bin":
                nn, ne = whole(w[m & (yc == 0)].sum()), whole(w[m & (yc == 1)].sum())
                R.eq("binary: pre-bin counts", [r[1][b], r[2][b]], [nn, ne])
                R.true("binary: a pre-bin without events or non-events remains", nn > 0 and ne > 0, "pre-bin %d of %d: %s, %s" % (b, nb, nn, ne))
            elif T == "cont":
                v = w[m] * yc[m]
                R.eq("continuous: pre-bin records and sums", [r[1][b], r[2][b], r[3][b]], [w[m].sum(), v.sum(), (v ** 2).sum()], rel=1e-8, abs_=1e-7)
                if len(v): R.eq("continuous: pre-bin minimum, maximum and zeros", [r[5][b], r[6][b], r[7][b]], [v.min(), v.max(), (v == 0).sum()])
                R.true("continuous: an empty pre-bin remains", w[m].sum() > 0, "pre-bin %d of %d" % (b, nb))
            else:
                cl = np.unique(yc)
                R.eq("multiclass: pre-bin counts", r[2][b], [(m & (yc == q)).sum() for q in cl])
                R.eq("multiclass: pre-bin counts of the other classes", r[1][b], [(m & (yc != q)).sum() for q in cl])
                R.true("multiclass: a pre-bin without events or non-events of a class remains", all(0 < (m & (yc == q)).sum() < m.sum() for q in cl), "pre-bin %d of %d" % (b, nb))
        # only impure pre-bins are refined away: nothing is removed when every candidate pre-bin is pure
        i0 = np.array([bisect.bisect_left(cand, v) if catu else bisect.bisect_right(cand, v) for v in xc])
        n0 = len(cand) + (0 if catu else 1)
        imp = []
        for b in range(n0):
            m = i0 == b
            if T == "bin": imp.append(not (whole(w[m & (yc == 0)].sum()) and whole(w[m & (yc == 1)].sum())))
            elif T == "cont": imp.append(not w[m].sum())
            else: imp.append(not all(0 < (m & (yc == q)).sum() < m.sum() for q in np.unique(yc)))
        if not any(imp): R.true("%s: no split is removed when no pre-bin is impure" % nm, len(sp) == len(cand), "%d of %d" % (len(sp), len(cand)))
    # fixed splits, numerical
    if fixed and not c["cat"] and err is None and o.status in ("OPTIMAL", "FEASIBLE"):
        for s, f in zip(us, fixed):
            s2 = np.round(s, c["dig"]) if c["dig"] is not None else s
            if f: R.true("%s: a fixed user split is dropped silently" % nm, any(close(s2, q) for q in o.splits), "%s not in %s" % (s2, short(list(o.splits))))
    return R.res()
