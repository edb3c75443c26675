"""Bounded search for C02: split_data's parts and the fitted tables' totals against totals recomputed from the raw records."""
import bisect
import numpy as np
from replay.util import *

RULE = ("random records with missing values, special codes (None, list, array, dict), weights, class weights, outlier detectors, user bounds, "
        "category cut-offs, user splits, split digits, solvers; the parts of split_data and every row of the fitted table (binary, continuous, "
        "multiclass) recomputed record by record; distinct = distinct inputs")


def cases(rng, tier):
    while True:
        if rng.random() < .3:
            yield {"t": "split", "seed": rng.randint(0, 10 ** 6), "n": rng.choice([1, 3, 8, 40]), "cat": rng.random() < .4,
                   "sk": rng.choice(["none", "list", "dict", "array", "miss"]), "lb": rng.choice([None, None, -1.0, 0.0]),
                   "ub": rng.choice([None, None, 0.0, 1.0]), "out": rng.choice([None, None, "range", "zscore", "yquantile"]),
                   "sw": rng.choice([None, "int", "float"]), "cw": rng.choice([None, None, "dict", "balanced"]),
                   "cut": rng.choice([None, .05, .2]), "ints": rng.random() < .3, "tgt": rng.choice(["bin", "cont", "multi"]),
                   "chk": rng.random() < .5, "us": rng.random() < .2}
            continue
        t = rng.choice(["bin", "bin", "cont", "cont", "multi"])
        cat = t != "multi" and rng.random() < .45
        yield {"t": "fit", "target": t, "cat": cat, "n": rng.choice([40, 60, 150, 400]), "seed": rng.randint(0, 10 ** 6),
               "sk": rng.choice(["none", "none", "list", "dict", "dict2", "array"]), "miss": rng.choice([0, .05, .3]),
               "us": rng.choice([None, None, "some", "far", "unsorted"]), "cut": rng.choice([None, .05, .12]) if cat else None,
               "sw": rng.choice([None, None, "int"]) if t != "multi" else None, "cw": rng.choice([None, None, "dict"]) if t == "bin" else None,
               "out": rng.choice([None, None, None, "range", "zscore", "yquantile" if t == "cont" else "range"]) if not cat else None,
               "mip": rng.random() < .15, "dig": rng.choice([None, None, 0, 1]) if not cat else None,
               "pm": rng.choice(["cart", "cart", "quantile", "uniform"]), "mono": rng.choice(["auto", None, "ascending", "peak", "auto_heuristic"]),
               "strong": rng.random() < .4, "ints": rng.random() < .2, "maxb": rng.choice([None, None, 2, 4]),
               "div": rng.choice(["iv", "iv", "js", "hellinger", "triangular"]), "lost": rng.random() < .04}


def spec_of(c, sv):
    return {"none": None, "list": list(sv), "array": np.array(sv), "dict": {"p": sv[0], "q": [sv[1]]}, "miss": [sv[0], 12345.0 if not isinstance(sv[0], str) else "q"],
            "dict2": {"q": [sv[1], sv[0]], "none": 555.0 if not isinstance(sv[0], str) else "nope"}}[c["sk"]]


def groups_of(sc):
    if sc is None: return []
    if isinstance(sc, dict): return [list(s) if isinstance(s, (list, np.ndarray)) else [s] for s in sc.values()]
    return [list(sc)]


def isnull(v): return v is None or (isinstance(v, float) and v != v)


def check(c): return check_split(c) if c["t"] == "split" else check_fit(c)


def support(name, x, y):
    from optbinning.binning import outlier
    d = {"range": outlier.RangeDetector, "zscore": outlier.ModifiedZScoreDetector, "yquantile": outlier.YQuantileDetector}[name]()
    return np.asarray(d.fit(x, y).get_support() if name == "yquantile" else d.fit(x).get_support())


def check_split(c):
    from optbinning.binning.preprocessing import split_data
    R = Rep()
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    if c["cat"]:
        x = np.array(["k%d" % i for i in rs.randint(0, 5, n)], dtype=object)
        sv = ["sA", "sB"]
        x[rs.rand(n) < .15] = "sA"; x[rs.rand(n) < .15] = "sB"; x[rs.rand(n) < .15] = None if c["ints"] else np.nan
    elif c["ints"]:
        x = rs.randint(-3, 4, n); sv = [-99, -98]
        x[rs.rand(n) < .15] = -99; x[rs.rand(n) < .15] = -98
    else:
        x = np.round(rs.normal(size=n) * (5 if rs.rand() < .2 else 1), 1); sv = [-99.0, -98.0]
        x[rs.rand(n) < .15] = -99; x[rs.rand(n) < .15] = -98; x[rs.rand(n) < .15] = np.nan
    y = {"bin": lambda: rs.randint(0, 2, n), "cont": lambda: np.round(rs.normal(size=n), 2), "multi": lambda: rs.randint(0, 3, n)}[c["tgt"]]()
    y_id = y.copy()
    sw = None if c["sw"] is None else (rs.randint(1, 5, n).astype(float) if c["sw"] == "int" else rs.rand(n) + .1)
    cw = None if c["cw"] is None or c["tgt"] != "bin" or len(set(y)) < 2 else ("balanced" if c["cw"] == "balanced" else {0: 1.0, 1: 3.0})
    sc = spec_of(c, sv)
    if c["ints"] and not c["cat"] and c["sk"] == "miss": sc = [-99, 12345]
    w = np.ones(n) if sw is None else sw.copy()
    if cw == "balanced": w = w * np.array([n / (2 * np.sum(y == v)) for v in y])
    elif cw: w = w * np.array([cw[v] for v in y])
    miss = np.array([isnull(v) for v in x])
    sp = [any(v == s for g in groups_of(sc) for s in g) for v in x]
    spm = np.array(sp, dtype=bool) & ~miss
    clean = ~miss & ~spm
    us = ([["k0"]] if c["cat"] else [0.0]) if c["us"] else None
    kw = dict(special_codes=sc, cat_cutoff=c["cut"] if c["cat"] else None, user_splits=us, check_input=c["chk"],
              class_weight=cw, sample_weight=None if sw is None else sw)
    if not c["cat"]: kw.update(outlier_detector=c["out"], fix_lb=c["lb"], fix_ub=c["ub"])
    idx = np.where(clean)[0]
    if not c["cat"] and c["out"]:
        if len(idx) < 8: return None
        try: om = support(c["out"], x[idx], y[idx])
        except Exception: return None
        idx = idx[~om]
    if not c["cat"]:
        if c["lb"] is not None: idx = idx[x[idx] >= c["lb"]]
        if c["ub"] is not None: idx = idx[x[idx] <= c["ub"]]
    oth = np.array([], dtype=int)
    if c["cat"] and us is None:
        if not len(idx): return None
        if c["cut"] is not None:
            cnt = {}
            for v in x[idx]: cnt[v] = cnt.get(v, 0) + 1
            lim = np.ceil(c["cut"] * len(idx))
            o = np.array([cnt[v] < lim for v in x[idx]])
            oth, idx = idx[o], idx[~o]
            if not len(idx): return None
    dt = "categorical" if c["cat"] else "numerical"
    x0, sw0 = x.copy(), None if sw is None else sw.copy()
    r, ex = guarded(lambda: split_data(dt, x, y, **kw), "split_data %s special=%s" % (dt, c["sk"]))
    if ex: return ex
    (xc, yc, xm, ym, xs, ys, yo, cats, others, wc, wm, ws, wo) = r
    R.true("split_data leaves the caller's data unchanged", (pdeq(x, x0)) and (sw is None or (sw == sw0).all()) and (y == y_id).all(), "")
    L = lambda a: [None if isnull(v) else v for v in list(a)]
    if c["cat"] and us is None:
        d = list(cats)
        back = [d[int(v)] for v in xc]
        R.true("clean records keep their category", back == L(x[idx]), "%s %s" % (back[:5], L(x[idx])[:5]))
        R.true("categories are the distinct clean categories", sorted(d) == sorted(set(x[idx])), short(d))
        R.true("others are the rare categories", sorted(others) == sorted(set(x[oth])), short(list(others)))
    else: R.true("clean records", L(xc) == L(x[idx]), "%s want %s" % (short(L(xc)), short(L(x[idx]))))
    R.true("clean targets", L(yc) == L(y[idx]), short(L(yc)))
    R.true("missing records", len(xm) == int(miss.sum()) and L(ym) == L(y[miss]), short(L(ym)))
    R.true("special records", L(xs) == L(x[spm]) and L(ys) == L(y[spm]), short(L(xs)))
    R.true("others targets", L(yo) == L(y[oth]), short(L(yo)))
    R.eq("clean weights", wc, w[idx]); R.eq("missing weights", wm, w[miss])
    R.eq("special weights", np.asarray(ws, dtype=float), w[spm]); R.eq("others weights", np.asarray(wo, dtype=float), w[oth])
    return R.res()


def pdeq(a, b): return all(u is v or u == v or isnull(u) and isnull(v) for u, v in zip(a, b))


def data(c):
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    if c["cat"]:
        g = rs.randint(0, 7, n)
        x = np.array(["k%d" % i for i in g], dtype=object)
        x[rs.rand(n) < .08] = "rare"; x[rs.rand(n) < .05] = "rare2"
        x[rs.rand(n) < c["miss"]] = None if c["seed"] % 2 else np.nan
        sv = ["sA", "sB"]
        x[rs.rand(n) < .06] = "sA"; x[rs.rand(n) < .05] = "sB"
        gg = (g - 3) / 2
    elif c["ints"]:
        gg = rs.randint(-4, 5, n); x = gg.copy(); sv = [-99, -98]
        x[rs.rand(n) < .06] = -99; x[rs.rand(n) < .05] = -98
    else:
        gg = rs.normal(size=n)
        x = np.round(gg, 1)
        if rs.rand() < .3: x[:3] = [25.0, -40.0, 30.0]
        x[rs.rand(n) < c["miss"]] = np.nan
        sv = [-99.0, -98.0]
        x[rs.rand(n) < .06] = -99; x[rs.rand(n) < .05] = -98
    s = 4 if c["strong"] else 1
    if c["target"] == "bin": y = (rs.rand(n) < 1 / (1 + np.exp(-s * gg))).astype(int)
    elif c["target"] == "cont":
        y = np.round(s * gg + rs.normal(size=n), 1)
        if c["seed"] % 3 == 0: y[rs.rand(n) < .2] = 0
    else: y = np.clip(np.round(s * gg + rs.normal(size=n)), -1, 1).astype(int)
    sw = rs.randint(1, 4, n).astype(float) if c["sw"] else None
    return x, y, sw, sv


def check_fit(c):
    from optbinning import OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning
    R = Rep()
    x, y, sw, sv = data(c)
    n = c["n"]
    sc = spec_of(c, sv)
    T = c["target"]
    kw = dict(special_codes=sc, prebinning_method=c["pm"], monotonic_trend=c["mono"], max_n_bins=c["maxb"])
    if T != "multi":
        kw["dtype"] = "categorical" if c["cat"] else "numerical"
        if not c["cat"] or c["us"] is None: kw["cat_cutoff"] = c["cut"]
    if T == "bin":
        kw["divergence"] = c["div"]
        if c["mip"] and c["div"] == "iv": kw["solver"] = "mip"
        if c["cw"]: kw["class_weight"] = {0: 1, 1: 2}
    if T == "multi" and c["mono"] not in ("auto", "auto_heuristic", None): kw["monotonic_trend"] = "auto"
    if c["dig"] is not None: kw["split_digits"] = c["dig"]
    if c["out"]: kw["outlier_detector"] = c["out"]
    if c["us"]:
        if c["cat"]:
            u = [["k0", "k1"], ["k2"], ["k3", "k4"], ["k5", "k6", "rare"]]
            if c["us"] == "far": u = u[:2] + [["k3", "k4", "k5"]]
            if c["us"] == "unsorted": u = u[::-1]
            kw["user_splits"] = np.array(u, dtype=object)
        else: kw["user_splits"] = {"some": [-.5, .3, 1.0], "far": [-60.0, -.5, .5, 60.0], "unsorted": [1.0, -.5, .3]}[c["us"]]
    cls = {"bin": OptimalBinning, "cont": ContinuousOptimalBinning, "multi": MulticlassOptimalBinning}[T]
    if T == "multi":
        # every class among the clean records (a class met only among missing or special records: known finding)
        cl = [i for i in range(n) if not isnull(x[i]) and not any(x[i] in g for g in groups_of(sc))]
        bad = set(y) - set(y[cl])
        if c["lost"] and not bad and n - len(cl) > 1:
            i = [i for i in range(n) if i not in set(cl)][0]
            y[i] = 7; bad = {7}
        if bad and not c["lost"]: return None
        if len(set(y[cl])) < 2: return None
    miss = np.array([isnull(v) for v in x])
    grp = groups_of(sc)
    row = np.full(n, -9)
    w = np.ones(n) if sw is None else sw.copy()
    if c["cw"]: w = w * np.where(y == 1, 2, 1)
    clean = np.array([not miss[i] and not any(x[i] == s for g in grp for s in g) for i in range(n)])
    if clean.sum() < 10: return None
    idx = np.where(clean)[0]
    keep = np.ones(n, dtype=bool)
    if c["out"]:
        try: om = support(c["out"], x[idx].astype(float) if not c["ints"] else x[idx], y[idx])
        except Exception: return None
        keep[idx[om]] = False
        idx = idx[~om]
        if len(idx) < 5: return None
    if T == "bin" and len(set(y[idx])) < 2: return None
    if T == "multi" and c["out"] and len(set(y[keep])) != len(set(y[idx])): return None
    o = cls(**kw)
    try: o.fit(*((x.copy(), y.copy()) + (() if T == "multi" else (sw,))))
    except ValueError as e:
        # hellinger / triangular keep empty pre-bins, whose rate is undefined: fitting fails (no table; noted in DESIGN.md)
        if c["div"] in ("hellinger", "triangular") and T == "bin" and ("out of range" in str(e) or "NaN" in str(e)): return None
        if any(t in str(e) for t in ("moved to others", "Min number of bins", "must be", "non-negative")): return None
        return [("fit %s:%s" % (T, type(e).__name__), str(e)[:300])]
    except Exception as e:
        if c["div"] in ("hellinger", "triangular") and T == "bin" and isinstance(e, OverflowError): return None
        return [("fit %s:%s" % (T, type(e).__name__), repr(e)[:300])]
    if o.status not in ("OPTIMAL", "FEASIBLE"): return None
    t = o.binning_table
    _, ex = guarded(t.build, "%s table build%s" % (T, " user categories" if c["cat"] and c["us"] else ""))
    if ex: return ex
    ns = len(grp) if isinstance(sc, dict) else 1
    bt = t
    if T == "bin": tab = [np.asarray(bt.n_nonevent), np.asarray(bt.n_event)]
    elif T == "cont": tab = [np.asarray(bt.n_records), np.asarray(bt.sums), np.asarray(bt.n_zeros), np.asarray(bt.min_target), np.asarray(bt.max_target)]
    else: tab = [np.asarray(bt.n_event)]
    rows = len(tab[0])
    if c["cat"]:
        gr = [list(b) for b in o.splits]
        nb = len(gr)
        seen = set(x[idx])
        if kw.get("user_splits") is not None:
            flat = set(v for g in kw["user_splits"] for v in g)
        for i in idx:
            k = [j for j, g in enumerate(gr) if x[i] in g]
            if len(k) != 1:
                R.true("category in exactly one row", False, "%r in rows %s of %s" % (x[i], k, short(gr))); return R.res()
            row[i] = k[0]
        if c["cut"] is not None and c["us"] is None:
            cnt = {v: sum(1 for i in idx if x[i] == v) for v in seen}
            rare = {v for v in seen if cnt[v] < np.ceil(c["cut"] * len(idx))}
            R.true("the others row holds the rare categories", (set(gr[-1]) == rare) if rare else set(v for g in gr for v in g) == seen, short(gr))
        elif c["us"] is not None and seen - flat:
            R.true("the others row holds the categories without a user group", set(gr[-1]) == seen - flat, short(gr))
    else:
        sp = list(o.splits)
        nb = len(sp) + 1
        for i in idx: row[i] = bisect.bisect_right(sp, x[i])
    R.true("number of rows", rows == nb + ns + 1, "%d rows, %d bins, %d special" % (rows, nb, ns))
    if R.out: return R.res()
    for i in range(n):
        if not keep[i]: continue
        if miss[i]: row[i] = nb + ns
        elif not clean[i]:
            row[i] = nb + [j for j, g in enumerate(grp) if any(x[i] == s for s in g)][0]
    kind = lambda r: "missing" if r == nb + ns else "special" if r >= nb else "others" if c["cat"] and r == nb - 1 and len(t.cat_others) else "bin"
    for r in range(rows):
        m = row == r
        k = kind(r)
        if T == "bin": want = [w[m & (y == 0)].sum(), w[m & (y == 1)].sum()]; names = ["non-events", "events"]
        elif T == "cont":
            v = w[m] * y[m]
            want = [w[m].sum(), v.sum(), (v == 0).sum()]; names = ["records", "sum", "zeros"]
            if len(v): want += [v.min(), v.max()]; names += ["minimum", "maximum"]
        else:
            classes = list(bt.classes) if hasattr(bt, "classes") else sorted(set(y[idx]))
            lost = set(y) - set(classes)
            want = [[(m & (y == cl)).sum() for cl in classes]]; names = ["class counts"]
            if lost and k in ("missing", "special") and (m & np.isin(y, list(lost))).any():
                R.true("records of a class met only among missing or special records are counted", False, "class %s" % sorted(lost))
        for q, (a, nm) in enumerate(zip(want, names)):
            got = tab[q][r]
            R.eq("%s %s of a %s row" % ({"bin": "binary", "cont": "continuous", "multi": "multiclass"}[T], nm, k), got, a, "row %d of %d" % (r, rows), rel=1e-8, abs_=1e-7)
    return R.res()
