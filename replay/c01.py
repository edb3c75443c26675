"""Bounded search for C01: transforms of fitted and of hand-made binnings against bin membership computed here."""
import bisect
import math
import numpy as np
from replay.util import *

RULE = ("random split points / category groups, counts, special codes (None, list, array, dict of scalars and lists), missing values, "
        "overrides and unknown-category values, for the three targets and every metric; records transformed together and one by one; "
        "fitted objects transformed against their own table; distinct = distinct inputs")
GRID = [-5.5, -2.0, -1.25, 0.0, 0.5, 1.0, 2.75, 3.0, 7.0, 11.125]
OUT = [-99.0, -98.5, 1000.0]


def cases(rng, tier):
    cnt = lambda: rng.choice([0, 1, 2, 5, 17, 100, 333, rng.randint(1, 500)])
    while True:
        if rng.random() < .12:
            yield fitted(rng)
            continue
        t = rng.choice(["bin", "bin", "cont", "multi"])
        cat = t != "multi" and rng.random() < .45
        nb = rng.randint(1, 6)
        sk = rng.choice(["none", "none", "list", "array", "dict"])
        spec = {"none": None, "list": rng.sample(OUT, rng.randint(1, 2)), "array": rng.sample(OUT, rng.randint(1, 2)),
                "dict": {"a": OUT[0], "b": [OUT[1], OUT[2]]} if rng.random() < .5 else {"b": [OUT[1]], "a": OUT[2]}}[sk]
        if cat:
            names = ["c%d" % i for i in range(nb + 2)] if rng.random() < .7 else [float(10 + i) for i in range(nb + 2)]
            if isinstance(names[0], str) and spec is not None:
                spec = {"none": None, "list": ["s1", "s2"], "array": ["s1"], "dict": {"a": "s1", "b": ["s2", "s3"]}}[sk]
        ns = len(spec) if sk == "dict" else 1
        oth = cat and rng.random() < .5
        rows = nb + oth + ns + 1
        c = {"t": t, "cat": cat, "nb": nb, "sk": sk, "spec": spec, "oth": oth, "miss_obj": cat and rng.random() < .4}
        if t == "bin": c["e"], c["n"] = [cnt() for _ in range(rows)], [cnt() for _ in range(rows)]
        elif t == "cont":
            c["r"] = [cnt() for _ in range(rows)]; c["s"] = [0.0 if not v else round(rng.uniform(-4, 9) * v, 3) for v in c["r"]]
        else:
            k = rng.randint(2, 4)
            c["m"] = [[cnt() for _ in range(k)] for _ in range(rows)]
        if t == "bin" and not (sum(c["e"]) and sum(c["n"])): continue
        if t == "cont" and not sum(c["r"][:nb + oth]): continue
        if t == "multi" and not all(sum(r[j] for r in c["m"]) and sum(sum(r) - r[j] for r in c["m"]) for j in range(k)): continue
        c["metric"] = rng.choice({"bin": ["woe", "event_rate"], "cont": ["mean"], "multi": ["mean_woe", "weighted_mean_woe"]}[t] * 2 + ["indices", "bins"])
        num = c["metric"] not in ("indices", "bins")
        ov = lambda: rng.choice(["empirical", "empirical", 0, 0, 2, -1.5, 0.25])
        c["ms"], c["mm"] = ov(), ov()
        c["unk"] = rng.choice([None, None, 1.5, -0.25, 0, 3]) if num else rng.choice([None, -7] if c["metric"] == "indices" else [None, "other"])
        if t == "multi": c["unk"] = None
        c["dig"] = rng.randint(0, 8)
        m = rng.randint(1, 9)
        if cat:
            c["names"] = names
            c["cuts"] = sorted(rng.sample(range(1, nb), rng.randint(0, nb - 1))) if nb > 1 else []
            pool = names + (["zz"] if isinstance(names[0], str) else [77.0])
        else:
            c["sp"] = sorted(rng.sample(GRID, nb - 1))
            pool = GRID + [-100.5, 50.0, 2.7499999999999996] + [math.nextafter(v, -9e9) for v in c["sp"]]
        flat = [] if spec is None else ([v for s in spec.values() for v in (s if isinstance(s, list) else [s])] if sk == "dict" else list(spec))
        c["x"] = [None if rng.random() < .15 else rng.choice(flat) if flat and rng.random() < .25 else rng.choice(pool) for _ in range(m)]
        if cat:
            # number of groups follows from the cuts
            g = len(c["cuts"]) + 1
            drop = nb - g
            for k in ("e", "n", "r", "s", "m"):
                if k in c: c[k] = c[k][:g] + c[k][nb:]
            if t == "bin" and not (sum(c["e"]) and sum(c["n"])): continue
            if t == "cont" and not sum(c["r"][:g + oth]): continue
        yield c


def fitted(rng):
    t = rng.choice(["bin", "cont", "multi"])
    cat = t != "multi" and rng.random() < .5
    return {"t": "fit", "target": t, "cat": cat, "n": rng.choice([60, 150, 400]), "seed": rng.randint(0, 10 ** 6),
            "sk": rng.choice(["none", "list", "dict", "array"]), "us": rng.random() < .3, "cut": cat and rng.random() < .4,
            "mm": rng.choice(["empirical", 0, 1.5]), "ms": rng.choice(["empirical", 0, -2.5]), "mip": rng.random() < .2}


def member(v, c, groups, ns):
    """row of the table the record belongs to; None: unknown category"""
    nb = len(groups) if c["cat"] else len(c["sp"]) + 1
    if v is None: return nb + ns
    if c["spec"] is not None:
        if c["sk"] == "dict":
            for i, s in enumerate(c["spec"].values()):
                if v in (s if isinstance(s, list) else [s]): return nb + i
        elif v in c["spec"]: return nb
    if c["cat"]:
        for i, g in enumerate(groups):
            if v in g: return i
        return None
    return bisect.bisect_right(c["sp"], v)


def code(c):
    return np.array(c["spec"], dtype=object if isinstance(c["spec"][0], str) else float) if c["sk"] == "array" else \
        {k: (np.array(s) if i % 2 and isinstance(s, list) else s) for i, (k, s) in enumerate(c["spec"].items())} if c["sk"] == "dict" else c["spec"]


def check(c):
    if c["t"] == "fit": return check_fit(c)
    from optbinning.binning import transformations as tr
    R = Rep()
    A = np.array
    ns = len(c["spec"]) if c["sk"] == "dict" else 1
    if c["cat"]:
        nm = c["names"]
        nb0 = c["nb"]
        cats = A(nm[:nb0], dtype=object)
        cuts = c["cuts"]
        b = [0] + cuts + [nb0]
        groups = [list(nm[i:j]) for i, j in zip(b, b[1:])]
        others = list(nm[nb0:nb0 + 1]) if c["oth"] else []
        if c["oth"]: groups.append(others)
        splits = A(cuts, dtype=float) - 0.5
        nb = len(groups)
    else:
        groups, cats, others = None, None, []
        splits = A(c["sp"]); nb = len(c["sp"]) + 1
    if c["cat"] and isinstance(c["names"][0], str) or c["miss_obj"]:
        mk = lambda xs: A([(None if i % 2 else np.nan) if v is None else v for i, v in enumerate(xs)], dtype=object)
    else:
        mk = lambda xs: A([np.nan if v is None else v for v in xs], dtype=float)
    sc = None if c["sk"] == "none" else code(c)
    digs, met = c["dig"], c["metric"]
    # values of the rows
    if c["t"] == "bin":
        te, tn = sum(c["e"]), sum(c["n"])
        rate = [e / (e + n) if e and n else 0.0 for e, n in zip(c["e"], c["n"])]
        woe = [math.log((n / tn) / (e / te)) if e and n else 0.0 for e, n in zip(c["e"], c["n"])]
        vals = {"woe": woe, "event_rate": rate}.get(met)
        unk = 0.0 if met == "woe" else te / (te + tn)
        f = lambda x: tr.transform_binary_target(splits, "categorical" if c["cat"] else "numerical", x, A(c["n"]), A(c["e"]), sc, cats, others,
                                                 c["unk"], met, c["ms"], c["mm"], None, digs)
    elif c["t"] == "cont":
        vals = [s / r if r else 0.0 for s, r in zip(c["s"], c["r"])]
        emp = "empirical" in (c["ms"], c["mm"])
        k = len(c["r"]) if emp else nb
        unk = sum(c["s"][:k]) / sum(c["r"][:k])
        f = lambda x: tr.transform_continuous_target(splits, "categorical" if c["cat"] else "numerical", x, A(c["r"]), A(c["s"]), sc, cats, others,
                                                     c["unk"], met, c["ms"], c["mm"], None, digs, False)
    else:
        M = c["m"]
        kk = len(M[0])
        rec = [sum(r) for r in M]
        te = [sum(r[j] for r in M) for j in range(kk)]
        tn = [sum(rec) - te[j] for j in range(kk)]
        W = [[math.log(((rec[i] - r[j]) / tn[j]) / (r[j] / te[j])) if r[j] and rec[i] - r[j] else 0.0 for j in range(kk)] for i, r in enumerate(M)]
        vals = [sum(w) / kk for w in W] if met == "mean_woe" else [sum(a * b for a, b in zip(w, te)) / sum(te) for w in W]
        unk = None
        f = lambda x: tr.transform_multiclass_target(splits, x, A(M), sc, met, c["ms"], c["mm"], digs)
    if c["unk"] is not None: unk = c["unk"]
    elif met in ("indices", "bins"): unk = -1 if met == "indices" else "unknown"
    if met == "indices": vals = list(range(nb + ns + 1))
    if met == "bins":
        if c["cat"]:
            from optbinning.binning.binning_statistics import bin_categorical
            lab = [str(g) for g in bin_categorical(splits, cats, others, None)]
        else:
            fm = lambda v: "%.*f" % (digs, v)
            lab = ["%s%s, %s)" % ("(" if i == 0 else "[", "-inf" if i == 0 else fm(c["sp"][i - 1]), "inf" if i == nb - 1 else fm(c["sp"][i])) for i in range(nb)]
        vals = lab + (list(c["spec"]) if c["sk"] == "dict" else ["Special"]) + ["Missing"]

    def want(v):
        r = member(v, c, groups, ns)
        if r is None: return unk
        ov = c["mm"] if r == nb + ns else c["ms"] if r >= nb else None
        if ov is None or ov == "empirical" or met == "bins" or met == "indices" and not isinstance(ov, int): return vals[r]
        return ov
    got, ex = guarded(lambda: f(mk(c["x"])), "transform %s %s special=%s" % (c["t"], met, c["sk"]))
    if ex: return ex
    w = [want(v) for v in c["x"]]
    where = "%s %s" % (c["t"], met)
    kinds = []
    for v in c["x"]:
        r = member(v, c, groups, ns)
        kinds.append("unknown category" if r is None else "missing" if r == nb + ns else "special" if r >= nb else "clean")
    for k in sorted(set(kinds)):
        idx = [i for i, q in enumerate(kinds) if q == k]
        g, ww = [got[i] for i in idx], [w[i] for i in idx]
        ok = g == ww if met == "bins" else close(g, ww)
        R.true("%s: %s record" % (where, k), ok, "got %s want %s" % (short(g), short(ww)))
    if len(c["x"]) > 1 and not R.out:
        one = [f(mk([v]) if not c["miss_obj"] else A([None if v is None else v], dtype=object))[0] for v in c["x"]]
        R.true("%s: value depends on the other records" % where, one == list(got) if met == "bins" else close(one, list(got)), short(one))
    return R.res()


def check_fit(c):
    from optbinning import OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning
    import pandas as pd
    R = Rep()
    rs = np.random.RandomState(c["seed"])
    n = c["n"]
    if c["cat"]:
        g = rs.randint(0, 7, n)
        x = np.array(["k%d" % i for i in g], dtype=object)
        if c["cut"]: x[rs.rand(n) < .03] = "rare"
        x[rs.rand(n) < .05] = None
        sv = ["sA", "sB"]
        x[rs.rand(n) < .06] = "sA"; x[rs.rand(n) < .05] = "sB"
    else:
        g = rs.normal(size=n)
        x = np.round(g, 1)
        x[rs.rand(n) < .05] = np.nan
        sv = [-99.0, -98.0]
        x[rs.rand(n) < .06] = -99; x[rs.rand(n) < .05] = -98
    sc = {"none": None, "list": sv, "array": np.array(sv), "dict": {"p": sv[0], "q": [sv[1]]}}[c["sk"]]
    kw = dict(special_codes=sc)
    if c["target"] != "multi":
        kw["dtype"] = "categorical" if c["cat"] else "numerical"
        if c["cut"]: kw["cat_cutoff"] = .06
    if c["us"] and not c["cat"]: kw["user_splits"] = [-.5, .3, 1.0]
    if c["us"] and c["cat"]: kw["user_splits"] = np.array([["k0", "k1"], ["k2"], ["k3", "k4"], ["k5", "k6"]], dtype=object)
    gg = g if not c["cat"] else (g - 3) / 2
    if c["target"] == "bin":
        y = (rs.rand(n) < 1 / (1 + np.exp(-gg))).astype(int); cls, mets = OptimalBinning, ["woe", "event_rate"]
        if c["mip"]: kw["solver"] = "mip"
    elif c["target"] == "cont":
        y = gg + rs.normal(size=n); cls, mets = ContinuousOptimalBinning, ["mean"]
    else:
        y = np.clip(np.round(gg + rs.normal(size=n)), -1, 1).astype(int); cls, mets = MulticlassOptimalBinning, ["mean_woe"]
    if c["us"] and c["cat"]: kw.pop("cat_cutoff", None)
    o, ex = guarded(lambda: cls(**kw).fit(x.copy(), y.copy()), "fit %s special=%s" % (c["target"], c["sk"]))
    if ex: return ex
    if o.status not in ("OPTIMAL", "FEASIBLE"): return None
    t = o.binning_table.build()
    rows = t.iloc[:-1]
    ns = 2 if c["sk"] == "dict" else 1
    nb = len(rows) - ns - 1
    if c["cat"]:
        gr = [list(b) for b in rows["Bin"][:nb]]
        cc = {"cat": True, "spec": None if sc is None else ({"p": sv[0], "q": [sv[1]]} if c["sk"] == "dict" else sv), "sk": c["sk"]}
    else:
        gr = None
        cc = {"cat": False, "sp": list(o.splits), "spec": None if sc is None else ({"p": sv[0], "q": [sv[1]]} if c["sk"] == "dict" else sv), "sk": c["sk"]}
        R.true("number of rows is that of the splits", nb == len(o.splits) + 1, "%d rows, %d splits" % (nb, len(o.splits)))
    miss = [None if pd.isnull(v) else v for v in x]
    r = [member(v, cc, gr, ns) for v in miss]
    if any(i is None for i in r):
        R.true("every training category has a row", False, "%s" % [v for v, i in zip(miss, r) if i is None][:5])
        return R.res()
    cnt = np.bincount(r, minlength=len(rows))
    R.eq("table counts are the records that the transform puts in each row", rows["Count"].values, cnt)
    for met in mets + ["indices", "bins"]:
        col = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}.get(met)
        got, ex = guarded(lambda: o.transform(x, metric=met, metric_special=c["ms"], metric_missing=c["mm"]), "fitted transform %s special=%s" % (met, c["sk"]))
        if ex: R.out += ex; continue
        for i in range(len(x)):
            k = r[i]
            ov = c["mm"] if k == nb + ns else c["ms"] if k >= nb else "empirical"
            if met == "indices":
                w = k if not isinstance(ov, int) else ov
            elif met == "bins": w = str(rows["Bin"].iloc[k]) if not c["cat"] or k >= nb else None
            elif ov != "empirical": w = ov
            elif col: w = rows[col].iloc[k]
            else: w = None
            if w is None: continue
            ok = str(got[i]) == w if met == "bins" else close(got[i], w)
            if not ok:
                R.true("fitted %s %s: row %s" % (c["target"], met, "missing" if k == nb + ns else "special" if k >= nb else "clean"), False,
                       "record %r: got %r want %r" % (x[i], got[i], w))
                break
    return R.res()
