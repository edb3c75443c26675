"""Bounded search for C13: the selection of a table of metrics against a restatement of the criteria."""
import math
import numpy as np, pandas as pd
from replay.util import *
from optbinning import BinningProcess, OptimalBinning
from optbinning.binning.binning_process import _METRICS

RULE = ("random tables of metrics for 1 to 12 variables (distinct values, or ties with at most one 'top' criterion), random criteria dictionaries for the three target types, "
        "random fixed variables; some processes fitted on data, some variables updated; distinct = distinct inputs")


def cases(rng, tier):
    while True:
        dt = rng.choice(["binary", "binary", "multiclass", "continuous"]); ms = _METRICS[dt]["metrics"]
        ties = rng.random() < .3; n = rng.randint(1, 12); crit = {}
        for m in rng.sample(ms, rng.randint(0, len(ms))):
            e = {}
            if rng.random() < .5: e["min"] = round(rng.random() * .5, 2)
            if rng.random() < .5: e["max"] = round(.4 + rng.random() * .6, 2)
            if rng.random() < .8: e["strategy"] = rng.choice(["highest", "lowest"])
            if rng.random() < .7: e["top"] = rng.choice([1, 2, 3, 5, 20, .1, .25, .5, .75, .99])
            crit[m] = e
        if ties:
            last = [m for m in ms if m in crit]
            for m in last[:-1]: crit[m].pop("top", None)
        yield {"kind": "fit" if rng.random() < .003 else "stats", "dt": dt, "n": n, "ties": ties, "crit": crit if rng.random() < .9 else None, "fix": rng.sample(range(n), rng.randint(0, min(n, 3))) if rng.random() < .4 else None,
               "seed": rng.randint(0, 10 ** 6)}


def oracle(R, vals, crit, ms, n, fixed, got, ties):
    el = [True] * n
    for m in ms:
        if m not in (crit or {}): continue
        c, x = crit[m], vals[m]
        el = [e and ("min" not in c or x[i] >= c["min"]) and ("max" not in c or x[i] <= c["max"]) for i, e in enumerate(el)]
        if "strategy" in c and "top" in c:
            I = [i for i in range(n) if el[i]]
            t = c["top"] if isinstance(c["top"], int) else math.ceil(len(I) * c["top"])
            k = min(len(I), t); sg = -1 if c["strategy"] == "highest" else 1
            I.sort(key=lambda i: sg * x[i])
            keep = set(I[:k])
            if ties and k < len(I) and x[I[k - 1]] == x[I[k]]:
                # any choice among the tied ones, as long as the number is right
                cut = x[I[k - 1]]; free = [i for i in I if x[i] == cut and i not in fixed]
                sure = [i for i in keep if x[i] != cut]
                for i in range(n):
                    if i in fixed or i in free: continue
                    R.true("tied: variable %d" % i, got[i] == (i in sure or i in keep), "")
                if not any(x[i] == cut and i in fixed for i in I): R.true("number kept", sum(got[i] for i in free) == k - len(sure), "%s" % got)
                return
            el = [i in keep for i in range(n)]
    want = [e or i in fixed for i, e in enumerate(el)]
    R.true("selected variables", list(map(bool, got)) == want, "got %s want %s" % (list(map(bool, got)), want))


def check(c):
    R = Rep(); rs = np.random.RandomState(c["seed"]); n = c["n"]
    names = ["v%d" % i for i in rs.permutation(n)]; fixed = [names[i] for i in c["fix"]] if c["fix"] else None
    fs = set(c["fix"] or [])
    ms = _METRICS[c["dt"]]["metrics"]
    if c["kind"] == "stats":
        vals = {m: (rs.randint(0, 4, n) / 4.0 if c["ties"] else rs.permutation(np.arange(1, n + 1) / (n + 1.0))).tolist() for m in ms}
        p = BinningProcess(names, selection_criteria=c["crit"], fixed_variables=fixed)
        p._n_variables, p._target_dtype, p._is_fitted = n, c["dt"], True
        p._variable_stats = {nm: dict({"dtype": "numerical", "status": "OPTIMAL", "n_bins": 3}, **{m: vals[m][i] for m in ms}) for i, nm in enumerate(names)}
        r, ex = guarded(p._support_selection_criteria, "select")
        if ex: return ex
    else:
        X = rs.normal(0, 1, (150, n)); s = X[:, 0] + rs.normal(0, 1, 150) * 2
        y = {"binary": (s > 0).astype(int), "multiclass": np.digitize(s, [-1, 1]), "continuous": s}[c["dt"]]
        p = BinningProcess(names, selection_criteria=c["crit"], fixed_variables=fixed)
        try: p.fit(pd.DataFrame(X, columns=names), y)
        except Exception as e: return None
        vals = {m: [p._variable_stats[nm][m] for nm in names] for m in ms}
        if any(v is None or v != v for x in vals.values() for v in x) or any(len(set(x)) < n for x in vals.values()): return None
    got = p.get_support()
    oracle(R, vals, c["crit"], ms, n, fs, got, c["ties"] and c["kind"] == "stats")
    R.true("support by index", p.get_support(indices=True).tolist() == [i for i in range(n) if got[i]], "")
    R.true("support by name", list(p.get_support(names=True)) == [names[i] for i in range(n) if got[i]], "")
    sm = p.summary()
    R.true("summary", list(sm["name"]) == names and list(map(bool, sm["selected"])) == list(map(bool, got)), "")
    return R.res()
