"""Bounded search for C11: rounded points of real scorecards and of random tables, against exhaustive search."""
import numpy as np, pandas as pd
from replay.util import *
from optbinning import BinningProcess, Scorecard
from optbinning.scorecard.rounding import RoundingMIP
from sklearn.linear_model import LogisticRegression, LinearRegression

RULE = ("random tables of points (1-3 variables, 1-5 bins, spread up to 12) through RoundingMIP, the optimum by dynamic programming over the totals; "
        "some fitted scorecards with rounding (min_max and pdo_odds, both targets, intercept based or not); distinct = distinct inputs")


def cases(rng, tier):
    while True:
        yield {"kind": "fit" if rng.random() < .05 else "mip", "nv": rng.randint(1, 3), "spread": rng.choice([2, 5, 12]), "int": rng.random() < .15, "names": rng.random() < .5, "scaling": rng.choice(["min_max", "min_max", "pdo_odds"]),
               "rev": rng.random() < .5, "based": rng.random() < .5, "dt": rng.choice(["binary", "continuous"]), "seed": rng.randint(0, 10 ** 6)}


def best(pts):
    """smallest total deviation of integer points within per-variable integer bounds whose sums are the rounded totals; None: there is none"""
    lo, hi = min(p.min() for p in pts), max(p.max() for p in pts)
    L, H = int(np.ceil(lo)), int(np.floor(hi))
    a, b = int(np.rint(sum(p.min() for p in pts))), int(np.rint(sum(p.max() for p in pts)))
    tab = {(0, 0): 0.}
    for p in pts:
        new = {}
        for m in range(L, H + 1):
            for M in range(m, H + 1):
                d = np.abs(np.clip(np.rint(p), m, M) - p).sum()
                for (s, t), v in tab.items():
                    k = (s + m, t + M)
                    if v + d < new.get(k, np.inf): new[k] = v + d
        tab = new
    return tab.get((a, b))


def check(c):
    R = Rep(); rs = np.random.RandomState(c["seed"])
    if c["kind"] == "mip":
        pts = [rs.uniform(-c["spread"], c["spread"], rs.randint(1, 6)) + rs.randint(-3, 4) for _ in range(c["nv"])]
        if c["int"]: pts = [np.rint(p) for p in pts]
        names = ["v%d" % j for j in range(c["nv"])]
        if c["names"]: names = names[::-1]
        df = pd.concat([pd.DataFrame({"Variable": nm, "Points": p}) for nm, p in zip(names, pts)])
        def run():
            m = RoundingMIP(); m.build_model(df); return m.solve()
        r, ex = guarded(run, "rounding")
        if ex: return ex
        status, sol = r
        opt = best(pts)
        if opt is None:
            R.true("no solution", sol is None and status not in ("OPTIMAL", "FEASIBLE"), "status %s" % status); return R.res()
        R.true("solved", status in ("OPTIMAL", "FEASIBLE"), "status %s, an assignment with deviation %s exists" % (status, opt))
        if sol is None: return R.res()
        q = np.array(sol, float)
        if len(q) != len(df): R.eq("as many points as rows", len(q), len(df)); return R.res()
        R.true("integers", np.all(np.abs(q - np.rint(q)) < 1e-6), str(sol))
        off = np.cumsum([0] + [len(p) for p in pts]); S = [q[off[j]:off[j + 1]] for j in range(c["nv"])]
        a, b = np.rint(sum(p.min() for p in pts)), np.rint(sum(p.max() for p in pts))
        R.true("range", sum(x.min() for x in S) >= a - 1e-6 and sum(x.max() for x in S) <= b + 1e-6, "points %s outside [%s, %s]" % (sol, a, b))
        dev = float(sum(np.abs(x - p).sum() for x, p in zip(S, pts)))
        if status == "OPTIMAL": R.true("total deviation", abs(dev - opt) < 1e-4, "%s for %s: %s, best %s" % (sol, short([p.tolist() for p in pts]), dev, opt))
        return R.res()
    n = 240; dt = "binary" if c["scaling"] == "pdo_odds" else c["dt"]
    X = pd.DataFrame({"v%d" % j: np.round(rs.normal(0, 1, n), 2) for j in range(c["nv"])})
    z = X.sum(axis=1) + rs.normal(0, 1, n); y = (z > 0).astype(int).values if dt == "binary" else z.values
    a = int(rs.randint(-50, 400)); pm = {"min": a, "max": a + int(rs.randint(20, 500))} if c["scaling"] == "min_max" else {"pdo": 20., "odds": float(rs.uniform(1, 50)), "scorecard_points": 600.}
    out = []
    for rd in (False, True):
        try: out.append(Scorecard(BinningProcess(list(X.columns)), LogisticRegression() if dt == "binary" else LinearRegression(), scaling_method=c["scaling"], scaling_method_params=pm, intercept_based=c["based"], reverse_scorecard=c["rev"], rounding=rd).fit(X, y))
        except Exception as e: return guarded(lambda: (_ for _ in ()).throw(e), "fit")[1]
    u, r = out; P, Q = u.table("detailed").Points.values, r.table("detailed").Points.values.astype(float)
    R.true("integers", np.all(np.abs(Q - np.rint(Q)) < 1e-6) and abs(r.intercept_ - np.rint(r.intercept_)) < 1e-6, short(Q))
    s = r.score(X)
    if c["scaling"] == "pdo_odds": R.eq("nearest integers", Q, np.rint(P))
    elif not np.array_equal(Q, np.rint(P)): R.true("range", s.min() >= pm["min"] - 1e-6 and s.max() <= pm["max"] + 1e-6, "scores %s to %s outside %s" % (s.min(), s.max(), pm))
    return R.res()
