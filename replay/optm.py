"""Shared bounded search of C05, C06, C07: the binning models, driven directly and through fit, against enumeration of all binnings."""
import itertools
import math
import numpy as np
from scipy import stats
from replay.util import *

M = 10 ** 6
KINDS = ["cp", "cp", "cp", "mip", "mip", "cont", "cont", "cont", "mcp", "mmip", "scen"]
TRENDS = ["ascending", "descending", "concave", "convex", "peak", "valley", "peak_heuristic", "valley_heuristic"]


def cases(rng, tier, prop):
    while True:
        kind = rng.choice(KINDS)
        if rng.random() < (.25 if prop != "C07" else 0):
            c = dict(t="fit", kind=rng.choice(["cp", "mip", "cont", "mcp", "mmip", "scen"]), n=rng.randint(30, 400), seed=rng.randint(0, 10 ** 6),
                     k=rng.choice([3, 6, 12]), div=rng.choice(["iv", "js", "hellinger", "triangular"]), cat=rng.random() < .2,
                     us=rng.random() < .4, fix=rng.random() < .7)
        else:
            c = dict(t="model", kind=kind, n=rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6]) if prop == "C07" else rng.randint(2, 7), seed=rng.randint(0, 10 ** 6),
                     k=rng.choice([2, 3]), scale=rng.choice([5, 30, 30, 400, 5000]), div=rng.choice(["iv", "js", "hellinger", "triangular"]), neg=rng.random() < .4,
                     ties=rng.random() < .2, wts=rng.choice(["one", "dec", "int"]), fix=False)
        c["bounds"] = sorted(rng.sample(["nmin", "nmax", "smin", "smax", "emin", "emax", "nemin", "nemax"], rng.choice([0, 1, 1, 2, 2, 3, 4, 8])))
        c["bseed"] = rng.randint(0, 10 ** 6)
        c["trend"] = None; c["diff"] = 0; c["pv"] = None; c["pol"] = "consecutive"; c["gamma"] = 0
        if prop == "C05":
            if rng.random() < .4: c["fix"] = True
            if rng.random() < .3: c["trend"] = "rand"
        elif prop == "C06":
            c["bounds"] = c["bounds"][:rng.choice([0, 0, 1])]
            c["trend"] = rng.choice(["rand", "rand", "rand", None])
            if rng.random() < .45: c["diff"] = rng.choice([.005, .02, .05, .1, .2])
            if rng.random() < .45: c["pv"] = rng.choice([.05, .2, .5])
            c["pol"] = rng.choice(["consecutive", "all"])
        else:
            if rng.random() < .4: c["gamma"] = rng.choice([.01, .1, .5, 1, 5])
        c["tseed"] = rng.randint(0, 10 ** 6)
        yield c


def trends_of(c, kind, k):
    rs = np.random.RandomState(c["tseed"])
    if c["trend"] is None: return [None] * k if kind in ("mcp", "mmip") else None
    if kind in ("mcp", "mmip"): return [([None] + TRENDS)[rs.randint(9)] for _ in range(k)]
    if kind == "scen": return TRENDS[rs.randint(6)]
    return TRENDS[rs.randint(len(TRENDS))]


def binnings(n):
    for m in range(2 ** (n - 1)):
        ends = [i for i in range(n - 1) if m >> i & 1] + [n - 1]
        st = [0] + [e + 1 for e in ends[:-1]]
        yield list(zip(st, ends))


def dterm(div, p, q):
    if div == "iv": return 0. if p == 0 or q == 0 else (p - q) * math.log(p / q)
    if div == "js":
        m = (p + q) / 2
        return .5 * ((p * math.log(p / m) if p else 0.) + (q * math.log(q / m) if q else 0.))
    if div == "hellinger": return .5 * (math.sqrt(p) - math.sqrt(q)) ** 2
    return (p - q) ** 2 / (p + q)


def data(c):
    rs = np.random.RandomState(c["seed"])
    n, k, sc = c["n"], c["k"], c["scale"]
    kind = c["kind"]
    lo = 0 if c["div"] in ("hellinger", "triangular") and kind in ("cp", "mip") and rs.rand() < .3 else 1
    if kind in ("cp", "mip"):
        e = rs.randint(lo, sc + 1, n); ne = rs.randint(lo, sc + 1, n)
        if c["ties"]: e[:] = e[0]; ne[:] = ne[0]
        if lo == 0:
            ne[(e + ne) == 0] = 1
            if e.sum() == 0 or ne.sum() == 0: e += 1; ne += 1
        return ne.astype(np.int64), e.astype(np.int64)
    if kind == "cont":
        r = rs.randint(1, sc + 1, n).astype(np.int64)
        ys = [np.round(rs.normal(size=v) * 2 + rs.normal() * 3 + (-4 if c["neg"] else 6), rs.randint(0, 3)) for v in r]
        if rs.rand() < .3: ys = [np.full(len(v), .1 * rs.randint(1, 9)) if rs.rand() < .5 else v for v in ys]
        return r, np.array([v.sum() for v in ys]), np.array([(v ** 2).sum() for v in ys])
    if kind == "scen":
        return rs.randint(1, sc + 1, (n, k)).astype(np.int64), rs.randint(1, sc + 1, (n, k)).astype(np.int64)
    m = rs.randint(1, sc + 1, (n, max(k, 3))).astype(np.int64)
    return (m.sum(1).reshape(-1, 1) - m), m


def bounds(c, total, n):
    rs = np.random.RandomState(c["bseed"])
    b = {}
    r = {q: rs.rand() for q in ("nmin", "nmax", "smin", "smax", "emin", "emax", "nemin", "nemax")}
    for q in c["bounds"]:
        if q == "nmin": b[q] = 1 + int(r[q] * n)
        elif q == "nmax": b[q] = 1 + int(r[q] * n)
        elif q == "smin": b[q] = max(1, int(r[q] * total / 2))
        elif q == "smax": b[q] = max(1, int((.3 + .7 * r[q]) * total))
        elif q.endswith("min"): b[q] = max(1, int(r[q] * total / 6))
        else: b[q] = max(1, int((.2 + .4 * r[q]) * total))
    for a, z in (("nmin", "nmax"), ("smin", "smax"), ("emin", "emax"), ("nemin", "nemax")):
        if a in b and z in b and b[a] > b[z]: b[a], b[z] = b[z], b[a]
    return b


def unimodal(v, tol, up):
    v = [a if up else -a for a in v]
    return any(all(v[i] <= v[i + 1] + tol for i in range(p)) and all(v[i] + tol >= v[i + 1] for i in range(p, len(v) - 1)) for p in range(len(v)))


def trend_ok(v, tr, tol, tc=None, ends=None):
    n = len(v)
    if tr == "ascending": return all(v[i] <= v[i + 1] + tol for i in range(n - 1))
    if tr == "descending": return all(v[i] + tol >= v[i + 1] for i in range(n - 1))
    if tr == "concave": return all(2 * v[i] + 4 * tol >= v[i - 1] + v[i + 1] for i in range(1, n - 1))
    if tr == "convex": return all(2 * v[i] <= v[i - 1] + v[i + 1] + 4 * tol for i in range(1, n - 1))
    if tr.startswith("peak"): return unimodal(v, tol, True)
    if tr.startswith("valley"): return unimodal(v, tol, False)
    return True


class Skip(Exception): pass


def make(c, kind, b, fixed, tr, dat):
    """builds the real model object; signature changes are skipped"""
    from optbinning.binning.cp import BinningCP
    from optbinning.binning.mip import BinningMIP
    from optbinning.binning.continuous_cp import ContinuousBinningCP
    from optbinning.binning.multiclass_cp import MulticlassBinningCP
    from optbinning.binning.multiclass_mip import MulticlassBinningMIP
    g = b.get
    diff = c["diff"] * (5 if kind == "cont" else 1)
    com = dict(monotonic_trend=tr, min_n_bins=g("nmin"), max_n_bins=g("nmax"), max_pvalue=c["pv"], max_pvalue_policy=c["pol"],
               user_splits_fixed=fixed, time_limit=100)
    tc = None
    try:
        if kind in ("cp", "mip", "scen"):
            k = kind == "scen"
            S = (lambda v: None if v is None else [v] * dat[0].shape[1]) if k else (lambda v: v)
            kw = dict(com, min_bin_size=S(g("smin")), max_bin_size=S(g("smax")), min_bin_n_event=g("emin") if not k else None, max_bin_n_event=g("emax") if not k else None,
                      min_bin_n_nonevent=g("nemin") if not k else None, max_bin_n_nonevent=g("nemax") if not k else None, min_event_rate_diff=diff, gamma=0 if k else c["gamma"])
            o = BinningMIP(mip_solver="cbc", **kw) if kind == "mip" else BinningCP(**kw)
            if k:
                w = {"one": [1] * dat[0].shape[1], "dec": [.1 * (i + 1) for i in range(dat[0].shape[1])], "int": [i + 1 for i in range(dat[0].shape[1])]}[c["wts"]]
                o.build_model_scenarios(dat[0], dat[1], np.array(w))
            else:
                if tr and tr.endswith("heuristic"): tc = _tc(dat[1] / (dat[0] + dat[1]), tr)
                o.build_model(c["div"], dat[0], dat[1], tc)
        elif kind == "cont":
            if tr and tr.endswith("heuristic"): tc = _tc(dat[1] / dat[0], tr)
            o = ContinuousBinningCP(min_bin_size=g("smin"), max_bin_size=g("smax"), min_mean_diff=diff, gamma=c["gamma"], **com)
            o.build_model(*dat, tc)
        else:
            tc = [_tc(dat[1][:, i] / (dat[0][:, i] + dat[1][:, i]), t) if t and t.endswith("heuristic") else None for i, t in enumerate(tr)]
            kw = dict(com, min_bin_size=g("smin"), max_bin_size=g("smax"), min_event_rate_diff=diff)
            o = MulticlassBinningMIP(mip_solver="cbc", **kw) if kind == "mmip" else MulticlassBinningCP(**kw)
            o.build_model(*dat, tc)
    except TypeError as e:
        if "argument" in str(e) and "__init__" in str(e) or "positional argument" in str(e): raise Skip()
        raise
    return o


def _tc(v, tr):
    from optbinning.binning.auto_monotonic import peak_valley_trend_change_heuristic
    return peak_valley_trend_change_heuristic(v, tr)


def vals_of(kind, dat, B, c):
    """[(records, events, non-events)] and the list of rate vectors (one per class or scenario) of the bins of B"""
    if kind == "cont":
        return [(int(dat[0][a:z + 1].sum()), None, None) for a, z in B], [[dat[1][a:z + 1].sum() / dat[0][a:z + 1].sum() for a, z in B]]
    ne, e = (d.reshape(len(d), -1) for d in dat)
    if kind in ("cp", "mip"):
        r = [(int((ne + e)[a:z + 1].sum()), int(e[a:z + 1].sum()), int(ne[a:z + 1].sum())) for a, z in B]
    else: r = [([int((ne + e)[a:z + 1, s].sum()) for s in range(e.shape[1])], None, None) for a, z in B]
    return r, [[e[a:z + 1, s].sum() / (e + ne)[a:z + 1, s].sum() for a, z in B] for s in range(e.shape[1])]


def pval(kind, dat, g1, g2, s):
    (a, z), (a2, z2) = g1, g2
    if kind == "cont":
        def st(a, z):
            n = int(dat[0][a:z + 1].sum()); m = dat[1][a:z + 1].sum() / n
            return m, math.sqrt(max(0., dat[2][a:z + 1].sum() / n - m * m)), n
        (m1, s1, n1), (m2, s2, n2) = st(a, z), st(a2, z2)
        if s1 < 1e-7 and s2 < 1e-7: return None
        return stats.ttest_ind_from_stats(m1, s1, n1, m2, s2, n2, False)[1]
    ne, e = (d.reshape(len(d), -1)[:, s] for d in dat)
    e1, n1, e2, n2 = e[a:z + 1].sum(), (e + ne)[a:z + 1].sum(), e[a2:z2 + 1].sum(), (e + ne)[a2:z2 + 1].sum()
    p = (e1 + e2) / (n1 + n2)
    if p <= 0 or p >= 1: return None
    return 2 * (1 - stats.norm.cdf(abs(e1 / n1 - e2 / n2) / math.sqrt(p * (1 - p) * (1 / n1 + 1 / n2))))


def bad_bounds(kind, b, B, rec, fixed=None):
    out = []
    if "nmin" in b and len(B) < b["nmin"]: out.append("min_n_bins")
    if "nmax" in b and len(B) > b["nmax"]: out.append("max_n_bins")
    for r, e, ne in rec:
        for v in (r if isinstance(r, list) else [r]):
            if "smin" in b and v < b["smin"]: out.append("min_bin_size")
            if "smax" in b and v > b["smax"]: out.append("max_bin_size")
        if e is not None:
            for q, v, nm in (("e", e, "event"), ("ne", ne, "nonevent")):
                if q + "min" in b and v < b[q + "min"]: out.append("min_bin_n_" + nm)
                if q + "max" in b and v > b[q + "max"]: out.append("max_bin_n_" + nm)
    if fixed is not None:
        ends = {z for _, z in B}
        if any(f and i not in ends for i, f in enumerate(fixed)): out.append("fixed split")
    return sorted(set(out))


def bad_trend(kind, c, B, rates, dat, tr):
    out = []
    mip = kind in ("mip", "mmip")
    tol = 2e-6 if not mip else 1e-5
    for s, v in enumerate(rates):
        t = tr[s] if isinstance(tr, list) else tr
        if t and not trend_ok(v, t, tol): out.append("trend " + t)
    diff = c["diff"] * (5 if kind == "cont" else 1)
    if diff:
        for v in rates:
            if any(abs(v[i] - v[i + 1]) < diff - 2 * tol for i in range(len(v) - 1)): out.append("min diff")
    if c["pv"]:
        for s in range(len(rates)):
            for i in range(len(B) - 1):
                p = pval(kind, dat, B[i], B[i + 1], s)
                if p is not None and p > c["pv"] + 1e-6: out.append("max pvalue")
    return sorted(set(out))


def true_obj(c, kind, dat, B):
    """(objective of the binning by definition, in model units, tolerance)"""
    pen = 0.
    if kind == "cont":
        tm = dat[1].sum() / dat[0].sum()
        o = [abs(dat[1][a:z + 1].sum() / dat[0][a:z + 1].sum() - tm) for a, z in B]
        sz = [dat[0][a:z + 1].sum() for a, z in B]
        v = [math.floor(x * M) for x in o]; W = 1
    else:
        ne, e = (d.reshape(len(d), -1) for d in dat)
        K = e.shape[1]
        w = [1] * K
        if kind == "scen": w = {"one": [1] * K, "dec": [i + 1 for i in range(K)], "int": [i + 1 for i in range(K)]}[c["wts"]]
        div = c["div"] if kind in ("cp", "mip") else "iv"
        t = [dterm(div, e[a:z + 1, s].sum() / e[:, s].sum(), ne[a:z + 1, s].sum() / ne[:, s].sum()) for a, z in B for s in range(K)]
        ww = w * len(B)
        v = [x * y for x, y in zip(ww, [math.floor(x * M) for x in t] if kind in ("cp", "mcp", "scen") else t)]
        sz = [(e + ne)[a:z + 1, 0].sum() for a, z in B]; W = sum(ww)
    if c["gamma"] and kind in ("cp", "mip", "cont"):
        tot = int((dat[0] + dat[1]).sum()) if kind != "cont" else int(dat[0].sum())
        pen = (math.ceil(M * c["gamma"] / tot) if kind != "mip" else c["gamma"] / tot) * (max(sz) - min(sz))
    mip = kind in ("mip", "mmip")
    return sum(v) - pen, (W + 1e-6 * abs(pen) if not mip else 1e-6 * (1 + abs(pen)))


def check(c, prop):
    return (check_fit if c["t"] == "fit" else check_model)(c, prop)


def check_model(c, prop):
    kind = c["kind"]
    R = Rep()
    dat = data(c)
    n = c["n"]
    total = int(dat[0].sum()) if kind == "cont" else int((dat[0] + dat[1]).reshape(n, -1)[:, 0].sum())
    b = bounds(c, total, n)
    if kind not in ("cp", "mip"): b = {q: v for q, v in b.items() if q[0] in "ns" and not q.startswith("ne")}
    rs = np.random.RandomState(c["seed"] + 7)
    fixed = [bool(v) for v in rs.rand(n - 1) < .35] if c["fix"] and n > 1 else None
    tr = trends_of(c, kind, dat[1].shape[1] if kind in ("mcp", "mmip") else 1)
    try: o = make(c, kind, b, fixed, tr, dat)
    except Skip: return None
    except Exception as ex: return [("build %s:%s" % (kind, type(ex).__name__), repr(ex)[:300])]
    if prop == "C07": return check_obj(c, kind, o, dat, b, n, R)
    try: status, sol = o.solve()
    except Exception as ex: return [("solve %s:%s" % (kind, type(ex).__name__), repr(ex)[:300])]
    if status not in ("OPTIMAL", "FEASIBLE"):
        return R.res()
    sol = [bool(v) for v in sol]
    R.true(kind + " solution shape", len(sol) == n and sol[-1], "n=%d solution=%s" % (n, sol))
    if R.out: return R.res()
    ends = [i for i in range(n) if sol[i]]
    B = list(zip([0] + [e + 1 for e in ends[:-1]], ends))
    rec, rates = vals_of(kind, dat, B, c)
    if prop == "C05":
        bad = bad_bounds(kind, b, B, rec, fixed)
        for q in bad: R.true("%s %s" % (kind, q), False, "bounds %s fixed %s: accepted bins %s with %s" % (b, fixed, B, rec))
    else:
        bad = bad_trend(kind, c, B, rates, dat, tr)
        for q in bad: R.true("%s %s" % (kind, q), False, "trend %s min diff %s max p %s (%s): accepted bins %s with rates %s" % (tr, c["diff"], c["pv"], c["pol"], B, [[float(u) for u in v] for v in rates]))
    return R.res()


def check_obj(c, kind, o, dat, b, n, R):
    mip = kind in ("mip", "mmip")
    x = getattr(o, "_x", None)
    mod = getattr(o, "_model", None) if not mip else getattr(o, "solver_", None)
    if not isinstance(x, dict) or mod is None or (n - 1, 0) not in x: return None
    if not mip:
        from ortools.sat.python import cp_model
        base = mod.Proto()
    best = None
    rs = np.random.RandomState(c["bseed"] + 3)
    BB = list(binnings(n))
    if len(BB) > 12: BB = [BB[i] for i in rs.permutation(len(BB))[:12]]
    for B in BB:
        rec, _ = vals_of(kind, dat, B, c)
        ok = not bad_bounds(kind, b, B, rec)
        grp = {z: a for a, z in B}
        val = {(i, j): int(i in grp and j >= grp[i]) for i in range(n) for j in range(i + 1)}
        if mip:
            from ortools.linear_solver import pywraplp
            for k, v in val.items(): x[k].SetBounds(v, v)
            st = mod.Solve()
            acc = st in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE)
            if not acc and st != pywraplp.Solver.INFEASIBLE: continue
            obj = mod.Objective().Value() if acc else None
        else:
            m2 = cp_model.CpModel()
            m2.Proto().CopyFrom(base)
            for k, v in val.items():
                d = m2.Proto().variables[x[k].Index()].domain
                del d[:]; d.extend([v, v])
            s = cp_model.CpSolver(); s.parameters.num_search_workers = 1; s.parameters.max_time_in_seconds = 20
            st = s.Solve(m2)
            acc = st in (cp_model.OPTIMAL, cp_model.FEASIBLE)
            if not acc and st != cp_model.INFEASIBLE: continue
            if acc and st != cp_model.OPTIMAL: continue
            obj = s.ObjectiveValue() if acc else None
        if ok and not acc: R.true("%s admissible binning excluded" % kind, False, "bounds %s bins %s records %s" % (b, B, rec))
        if acc:
            w, tol = true_obj(c, kind, dat, B)
            R.true("%s objective" % kind, abs(obj - w) <= tol, "bins %s: the model scores %s, the definition gives %s (gamma %s, %s)" % (B, obj, w, c["gamma"], c["div"]))
        if len(R.out) > 3: break
    return R.res()


def check_fit(c, prop):
    from optbinning import OptimalBinning, ContinuousOptimalBinning, MulticlassOptimalBinning
    from optbinning.binning.uncertainty import SBOptimalBinning
    kind = c["kind"]
    R = Rep()
    rs = np.random.RandomState(c["seed"])
    n, k = c["n"], c["k"]
    x = np.round(rs.normal(size=n) * 10, 1)
    miss = rs.rand(n) < (.1 if rs.rand() < .5 else 0)
    f = {0: lambda v: v / 10, 1: lambda v: -v / 10, 2: lambda v: np.sin(v / 6), 3: lambda v: 0 * v}[rs.randint(4)](x)
    p = 1 / (1 + np.exp(-f - rs.normal() * .5))
    y = (rs.rand(n) < p).astype(int)
    if kind == "cont": y = np.round(f * 3 + rs.normal(size=n), 3)
    if kind in ("mcp", "mmip"): y = np.where(rs.rand(n) < .3, 2, y)
    b = {}
    r = np.random.RandomState(c["bseed"])
    v = {"nmin": r.randint(1, 4), "nmax": r.randint(1, 7), "smin": round(r.rand() * .3 + .01, 3), "smax": round(.2 + .7 * r.rand(), 3), "emin": r.randint(1, n // 10 + 2),
         "emax": r.randint(n // 6, n), "nemin": r.randint(1, n // 10 + 2), "nemax": r.randint(n // 6, n)}
    b = {q: v[q] for q in c["bounds"] if kind in ("cp", "mip") or q in ("nmin", "nmax", "smin", "smax")}
    for a, z in (("nmin", "nmax"), ("smin", "smax"), ("emin", "emax"), ("nemin", "nemax")):
        if a in b and z in b and b[a] > b[z]: b[a], b[z] = b[z], b[a]
    names = {"nmin": "min_n_bins", "nmax": "max_n_bins", "smin": "min_bin_size", "smax": "max_bin_size", "emin": "min_bin_n_event", "emax": "max_bin_n_event",
             "nemin": "min_bin_n_nonevent", "nemax": "max_bin_n_nonevent"}
    kw = {names[q]: u for q, u in b.items()}
    tr = trends_of(c, kind, 3 if kind in ("mcp", "mmip") else 1)
    if kind in ("mcp", "mmip") and c["trend"] is not None and rs.rand() < .2: tr = "auto"
    if kind in ("cp", "mip", "cont") and c["trend"] is not None and rs.rand() < .1: tr = "auto_asc_desc"
    kw.update(monotonic_trend=tr if tr != [None] * 3 else None, max_pvalue=c["pv"], max_pvalue_policy=c["pol"], time_limit=20)
    kw["min_mean_diff" if kind == "cont" else "min_event_rate_diff"] = c["diff"]
    if c["us"]:
        us = sorted(set(float(u) for u in np.round(rs.normal(size=k) * 8, 1)))
        if c["bseed"] % 3: rs.shuffle(us)
        kw["user_splits"] = us
        if c["fix"]: kw["user_splits_fixed"] = [bool(u) for u in rs.rand(len(us)) < .4]
    else: kw["max_n_prebins"] = k
    kw["min_prebin_size"] = .02
    if kind in ("cp", "mip"): kw.update(divergence=c["div"], solver=kind, mip_solver="cbc")
    if kind in ("mcp", "mmip"): kw.update(solver={"mcp": "cp", "mmip": "mip"}[kind], mip_solver="cbc")
    xs = x.copy(); xs[miss] = np.nan
    try:
        if kind == "scen":
            for q in ("max_n_prebins",):
                pass
            h = n // 2
            o = SBOptimalBinning(**kw); X, Y = [xs[:h], xs[h:]], [y[:h], y[h:]]
            o.fit(X, Y)
        else:
            o = {"cp": OptimalBinning, "mip": OptimalBinning, "cont": ContinuousOptimalBinning, "mcp": MulticlassOptimalBinning, "mmip": MulticlassOptimalBinning}[kind](**kw)
            o.fit(xs, y)
    except ValueError as ex:
        if "ixed" in str(ex) or "must be" in str(ex) or "empty" in str(ex) or "zero-size" in str(ex) or c["div"] in ("hellinger", "triangular") and "out of range" in str(ex): return None          # empty pre-bins
        return [("fit %s:ValueError" % kind, str(ex)[:300])]
    except Exception as ex:
        if c["div"] in ("hellinger", "triangular") and "int64" in str(ex): return None
        if kind == "scen" and isinstance(ex, (IndexError, AttributeError)): return None          # no split survives the refinement: nothing is fitted
        return [("fit %s:%s" % (kind, type(ex).__name__), repr(ex)[:300])]
    if o.status not in ("OPTIMAL", "FEASIBLE"): return None
    sp = [float(s) for s in o.splits]
    if kw.get("user_splits_fixed") and prop == "C05":
        for s, fl in zip(kw["user_splits"], kw["user_splits_fixed"]):
            if fl: R.true("fit %s fixed split" % kind, any(abs(s - q) < 1e-9 for q in sp), "fixed %s, splits %s" % (s, sp))
    if getattr(o, "_n_prebins", None) is not None and o._n_prebins <= (1 if kind not in ("mcp", "mmip") else 0): return R.res()        # the solver was not run
    groups = [(xs[:n // 2], y[:n // 2]), (xs[n // 2:], y[n // 2:])] if kind == "scen" else [(xs, y)]
    allr = []
    for gx, gy in groups:
        m = ~np.isnan(gx)
        idx = np.digitize(gx[m], sp, right=False); yy = gy[m]
        nb = len(sp) + 1
        cnt = [int((idx == i).sum()) for i in range(nb)]
        if prop == "C05":
            ln = "fit %s " % kind
            if "nmin" in b: R.true(ln + "min_n_bins", nb >= b["nmin"], "%d bins, minimum %d" % (nb, b["nmin"]))
            if "nmax" in b: R.true(ln + "max_n_bins", nb <= b["nmax"], "%d bins, maximum %d" % (nb, b["nmax"]))
            if "smin" in b: R.true(ln + "min_bin_size", min(cnt) >= int(np.ceil(b["smin"] * len(gx))), "counts %s minimum %s of %d" % (cnt, b["smin"], len(gx)))
            if "smax" in b: R.true(ln + "max_bin_size", max(cnt) <= int(np.ceil(b["smax"] * len(gx))), "counts %s maximum %s of %d" % (cnt, b["smax"], len(gx)))
            if kind in ("cp", "mip"):
                e = [int((yy[idx == i] == 1).sum()) for i in range(nb)]; ne = [u - w for u, w in zip(cnt, e)]
                for q, vv in (("e", e), ("ne", ne)):
                    if q + "min" in b: R.true(ln + names[q + "min"], min(vv) >= b[q + "min"], "%s minimum %s" % (vv, b[q + "min"]))
                    if q + "max" in b: R.true(ln + names[q + "max"], max(vv) <= b[q + "max"], "%s maximum %s" % (vv, b[q + "max"]))
        elif min(cnt) > 0:
            if kind in ("cp", "mip", "scen"):
                e = np.array([(yy[idx == i] == 1).sum() for i in range(nb)]); d = (np.array(cnt) - e, e); kk = "cp"
            elif kind == "cont":
                d = (np.array(cnt), np.array([yy[idx == i].sum() for i in range(nb)]), np.array([(yy[idx == i] ** 2).sum() for i in range(nb)])); kk = "cont"
            else:
                e = np.array([[(yy[idx == i] == q).sum() for q in range(3)] for i in range(nb)]); d = (np.array(cnt).reshape(-1, 1) - e, e); kk = "mcp"
            B = [(i, i) for i in range(nb)]
            _, rates = vals_of(kk, d, B, c)
            t = None if tr in ("auto", "auto_asc_desc") else tr
            cc = dict(c, diff=c["diff"] / 5 if kind == "cont" else c["diff"])
            for q in bad_trend("mip" if kind in ("mip", "mmip") else kk, cc, B, rates, d, t) if kind not in ("mip", "mmip") or kk == "cp" else bad_trend("mcp", cc, B, rates, d, t):
                R.true("fit %s %s" % (kind, q), False, "trend %s min diff %s max p %s: rates %s, records %s" % (tr, c["diff"], c["pv"], [[float(u) for u in vv] for vv in rates], cnt))
            if tr == "auto_asc_desc":
                R.true("fit %s auto_asc_desc" % kind, trend_ok(rates[0], "ascending", 1e-5) or trend_ok(rates[0], "descending", 1e-5), "rates %s" % rates[0])
    return R.res()
