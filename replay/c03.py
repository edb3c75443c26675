"""Bounded search for C03: the binning tables built from random counts against the definitions."""
import math
import numpy as np
from replay.util import *

RULE = ("random tables of 2..9 rows (counts 0..2000, special codes None/dict, numerical/categorical with or without 'others'); "
        "event-rate/WoE round trips; distinct = distinct inputs")


def cases(rng, tier):
    cnt = lambda: rng.choice([0, 0, 1, 2, 5, 17, 100, 333, 2000, rng.randint(1, 500)])
    while True:
        k = rng.random()
        nb = rng.randint(1, 6)
        spec = rng.choice([None, None, 1, 2, 3])
        ns = spec or 1
        sp = sorted(rng.sample([-5.5, -2, -1.25, 0, 0.5, 1, 2.75, 3, 7, 11.125], nb - 1))
        if k < .5:
            oth = rng.random() < .3
            n = nb + ns + 1 + oth
            e, ne = [cnt() for _ in range(n)], [cnt() for _ in range(n)]
            if sum(e) and sum(ne):
                yield {"t": "bin", "e": e, "ne": ne, "sp": sp, "spec": spec, "cat": oth or rng.random() < .2, "oth": oth,
                       "dig": rng.randint(0, 8), "an": rng.random() < .15, "test": rng.choice(["chi2", "fisher"])}
        elif k < .55:
            n = nb + 2
            e, ne = [cnt() for _ in range(n)], [cnt() for _ in range(n)]
            if sum(e) and sum(ne): yield {"t": "pw", "e": e, "ne": ne, "sp": sp, "dig": 2}
        elif k < .75:
            oth = rng.random() < .3
            n = nb + ns + 1 + oth
            r = [cnt() for _ in range(n)]
            if sum(r):
                s = [0.0 if not x else round(rng.uniform(-3, 9) * x, 3) for x in r]
                yield {"t": "cont", "r": r, "s": s, "sd": [rng.random() for _ in r], "mi": [-1.5 * rng.random() for _ in r],
                       "ma": [5 + rng.random() for _ in r], "z": [rng.randint(0, 3) for _ in r], "sp": sp, "spec": spec,
                       "cat": oth or rng.random() < .2, "oth": oth, "an": rng.random() < .15}
        elif k < .9:
            c = rng.randint(2, 4)
            n = nb + ns + 1
            m = [[cnt() for _ in range(c)] for _ in range(n)]
            if all(sum(x[j] for x in m) for j in range(c)):
                yield {"t": "multi", "m": m, "sp": sp, "spec": spec, "an": rng.random() < .15}
        else:
            yield {"t": "inv", "p": rng.uniform(0.001, .999), "e": rng.randint(1, 5000), "ne": rng.randint(1, 5000),
                   "arr": [rng.uniform(0.001, .999) for _ in range(rng.randint(0, 3))]}


def labels(c, ns):
    d = c.get("dig", 2)
    sp = c["sp"]
    lo = [None] + sp
    hi = sp + [None]
    f = lambda v: "-inf" if v is None else "%.*f" % (d, v)
    out = []
    for i, (a, b) in enumerate(zip(lo, hi)):
        out.append("%s%s, %s)" % ("(" if a is None else "[", f(a), "inf" if b is None else "%.*f" % (d, b)))
    return out


def special(c):
    return None if c["spec"] is None else {"sp%d" % i: -99 - i for i in range(c["spec"])}


def check(c):
    R = Rep()
    from optbinning.binning import binning_statistics as bs, transformations as tr, metrics as m
    if c["t"] == "inv":
        w = tr.transform_event_rate_to_woe(c["p"], c["ne"], c["e"])
        R.eq("event rate to WoE", w, math.log((1 / c["p"] - 1) * c["e"] / c["ne"]))
        R.eq("WoE round trip", tr.transform_woe_to_event_rate(w, c["ne"], c["e"]), c["p"])
        a = np.array(c["arr"])
        R.eq("WoE round trip (array)", tr.transform_woe_to_event_rate(tr.transform_event_rate_to_woe(a, c["ne"], c["e"]), c["ne"], c["e"]), a)
        return R.res()
    n_lab = len(c["sp"]) + 1
    sc = special(c) if "spec" in c else None
    tail = (list(sc) if sc else ["Special"]) + ["Missing"]
    cat = c.get("cat")
    if cat:
        cats = np.array(["c%d" % i for i in range(n_lab)], dtype=object)
        splits = np.arange(1, n_lab) - 0.5
        lab = [["c%d" % i] for i in range(n_lab)] + ([["z1", "z2"]] if c["oth"] else [])
        kw = {"categories": cats, "cat_others": ["z1", "z2"] if c["oth"] else []}
    else:
        splits, kw, lab = np.array(c["sp"]), {}, labels(c, 1)
    want_lab = lab + tail
    if c["t"] in ("bin", "pw"):
        e, ne = np.array(c["e"]), np.array(c["ne"])
        te, tn = e.sum(), ne.sum()
        T = te + tn
        if c["t"] == "pw":
            from optbinning.binning.piecewise.binning_statistics import PWBinningTable
            dm = {"Gini index": .1, "IV (Jeffrey)": .2, "JS (Jensen-Shannon)": .3, "Hellinger": .4, "Triangular": .5, "KS": .6}
            t = PWBinningTable("x", None, splits, np.arange(2. * n_lab).reshape(n_lab, 2), ne, e, 0, 1, dm)
        else:
            t = bs.BinningTable("x", "categorical" if cat else "numerical", sc, splits, ne, e, min_x=-10, max_x=20, **kw)
        d, ex = guarded(lambda: t.build(show_digits=c["dig"]), "build")
        if ex: return ex
        b = d.iloc[:-1]
        tot = d.loc["Totals"]
        got = [list(x) if not isinstance(x, str) else x for x in b["Bin"]]
        R.true("labels", got == want_lab, "%r != %r" % (got, want_lab))
        R.eq("Count", b["Count"], e + ne); R.eq("Count (%)", b["Count (%)"], (e + ne) / T)
        R.eq("Event", b["Event"], e); R.eq("Non-event", b["Non-event"], ne)
        R.eq("total Count", tot["Count"], T); R.eq("total Count (%)", tot["Count (%)"], 1)
        R.eq("total Event", tot["Event"], te); R.eq("total Non-event", tot["Non-event"], tn)
        if c["t"] == "pw":
            return R.res()
        er, woe, iv, js, hel, tri = [], [], [], [], 0, 0
        for a, q in zip(c["e"], c["ne"]):
            if a and q:
                p, r = a / te, q / tn
                er.append(a / (a + q)); woe.append(math.log(r / p)); iv.append((r - p) * math.log(r / p))
                js.append(.5 * (p * math.log(2 * p / (p + r)) + r * math.log(2 * r / (p + r))))
                hel += .5 * (math.sqrt(p) - math.sqrt(r)) ** 2; tri += (p - r) ** 2 / (p + r)
            else:
                er.append(0); woe.append(0); iv.append(0); js.append(0)
        R.eq("Event rate", b["Event rate"], er); R.eq("WoE", b["WoE"], woe); R.eq("IV", b["IV"], iv); R.eq("JS", b["JS"], js, abs_=1e-12)
        R.true("IV >= 0", (b["IV"] >= -1e-12).all())
        R.eq("total Event rate", tot["Event rate"], te / T); R.eq("total IV", tot["IV"], sum(iv)); R.eq("total JS", tot["JS"], sum(js))
        R.eq("iv", t.iv, sum(iv)); R.eq("js", t.js, sum(js)); R.eq("hellinger", t.hellinger, hel); R.eq("triangular", t.triangular, tri)
        R.eq("ks", t.ks, max(abs(np.cumsum(e) / te - np.cumsum(ne) / tn)))
        R.eq("gini", t.gini, m.gini(e, ne))
        sh = (e + ne) / T
        n = len(sh)
        h = (sh ** 2).sum()
        hn = 1 if n == 1 else (h - 1 / n) / (1 - 1 / n)
        nb = n_lab
        if c["an"] and (e[:nb] > 0).all() and (ne[:nb] > 0).all():
            np.random.seed(0)
            t.analysis(pvalue_test=c["test"], print_output=False)
            s2 = 1.0
            for i in range(nb - 1): s2 *= 1 - m.frequentist_pvalue(np.array([ne[i:i + 2], e[i:i + 2]]), c["test"])[1]
            iv_ = sum(iv)
            C = 0.39573882184806863
            R.eq("quality score", t.quality_score, iv_ * math.exp(.5 * (1 - (iv_ / C) ** 2)) / C * s2 * (1 - hn), abs_=1e-12)
        # no totals row when not asked for
        d2 = t.build(add_totals=False)
        R.true("no totals", len(d2) == len(e), len(d2))
        # two dimensional table with the same counts
        if sc is None and not cat and len(e) == n_lab + 2:
            from optbinning.binning.multidimensional.binning_statistics_2d import BinningTable2D
            P = np.zeros((1, n_lab), dtype=int) + np.arange(n_lab)
            sx = [[(lo, hi)] for lo, hi in zip([-np.inf] + c["sp"], c["sp"] + [np.inf])]
            from optbinning.binning.multidimensional.binning_statistics_2d import BinningTable2D
            Bin = lambda a, z: [a, z]
            t2 = BinningTable2D("x", "y", "numerical", "numerical", [Bin(lo, hi) for lo, hi in zip([-np.inf] + c["sp"], c["sp"] + [np.inf])],
                                [Bin(-np.inf, np.inf)] * n_lab, 1, n_lab, ne, e, np.full((1, n_lab), .5), P)
            d3, ex = guarded(lambda: t2.build(), "build2d")
            if ex: return R.out + ex
            b3 = d3.iloc[:-1]
            for col, w in (("Event rate", er), ("WoE", woe), ("IV", iv), ("JS", js), ("Count", e + ne), ("Count (%)", sh)):
                R.eq("2d " + col, b3[col], w, abs_=1e-12)
            R.eq("2d total IV", d3.loc["Totals"]["IV"], sum(iv)); R.eq("2d total JS", d3.loc["Totals"]["JS"], sum(js))
            R.eq("2d total rate", d3.loc["Totals"]["Event rate"], te / T)
    elif c["t"] == "cont":
        r, s = np.array(c["r"]), np.array(c["s"])
        A = np.array
        t = bs.ContinuousBinningTable("x", "categorical" if cat else "numerical", sc, splits, r, s, A(c["sd"]), A(c["mi"]), A(c["ma"]), A(c["z"]),
                                      min_x=-10, max_x=20, **kw)
        d, ex = guarded(lambda: t.build(), "build continuous")
        if ex: return ex
        b, tot = d.iloc[:-1], d.loc["Totals"]
        got = [list(x) if not isinstance(x, str) else x for x in b["Bin"]]
        R.true("labels", got == want_lab, "%r != %r" % (got, want_lab))
        mean = [x / y if y else 0 for x, y in zip(c["s"], c["r"])]
        T, S = sum(c["r"]), sum(c["s"])
        woe = [x - S / T for x in mean]
        iv = [abs(w) * y / T for w, y in zip(woe, c["r"])]
        for col, w in (("Count", r), ("Count (%)", r / T), ("Sum", s), ("Std", c["sd"]), ("Mean", mean), ("Min", c["mi"]), ("Max", c["ma"]),
                       ("Zeros count", c["z"]), ("WoE", woe), ("IV", iv)): R.eq("continuous " + col, b[col], w)
        for col, w in (("Count", T), ("Count (%)", 1), ("Sum", S), ("Mean", S / T), ("Min", min(c["mi"])), ("Max", max(c["ma"])),
                       ("Zeros count", sum(c["z"])), ("WoE", sum(map(abs, woe))), ("IV", sum(iv))): R.eq("continuous total " + col, tot[col], w)
        R.eq("continuous iv", t.iv, sum(iv)); R.eq("continuous woe", t.woe, sum(map(abs, woe)))
    else:
        M = np.array(c["m"])
        k = M.shape[1]
        t = bs.MulticlassBinningTable("x", sc, splits, M, list(range(k)))
        d, ex = guarded(lambda: t.build(), "build multiclass")
        if ex: return ex
        b, tot = d.iloc[:-1], d.loc["Totals"]
        R.true("labels", list(b["Bin"]) == want_lab, "%r" % list(b["Bin"]))
        rec = M.sum(axis=1)
        R.eq("multiclass Count", b["Count"], rec); R.eq("multiclass Count (%)", b["Count (%)"], rec / rec.sum())
        R.eq("multiclass total Count", tot["Count"], rec.sum())
        for j in range(k):
            R.eq("multiclass Event", b["Event_%d" % j], M[:, j])
            R.eq("multiclass Event rate", b["Event_rate_%d" % j], [x[j] / sum(x) if x[j] else 0 for x in c["m"]])
            R.eq("multiclass total Event", tot["Event_%d" % j], M[:, j].sum()); R.eq("multiclass total rate", tot["Event_rate_%d" % j], M[:, j].sum() / M.sum())
        P = M / M.sum(axis=0)
        R.eq("multiclass js", t.js, entropy(P.mean(axis=1)) - sum(entropy(P[:, j]) for j in range(k)) / k, abs_=1e-10)
    return R.res()
