"""C12 on the real code: random histories of batches and merges of binning sketches, against the counts of the concatenated data."""
import warnings
import numpy as np
from replay.util import short
from optbinning.binning.distributed.bsketch import BSketch, BCatSketch
from optbinning.binning.distributed.binning_sketch import OptimalBinningSketch

warnings.filterwarnings("ignore")
RULE = "histories of up to 10 operations on three sketches (gk, t-digest, categorical; eps .1 or .01), batches of 1 to 120 records with missing and special values, missing-only and special-only batches; every third case solved as a binning"
CATS = ["a", "b", "c", "d", "e", "f"]


def batch(rng, cat):
    n = int(rng.choice([1, 2, 5, 20, 60, 120]))
    mode = rng.randint(8)
    if cat:
        w = rng.dirichlet(np.ones(len(CATS)))
        x = [str(t) for t in rng.choice(CATS, n, p=w)]
    else: x = [float(t) for t in (rng.randint(0, 12, n) if rng.randint(2) else np.round(rng.normal(5, 3, n), 2))]
    sp = ["s", "z"] if cat else [-99.0, -98.0]
    miss = 1.0 if mode == 0 else .15
    spec = 1.0 if mode == 1 else .15
    for i in range(n):
        if rng.random_sample() < miss: x[i] = None
        elif rng.random_sample() < spec: x[i] = sp[rng.randint(2)]
    y = [int(t) for t in (rng.random_sample(n) < rng.choice([.1, .4, .8]))]
    return [x, y]


def cases(rnd, tier):
    i = 0
    while True:
        i += 1
        rng = np.random.RandomState(rnd.randint(0, 2 ** 31 - 1))
        kind = ["gk", "cat", "t-digest", "cat"][i % 4]
        cat = kind == "cat"
        ops = []
        for _ in range(rng.randint(2, 11)):
            a, b = [int(t) for t in rng.choice(3, 2, replace=False)]
            if rng.randint(3): ops.append(["add", a] + batch(rng, cat))
            else: ops.append(["merge", a, b])
        opt = bool(i % 3 == 0)
        if opt: ops = [["add", k] + batch(rng, cat) for k in range(3)] + ops
        yield dict(kind=kind, eps=float(rng.choice([.1, .01])), special=bool(rng.randint(4)), ops=ops, opt=opt, cutoff=[None, .05, .2][rng.randint(3)],
                   solver=["cp", "mip"][rng.randint(2)], div=["iv", "js"][rng.randint(2)], heur=bool(rng.randint(2)), prebins=int(rng.choice([3, 6, 20])))


def arr(x, cat): return np.array([None if t is None else t for t in x], dtype=object) if cat else np.array([np.nan if t is None else t for t in x])


def counts(D, codes):
    """clean, missing and special (non-events, events)"""
    r = {"missing": [0, 0], "special": [0, 0], "clean": [0, 0]}
    cats = {}
    for x, y in D:
        k = "missing" if x is None else "special" if codes and x in codes else "clean"
        r[k][y] += 1
        if k == "clean": cats.setdefault(x, [0, 0])[y] += 1
    return r, cats


def check(case):
    cat = case["kind"] == "cat"
    codes = (["s", "z"] if cat else [-99.0, -98.0]) if case["special"] else None
    if case["opt"]:
        mk = lambda: OptimalBinningSketch(dtype="categorical" if cat else "numerical", sketch="gk" if cat else case["kind"], eps=case["eps"], special_codes=codes, cat_cutoff=case["cutoff"] if cat else None,
                                          solver=case["solver"], mip_solver="cbc", divergence=case["div"], cat_heuristic=case["heur"], max_n_prebins=case["prebins"], time_limit=20)
    elif cat: mk = lambda: BCatSketch(case["cutoff"], codes)
    else: mk = lambda: BSketch(case["kind"], case["eps"], 25, codes)
    G, V = [mk() for _ in range(3)], [[], [], []]
    for q, op in enumerate(case["ops"]):
        a = op[1]
        tag = "step %d (%s %s)" % (q, op[0], short(op[1:])[:60])
        if op[0] == "add":
            G[a].add(arr(op[2], cat), np.array(op[3])); V[a] = V[a] + list(zip(op[2], op[3]))
        else:
            G[a].merge(G[op[2]]); V[a] = V[a] + V[op[2]]
        bad = []
        for k in range(3): bad += inspect(G[k]._bsketch if case["opt"] else G[k], V[k], case, cat, codes, "sketch %d after %s" % (k, tag))
        if bad: return bad
    for k in range(3):
        r, cats = counts(V[k], codes)
        if not V[k]: continue
        bad = bins(G[k]._bsketch if case["opt"] else G[k], V[k], r, cats, case, cat, "sketch %d" % k)
        if bad: return bad
        if case["opt"] and min(r["clean"]) > 0 and sum(r["clean"]) > 20:
            bad = table(G[k], r, cats, case, cat, "sketch %d" % k)
            if bad: return bad
    return None


def inspect(g, D, case, cat, codes, tag):
    if g is None: return []
    r, cats = counts(D, codes)
    bad = []
    want = {"_count_missing_ne": r["missing"][0], "_count_missing_e": r["missing"][1], "_count_special_ne": r["special"][0], "_count_special_e": r["special"][1],
            "n_nonevent": sum(x[0] for x in r.values()), "n_event": sum(x[1] for x in r.values()), "n": len(D)}
    for nm, w in want.items():
        if getattr(g, nm) != w: bad.append((nm.strip("_"), "%s: %s is %s, the data has %s" % (tag, nm, getattr(g, nm), w)))
    if cat:
        got = {k: [int(t) for t in v] for k, v in g._d_categories.items()}
        if got != cats: bad.append(("categories", "%s: categories %s, the data has %s" % (tag, short(got), short(cats))))
    return bad


def bins(g, D, r, cats, case, cat, tag):
    bad = []
    if not cat:
        if case["kind"] != "gk" or not sum(r["clean"]): return None
        v = sorted(x for x in {d[0] for d in D} if x is not None)
        for sp in ([], v[len(v) // 2:len(v) // 2 + 1], v[1:-1:3]):
            e, ne = g.bins(np.array(sp))
            if len(e) != len(sp) + 1 or len(ne) != len(sp) + 1: bad.append(("bins", "%s: %d bins for %d splits" % (tag, len(e), len(sp))))
            if e.sum() != r["clean"][1] or ne.sum() != r["clean"][0]: bad.append(("bins", "%s: bins hold %d events and %d non-events of %s" % (tag, e.sum(), ne.sum(), r["clean"][::-1])))
        return bad
    if not cats: return None
    sp, c, ne, e, oc, one, oe = g.bins()
    seen = {}
    for k, a, b in zip(c, ne, e): seen.setdefault(k, []).append([int(a), int(b)])
    if case["cutoff"] is None: rare = set()
    else: rare = {k for k, v in cats.items() if sum(v) / len(D) < case["cutoff"]}
    if set(oc) != rare or len(oc) != len(rare): bad.append(("others", "%s: others %s, rare categories %s" % (tag, sorted(oc), sorted(rare))))
    if seen != {k: [v] for k, v in cats.items() if k not in rare}: bad.append(("bins", "%s: bins %s for categories %s" % (tag, short(seen), short(cats))))
    if case["cutoff"] is not None:
        w = [sum(cats[k][q] for k in rare) for q in (0, 1)]
        if [int(one), int(oe)] != w: bad.append(("others", "%s: others hold %s records, want %s" % (tag, [one, oe], w)))
    rate = [b / (a + b) for a, b in zip(ne, e)]
    if any(x > y + 1e-12 for x, y in zip(rate, rate[1:])): bad.append(("order", "%s: event rates %s" % (tag, rate)))
    if len(sp) != max(len(c) - 1, 0): bad.append(("splits", "%s: %d splits for %d categories" % (tag, len(sp), len(c))))
    return bad


def table(o, r, cats, case, cat, tag):
    if case["kind"] == "t-digest": return None           # fractional weights are cut off (not claimed)
    try: o.solve()
    except (IndexError, ValueError, UnboundLocalError) as e: return None           # nothing left to bin (one class per pre-bin): not part of this property
    if o.status not in ("OPTIMAL", "FEASIBLE"): return None
    t = o.binning_table.build(show_digits=8)
    bad = []
    tot = t.loc["Totals"]
    rows = t.drop("Totals")
    N, E = sum(map(sum, r.values())), sum(x[1] for x in r.values())
    def has(nm, got, want):
        if got != want: bad.append((nm, "%s: %s is %s, the data has %s" % (tag, nm, got, want)))
    has("total count", int(tot["Count"]), N)
    has("total events", int(tot["Event"]), E)
    has("rows", int(rows["Count"].sum()), N)
    for nm in ("special", "missing"):
        row = rows[rows["Bin"].astype(str) == nm.capitalize()]
        if len(row) != 1: bad.append((nm, "%s: %d rows named %s" % (tag, len(row), nm.capitalize()))); continue
        has(nm, [int(row["Non-event"].iloc[0]), int(row["Event"].iloc[0])], r[nm])
    if cat:
        for _, row in rows.iterrows():
            b = row["Bin"]
            if isinstance(b, str): continue
            has("counts of a bin", [int(row["Non-event"]), int(row["Event"])], [sum(cats[k][q] for k in b) for q in (0, 1)])
        every = [k for b in rows["Bin"] if not isinstance(b, str) for k in b]
        has("categories of the bins", sorted(every), sorted(cats))
    return bad or None
