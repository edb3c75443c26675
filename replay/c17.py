"""C17 on the real code: random grids and bounds given to the model builders and solvers, and random two-dimensional data fitted, against direct enumeration."""
import warnings
import numpy as np
from replay.util import Rep, short
from optbinning import OptimalBinning2D, ContinuousOptimalBinning2D
from optbinning.binning.multidimensional.model_data_2d import model_data, continuous_model_data
from optbinning.binning.multidimensional.cp_2d import Binning2DCP
from optbinning.binning.multidimensional.mip_2d import Binning2DMIP

warnings.filterwarnings("ignore")
RULE = "grids of up to 5 x 5 cells with counts 0 to 9 and random bounds, and fits of 30 to 150 records of two variables (missing, special and constant values; grid and cart strategies; cp and mip; binary and continuous targets)"


def cases(rnd, tier):
    i = 0
    while True:
        i += 1
        rng = np.random.RandomState(rnd.randint(0, 2 ** 31 - 1))
        opt = lambda p, f: f() if rng.random_sample() < p else None
        if i % 2:
            m, n = [int(t) for t in rng.randint(1, 6 if i % 4 == 1 else 4, 2)]
            hi = int(rng.choice([2, 10]))
            yield dict(kind="grid", cont=bool(rng.randint(2)), A=rng.randint(0, hi, (m, n)).tolist(), B=rng.randint(0, hi, (m, n)).tolist(), C=rng.randint(0, 50, (m, n)).tolist(),
                       size=[opt(.4, lambda: int(rng.randint(1, 8))), opt(.4, lambda: int(rng.randint(8, 40)))], ev=[opt(.3, lambda: int(rng.randint(1, 5))), opt(.3, lambda: int(rng.randint(4, 20)))],
                       nev=[opt(.3, lambda: int(rng.randint(1, 5))), opt(.3, lambda: int(rng.randint(4, 20)))], nb=[opt(.4, lambda: int(rng.randint(1, 4))), opt(.4, lambda: int(rng.randint(4, 8)))],
                       solver=["cp", "mip"][rng.randint(2)], gamma=float(rng.choice([0, 0, .1])), tx=[None, None, "ascending", "descending"][rng.randint(4)], ty=[None, None, "ascending", "descending"][rng.randint(4)],
                       div=["iv", "js", "hellinger", "triangular"][rng.randint(4)], solve=m * n <= 12)
        else:
            N = int(rng.choice([30, 80, 150]))
            def col():
                k = rng.randint(5)
                x = rng.normal(0, 1, N) if k < 2 else rng.randint(0, [3, 12][k - 2], N).astype(float) if k < 4 else np.full(N, 1.0)
                mk = lambda p, val: x.__setitem__(rng.random_sample(N) < p, val)
                if rng.randint(2): mk(.1, np.nan)
                if rng.randint(2): mk(.1, -99.0)
                return x
            x, y = col(), col()
            cont = bool(rng.randint(2))
            s = np.nan_to_num(x) - np.nan_to_num(y)
            z = np.round(s + rng.normal(0, 1, N), 2) if cont else (rng.random_sample(N) < 1 / (1 + np.exp(-s / 3))).astype(int)
            yield dict(kind="fit", cont=cont, x=[None if t != t else float(t) for t in x], y=[None if t != t else float(t) for t in y], z=z.tolist(),
                       par=dict(solver=["cp", "mip"][rng.randint(2)], strategy=["grid", "grid", "cart"][rng.randint(3)], prebinning_method=["cart", "cart", "quantile", "uniform"][rng.randint(4)], max_n_prebins_x=int(rng.randint(2, 6)), max_n_prebins_y=int(rng.randint(2, 5)),
                                min_n_bins=opt(.4, lambda: int(rng.randint(1, 4))), max_n_bins=opt(.4, lambda: int(rng.randint(4, 8))), min_bin_size=opt(.4, lambda: float(rng.choice([.01, .05, .1]))),
                                max_bin_size=opt(.3, lambda: float(rng.choice([.3, .6, .9]))), gamma=float(rng.choice([0, 0, .1])), time_limit=20, special_codes_x=[None, [-99.0]][rng.randint(2)],
                                special_codes_y=[None, [-99.0]][rng.randint(2)], monotonic_trend_x=[None, None, "ascending"][rng.randint(3)], monotonic_trend_y=[None, None, "descending"][rng.randint(3)]),
                       ev=[opt(.3, lambda: int(rng.randint(1, 4))), opt(.3, lambda: int(rng.randint(10, 40)))], nev=[opt(.3, lambda: int(rng.randint(1, 4))), opt(.3, lambda: int(rng.randint(10, 40)))])


def check(case):
    R = Rep()
    (grid if case["kind"] == "grid" else fit)(case, R)
    return R.res()


def within(R, key, v, lo, hi):
    R.true(key, (lo is None or v >= lo) and (hi is None or v <= hi), "%r not within [%r, %r]" % (v, lo, hi))


def grid(case, R):
    A, B, C = [np.array(case[k]) for k in "ABC"]
    m, n = A.shape
    sc = 1000000 if case["solver"] == "cp" else None
    if case["cont"]:
        rec = A + B
        if rec.sum() == 0: return
        _, nr, rows, cols, c, dx, dy, rate, nrec, sums, stds = continuous_model_data(rec, C.astype(float), (C * C).astype(float), case["tx"], case["ty"], sc, *case["size"])
        tot = [(nrec, rec, case["size"]), (sums, C, [None, None])]
    else:
        if A.sum() == 0 or B.sum() == 0: return
        _, nr, rows, cols, c, dx, dy, rate, ne, nn, nrec = model_data(case["div"], A, B, case["tx"], case["ty"], sc, *(case["size"] + case["ev"] + case["nev"]))
        tot = [(ne, B, case["ev"]), (nn, A, case["nev"]), (nrec, A + B, case["size"])]
    R.true("as many rectangles as lists of cells", nr == len(rows) and all(len(t) == nr for t, _, _ in tot), "")
    shapes = set()
    for q, r in enumerate(rows):
        r = [int(t) for t in r]
        ii, jj = [t // n for t in r], [t % n for t in r]
        full = sorted(n * a + b for a in range(min(ii), max(ii) + 1) for b in range(min(jj), max(jj) + 1))
        R.true("a candidate is a rectangle", sorted(r) == full and all(0 <= t < m * n for t in r), "row %s on a %d x %d grid" % (short(r), m, n))
        shapes.add(tuple(sorted(r)))
        for t, G, (lo, hi) in tot:
            R.eq("totals of a rectangle are those of its cells", t[q], G.ravel()[r].sum(), "rectangle %s" % short(r))
            within(R, "totals of a rectangle within the bounds", t[q], lo, hi)
    R.true("candidates are different", len(shapes) == len(rows), "")
    for j in range(m * n):
        R.true("a candidate is listed at exactly the cells it covers", sorted(cols[j]) == [q for q, r in enumerate(rows) if j in list(r)], "cell %d: %s" % (j, short(list(cols[j]))))
    if not case["solve"] or nr == 0: return
    O = (Binning2DCP if case["solver"] == "cp" else Binning2DMIP)(case["tx"], case["ty"], case["nb"][0], case["nb"][1], 0, 0, case["gamma"], 1, 10)
    O.build_model(m * n, nr, cols, c, dx, dy, rate, nrec)
    st, sol = O.solve()
    if st not in ("OPTIMAL", "FEASIBLE"):
        R.true("nothing is selected without a solution", not np.any(sol), st)
        return
    tiling(R, [rows[q] for q in range(nr) if sol[q]], m * n, case["nb"])


def tiling(R, sel, cells, nb):
    cover = [0] * cells
    for r in sel:
        for t in r: cover[int(t)] += 1
    R.true("every cell is covered by exactly one selected rectangle", all(t == 1 for t in cover), short(cover))
    within(R, "number of rectangles within the bounds", len(sel), *nb)


def fit(case, R):
    x, y = [np.array([np.nan if t is None else t for t in case[k]]) for k in "xy"]
    z = np.array(case["z"])
    p = dict(case["par"])
    if not case["cont"]: p.update(min_bin_n_event=case["ev"][0], max_bin_n_event=case["ev"][1], min_bin_n_nonevent=case["nev"][0], max_bin_n_nonevent=case["nev"][1])
    if p["min_bin_size"] and p["max_bin_size"] and p["min_bin_size"] > p["max_bin_size"]: return
    clean = ~np.isnan(x) & ~np.isnan(y)
    spec = np.zeros(len(x), dtype=bool)
    if p["special_codes_x"]: spec |= x == -99.0
    if p["special_codes_y"]: spec |= y == -99.0
    clean &= ~spec
    miss = np.isnan(x) | np.isnan(y)
    if clean.sum() < 10 or (not case["cont"] and not 0 < z[clean].sum() < clean.sum()): return
    o = (ContinuousOptimalBinning2D if case["cont"] else OptimalBinning2D)(**p)
    try:
        o.fit(x, y, z)
    except ValueError as e:
        if "max_leaf_nodes" in str(e): return          # the cart strategy needs two splits or more
        raise
    except ZeroDivisionError:
        if p["gamma"]: return          # no candidate rectangle at all: no solution
        raise
    if o.status not in ("OPTIMAL", "FEASIBLE"): return
    t = o.binning_table
    m, n = o._m, o._n
    k = len(o._selected_rows)
    tiling(R, o._selected_rows, m * n, [p["min_n_bins"], p["max_n_bins"]])
    sx, sy = o.splits
    R.true("a pair of intervals for every bin", len(sx) == len(sy) == k, "")
    inside = [clean & (x >= a[0]) & (x < a[1]) & (y >= b[0]) & (y < b[1]) for a, b in zip(sx, sy)]
    R.true("every clean record is in exactly one bin", bool((sum(q.astype(int) for q in inside) == clean.astype(int)).all()), "")
    parts = inside + [spec, miss]
    size = [int(np.ceil(p[q] * len(x))) if p[q] else None for q in ("min_bin_size", "max_bin_size")]
    N = t.n_records if case["cont"] else t.n_nonevent + t.n_event
    R.true("a count for every bin", len(N) == k + 2, "")
    for q, mask in enumerate(parts):
        R.eq("records of a bin", N[q], mask.sum(), "bin %d" % q)
        if case["cont"]: R.eq("sum of a bin", t.sums[q], z[mask].sum(), "bin %d" % q, rel=1e-7, abs_=1e-7)
        else:
            R.eq("events of a bin", t.n_event[q], z[mask].sum(), "bin %d" % q)
            R.eq("non-events of a bin", t.n_nonevent[q], (1 - z[mask]).sum(), "bin %d" % q)
        if q < k:
            within(R, "records of a bin within the bounds", N[q], *size)
            if not case["cont"]: within(R, "events of a bin within the bounds", t.n_event[q], *case["ev"]); within(R, "non-events of a bin within the bounds", t.n_nonevent[q], *case["nev"])
    P, D = np.asarray(t.P), np.asarray(t.D)
    for q, r in enumerate(o._selected_rows):
        R.true("the cells of the grid are those of the bin", set(np.flatnonzero(P.ravel() == q)) == set(int(a) for a in r), "bin %d" % q)
        rate = (t.sums[q] if case["cont"] else t.n_event[q]) / N[q]
        R.eq("the rate of the cells is that of the bin", D.ravel()[[int(a) for a in r]], [rate] * len(r), "bin %d" % q)
