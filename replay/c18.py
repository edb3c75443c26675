"""C18 on the real code: random histories of additions, merges, compressions and queries of quantile sketches, against the list of values added."""
import numpy as np
from replay.util import short
from optbinning.binning.distributed.gk import GK

RULE = "histories of up to 14 operations on three sketches (eps in {.3, .1, .05, .01, 1}), 1 to 200 values per addition, integers with ties or reals"


def cases(rnd, tier):
    while True:
        rng = np.random.RandomState(rnd.randint(0, 2 ** 31 - 1))
        eps = [.3, .1, .05, .01, 1.0][rng.randint(5)]
        ops = []
        for _ in range(rng.randint(2, 15)):
            kind = ["add", "add", "add", "merge", "merge", "compress", "quantile", "copy"][rng.randint(8)]
            a, b = [int(x) for x in rng.choice(3, 2, replace=False)]
            if kind == "add":
                n = int(rng.choice([1, 2, 3, 5, 12, 25, 60, 200]))
                mode = rng.randint(4)
                x = rng.randint(-5, 6, n) if mode == 0 else np.round(rng.normal(size=n), 3) if mode == 1 else np.sort(rng.normal(size=n)) if mode == 2 else -np.arange(n) + rng.randint(0, 9)
                ops.append(["add", a, [float(t) for t in x]])
            elif kind == "merge": ops.append(["merge", a, b])
            elif kind == "copy": ops.append(["copy", a, b])
            else: ops.append([kind, a])
        yield dict(eps=eps, ops=ops, q=sorted(float(t) for t in np.concatenate([rng.random_sample(5), [0, 1, .5]])))


def state(g):
    return [(e.value, e.g, e.delta) for e in g.entries], list(g.incoming), g.n, g._min, g._max


def inspect(g, vals, tag):
    bad = []
    if g.n != len(vals): bad.append(("count", "%s: n is %s after %d values" % (tag, g.n, len(vals))))
    if vals and (g._min != min(vals) or g._max != max(vals)): bad.append(("extremes", "%s: extremes (%s, %s) of values in [%s, %s]" % (tag, g._min, g._max, min(vals), max(vals))))
    w = sum(e.g for e in g.entries) + len(g.incoming)
    if w != len(vals): bad.append(("weight", "%s: entries and buffer weigh %s after %d values" % (tag, w, len(vals))))
    es = [e.value for e in g.entries]
    if es != sorted(es): bad.append(("sorted", "%s: entries out of order" % tag))
    if any(e.g <= 0 for e in g.entries): bad.append(("positive", "%s: an entry weighs %s" % (tag, min(e.g for e in g.entries))))
    if not set(es) <= set(vals): bad.append(("values", "%s: an entry holds a value that was not added" % tag))
    return bad


def check(case):
    G = [GK(case["eps"]) for _ in range(3)]
    V = [[], [], []]
    for op in case["ops"]:
        tag = short(op)
        a = op[1]
        if op[0] == "add":
            for x in op[2]: G[a].add(x); V[a].append(x)
        elif op[0] == "merge":
            before = V[op[2]][:]
            G[a].merge(G[op[2]]); V[a] = V[a] + before
        elif op[0] == "copy":
            G[a].copy(G[op[2]]); V[a] = V[op[2]][:]
        elif op[0] == "compress": G[a].merge_compress()
        elif V[a]: G[a].quantile(.5)
        for k in range(3):
            r = inspect(G[k], V[k], "sketch %d after %s" % (k, tag))
            if r: return r
    for k in range(3):
        if not V[k]:
            try: G[k].quantile(.5); return [("empty", "a quantile of an empty sketch is answered")]
            except ValueError: continue
        qs = [G[k].quantile(q) for q in case["q"]]
        if any(x not in set(V[k]) for x in qs): return [("quantile", "a quantile is not a value that was added")]
        if any(x > y for x, y in zip(qs, qs[1:])): return [("order", "quantiles decrease: %s at %s" % (qs, case["q"]))]
        for q in (-.1, 1.1, -1e-9, 1 + 1e-9):
            try: G[k].quantile(q); return [("range", "quantile(%s) is answered" % q)]
            except ValueError: pass
        w, n = len(G[k]), len(G[k].entries)
        if w != n or G[k].incoming: return [("len", "len does not compress the buffer")]
        r = inspect(G[k], V[k], "sketch %d at the end" % k)
        if r: return r
    a, b = GK(case["eps"]), GK(case["eps"] / 2)
    a.add(1.); b.add(1.)
    try: a.merge(b); return [("mergeable", "sketches of different eps are merged")]
    except Exception: pass
    return None
