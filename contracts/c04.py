"""C04  Divergence measures obey their mathematical laws (optbinning/binning/metrics.py)."""
import z3
from lib.vc import *

M = "optbinning.binning.metrics:"
SEARCH_BUDGET = 40
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "laws of ln, exp and sqrt: ln x <= x - 1, monotone, ln(a/b) = ln a - ln b, sqrt(x)^2 = x",
               "sklearn.utils.check_array returns its argument unchanged for finite arrays",
               "gini: argsort is a permutation that sorts ascending (assumed numpy contract)"]
D = {
    "jeffrey": lambda x, y: xlogy(x - y, x / y),
    "kullback_leibler": lambda x, y: xlogy(x, x / y),
    "jensen_shannon": lambda x, y: (xlogy(x, x / ((x + y) / 2)) + xlogy(y, y / ((x + y) / 2))) / 2,
    "hellinger": lambda x, y: (SQRT(x) - SQRT(y)) * (SQRT(x) - SQRT(y)) / 2,
    "triangular": lambda x, y: (x - y) * (x - y) / (x + y),
}


def inputs(ctx):
    v = VC(ctx)
    n = v.int("n", lambda n: n >= 1)
    X, Y = v.fun("X"), v.fun("Y")
    x = v.arr(n, X, cond=lambda i: X(i) > 0)
    y = v.arr(n, Y, cond=lambda i: Y(i) > 0)
    return v, n, X, Y, x, y


def terms(name):
    def g(ctx):
        v, n, X, Y, x, y = inputs(ctx)
        i = z3.Int("i")
        rng = [i >= 0, i < n, X(i) > 0, Y(i) > 0]
        f = D[name]
        ctx.reachable(name, v.st.pc)
        for s, r in v.returns(name, v.run(M + name, [x, y], {"return_sum": False})):
            v.prove("%s: one term per pair" % name, s, v.eq(v.shape(s, r)[0], n))
            e = v.get(s, r, i)
            v.prove("%s[i] equals its definition" % name, s, v.eq(e, f(X(i), Y(i))), rng)
            if name != "kullback_leibler":
                v.prove("%s[i] >= 0" % name, s, rr(e) >= 0, rng)
                v.prove("%s[i] = 0 for equal arguments" % name, s, rr(e) == 0, rng + [X(i) == Y(i)])
                for s2, r2 in v.returns(name, v.run(M + name, [y, x], {"return_sum": False}, st=s)):
                    v.prove("%s symmetric" % name, s2, v.eq(e, v.get(s2, r2, i)), rng)
        for s, r in v.returns(name, v.run(M + name, [x, y], {"return_sum": True})):
            v.prove("%s(return_sum) is the sum of the terms" % name, s, v.eq(r, v.sum(s, lambda b: f(X(b), Y(b)), 0, n)), timeout=30000)
            if name != "kullback_leibler":
                j = fresh("j")
                t, law = v.sum_atom(s, lambda b: f(X(b), Y(b)), n)
                pos = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(X(j) > 0, Y(j) > 0)))
                v.prove("%s: sum of the terms >= 0" % name, s, rr(t) >= 0, [pos], timeout=30000)
                v.prove("%s(return_sum) >= 0" % name, s, rr(r) >= 0, [law, rr(t) >= 0], timeout=30000, use_facts=False)
                eqh = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), X(j) == Y(j)))
                v.prove("%s: sum of the terms = 0 for equal arguments" % name, s, rr(t) == 0, [pos, eqh], timeout=30000)
        v.done()
    return g


def simple(ctx):
    v = VC(ctx)
    n = v.int("n", lambda n: n >= 1)
    X = v.fun("X")
    x = v.arr(n, X)
    for s, r in v.returns("entropy", v.run(M + "entropy", [x])):
        v.prove("entropy = - sum x ln x", s, v.eq(r, -v.sum(s, lambda b: xlogy(X(b), X(b)), 0, n)))
    for norm in (False, True):
        for s, r in v.returns("hhi", v.run(M + "hhi", [x], {"normalized": norm})):
            h = v.sum(s, lambda b: X(b) * X(b), 0, n)
            exp = h if not norm else z3.If(n == 1, z3.RealVal(1), (h - 1 / z3.ToReal(n)) / (1 - 1 / z3.ToReal(n)))
            v.prove("hhi(normalized=%s) definition" % norm, s, v.eq(r, exp))
    iv, hn = v.real("iv"), v.real("hhi_norm")
    for k in (0, 1, 3):
        P = [v.real("p%d" % q) for q in range(k)]
        prod = z3.RealVal(1)
        for p in P: prod = prod * (1 - p)
        for s, r in v.returns("binning_quality_score", v.run(M + "binning_quality_score", [iv, v.list(P), hn])):
            c = rv(0.39573882184806863)
            exp = iv * EXP((1 - (iv / c) * (iv / c)) / 2) / c * prod * (1 - hn)
            v.prove("binning_quality_score (%d p-values) definition" % k, s, v.eq(r, exp))
        for s, r in v.returns("continuous_binning_quality_score", v.run(M + "continuous_binning_quality_score", [iv, v.list(P), hn])):
            s1 = z3.If(iv == 0, z3.RealVal(0), z3.If(1 - 1 / iv >= 0, 1 - 1 / iv, z3.RealVal(0)))
            v.prove("continuous_binning_quality_score (%d p-values) definition" % k, s, v.eq(r, s1 * prod * (1 - hn)))
        K = v.real("n_classes")
        for s, r in v.returns("multiclass_binning_quality_score", v.run(M + "multiclass_binning_quality_score", [iv, K, v.list(P), hn])):
            c = rv(0.39573882184806863)
            j = iv / LN(K)
            exp = j * EXP((1 - (j / c) * (j / c)) / 2) / c * prod * (1 - hn)
            v.prove("multiclass_binning_quality_score (%d p-values) definition" % k, s, v.eq(r, exp))
    v.done()


def proportions(ctx):
    v = VC(ctx)
    sf = uf("norm_sf")
    v.eng.ext["scipy.stats.norm.sf"] = lambda eng, st, a, k: sf(rr(a[0]))
    e1, n1, e2, n2 = [v.real(x, lambda t: t > 0) for x in ("e1", "ne1", "e2", "ne2")]
    for s, r in v.returns("test_proportions", v.run(M + "test_proportions", [e1, n1, e2, n2])):
        st_, p = v.eng.as_items(r, s)
        a, b = e1 + n1, e2 + n2
        q = (e1 + e2) / (a + b)
        z = (e1 / a - e2 / b) / SQRT(q * (1 - q) * (1 / a + 1 / b))
        v.prove("test_proportions statistic is the pooled z value", s, v.eq(st_, z3.If(z >= 0, z, -z)))
        v.prove("test_proportions p-value is two-sided", s, v.eq(p, 2 * sf(rr(st_))))
    v.done()


def gini(ctx):
    v = VC(ctx)
    n = v.int("n", lambda n: n >= 0)
    E, N = v.fun("E"), v.fun("N")
    e = v.arr(n, E, cond=lambda i: E(i) > 0)
    ne = v.arr(n, N, cond=lambda i: N(i) > 0)
    for s, r in v.returns("gini", v.run(M + "gini", [e, ne])):
        perms = s.ghost.get("perms", ())
        if not perms:
            v.prove("gini of at most one bin is 0", s, z3.And(n <= 1, v.eq(r, 0)))
            continue
        p = perms[-1][0]
        v.prove("gini: sorted form only with two bins or more", s, n >= 2)
        te, tn = v.sum(s, E, 0, n), v.sum(s, N, 0, n)
        exp = 1 - v.sum(s, lambda b: E(p(b)) * (N(p(b)) + 2 * v.sum(s, lambda c: N(p(c)), 0, b)), 0, n) / (te * tn)
        v.prove("gini = 1 - sum e (ne + 2 cumulated ne) / (te tne) in order of the non-event rate", s, v.eq(r, exp), timeout=30000)
        i, j = z3.Ints("i j")
        rate = lambda t: N(p(t)) / (E(p(t)) + N(p(t)))
        v.prove("gini: bins are taken in order of increasing non-event rate", s, z3.Implies(z3.And(0 <= i, i < j, j < n), rate(i) <= rate(j)))
    v.done()


GROUPS = [("terms %s" % k, terms(k), 60) for k in D] + [("simple", simple, 60), ("proportions", proportions, 40), ("gini", gini, 90)]
