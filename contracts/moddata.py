"""Contracts over the aggregated data handed to the models (shared by C06 and C07)."""
import z3
from lib.vc import *

B = "optbinning.binning."
MD = B + "model_data:"
UPPER = {"jeffrey": "iv", "jensen_shannon": "js", "hellinger": "hellinger", "triangular": "triangular"}


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def data(kind, div="iv", scale=None, pv=True, diff=True, what=("rates", "lists")):
    """model_data, multiclass_model_data and continuous_model_data: aggregates of every group of consecutive pre-bins j..i"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        n = v.int("n", lambda n: n >= 1)
        K = 3
        i, j, c = z3.Ints("i j c")
        METR = {nm: v.fun("div_" + nm, REAL, REAL, REAL) for nm in UPPER}
        def metric(nm):
            def f(eng, s, a, k):
                p, q = [eng.as_arr(z, s) for z in a[:2]]
                if len(a) > 2 or k: raise Unsupported("divergence with options")
                return s.alloc(HArr(Arr(p.shape, lambda t: METR[nm](rr(p.fn(t)), rr(q.fn(t))), "float")))
            return f
        for nm in UPPER: v.eng.contracts[B + "metrics." + nm] = metric(nm)
        calls = []
        def find(f):
            names = [a.arg for a in v.eng.func(MD + f).node.args.args]
            def h(eng, s, a, k):
                d = dict(zip(names, a)); d.update(k); d["!f"] = f; calls.append(d); d["!r"] = Opaque("list %d" % len(calls))
                return d["!r"]
            v.eng.contracts[B + "model_data." + f] = h
        for f in ("find_pvalue_violation_indices", "find_pvalue_violation_indices_continuous", "find_min_diff_violation_indices"): find(f)
        PV, PO, DI = (z3.Real("pv") if pv else None), "all", (z3.Real("diff") if diff else 0)
        if diff: st.assume(DI > 0)
        if kind == "cont":
            R, SU, SS = v.fun("R"), v.fun("SU"), v.fun("SS")
            v.all(n, lambda t: R(t) > 0)
            fn, args = "continuous_model_data", [v.arr(n, R), v.arr(n, SU), v.arr(n, SS), PV, PO, DI]
            classes = [None]
        elif kind == "multi":
            NE, E = v.fun("NE", REAL, INT, INT), v.fun("E", REAL, INT, INT)
            st.assume(z3.ForAll([i, c], z3.Implies(z3.And(i >= 0, i < n, c >= 0, c < K), z3.And(NE(i, c) >= 0, E(i, c) >= 0, NE(i, c) + E(i, c) > 0))))
            fn, args = "multiclass_model_data", [v.arr2(n, K, NE), v.arr2(n, K, E), PV, PO, DI]
            classes = list(range(K))
        else:
            NE, E = v.fun("NE"), v.fun("E")
            v.all(n, lambda t: z3.And(NE(t) >= 0, E(t) >= 0, NE(t) + E(t) > 0))
            fn, args = "model_data", [div, v.arr(n, NE), v.arr(n, E), PV, PO, DI]
            classes = [None]
        if scale: args.append(scale)
        ctx.function(MD + fn)
        col = lambda F, cl: (lambda t: F(t, z3.IntVal(cl))) if cl is not None else F
        for s, r in v.returns(fn, v.run(MD + fn, args)):
            out = [v.eng.as_items(x, s) for x in r] if kind == "multi" else [[x] for x in r]
            if any(o is None for o in out):
                ctx.fact("a value for every class", False); continue
            ctx.fact("a value for every class", all(len(o) == len(classes) for o in out))
            todo = list(calls)
            for q, cl in enumerate(classes):
                rngs = [0 <= j, j <= i, i < n]
                tag = "" if cl is None else " of class %d" % cl
                s2 = s.fork()
                S = lambda F: v.sum(s2, col(F, cl), j, i + 1)
                T = lambda F: v.sum(s2, col(F, cl), 0, n)
                if kind == "cont":
                    cnt, sums_, ssums_ = S(R), S(SU), S(SS)
                    rate = rr(sums_) / rr(cnt)
                    tm = rr(T(SU)) / rr(T(R))
                    val = z3.If(rate - tm >= 0, rate - tm, tm - rate)
                    pos = [rr(cnt) > 0, rr(T(R)) > 0]
                else:
                    e, ne = rr(S(E)), rr(S(NE))
                    rate = e / (ne + e)
                    te, tne = rr(T(E)), rr(T(NE))
                    nm = {w: k for k, w in UPPER.items()}[div]
                    val = METR[nm](e / te, ne / tne)
                    pos = [e + ne > 0, te > 0, tne > 0]
                def cell(x, a, b):
                    t = v.eng.as_arr(x, s).fn(a)
                    return (t if isinstance(t, Arr) else v.eng.as_arr(t, s)).fn(b)
                def jag(label, x, want, sc):
                    a = v.eng.as_arr(x, s)
                    ok = a is not None and len(a.shape) == 1 and a.mask is None
                    if not ok: ctx.fact(label + " for every group of pre-bins", False); return
                    v.prove("a row for every pre-bin", s2, rv(a.n) == n)
                    w = want if not sc else rr(trunc(rr(want) * sc))
                    v.prove(label, s2, rr(cell(x, i, j)) == rr(w), rngs + pos, timeout=20000)
                D, V = out[0][q], out[1][q]
                if "rates" in what:
                    jag("%s of every group%s" % ("mean" if kind == "cont" else "event rate", tag), D, rate, scale)
                if "value" in what: jag("contribution of every group%s" % tag, V, val, scale)
                if "lists" in what:
                    lp, ld = out[2][q], out[3][q]
                    fp = "find_pvalue_violation_indices" + ("_continuous" if kind == "cont" else "")
                    for lst, on, f, lab in ((lp, pv, fp, "p-value"), (ld, diff, "find_min_diff_violation_indices", "difference")):
                        if not on:
                            it = v.eng.as_items(lst, s) if not isinstance(lst, Opaque) else [1]
                            ctx.fact("no %s list without a %s%s" % (lab, lab, tag), it is not None and len(it) == 0); continue
                        d = [x for x in calls if x["!f"] == f and x["!r"] is lst]
                        ctx.fact("the %s list is that of all failing pairs%s" % (lab, tag), len(d) == 1)
                        if len(d) != 1: continue
                        d = d[0]
                        v.prove("%s: over all pre-bins%s" % (lab, tag), s, rv(d["n"]) == n)
                        if lab == "p-value":
                            v.prove("the maximum p-value is the requested one%s" % tag, s, v.eq(d["max_pvalue"], PV))
                            ctx.fact("the policy is the requested one%s" % tag, d["max_pvalue_policy"] == PO)
                            if kind == "cont":
                                sd = rr(ssums_) / rr(cnt) - rate * rate
                                jag("p-value test: means%s" % tag, d["U"], rate, None); jag("p-value test: records%s" % tag, d["R"], cnt, None)
                                jag("p-value test: deviations%s" % tag, d["S"], SQRT(z3.If(sd >= 0, sd, z3.RealVal(0))), None)
                            else:
                                jag("p-value test: events%s" % tag, d["E"], e, None); jag("p-value test: non-events%s" % tag, d["NE"], ne, None)
                        else:
                            sc = scale if kind != "cont" else None
                            jag("minimum difference: rates%s" % tag, d["X"], rate, sc)
                            v.prove("the minimum difference is the requested one%s" % tag, s, rr(d["min_diff"]) == (rr(trunc(DI * sc)) if sc else DI))
        v.done()
    return g


def find(which, policy="consecutive"):
    """every failing pair of consecutive groups is listed, and only pairs of disjoint groups in order are"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        n = v.int("n", lambda n: n >= 1)
        i, j, r = z3.Ints("i j r")
        mat = lambda F: st.alloc(HArr(Arr((n,), lambda a: Arr((rv(a) + 1,), lambda b: F(rv(a), rv(b)), "float"), "nested", islist=True)))
        F = [v.fun("M%d" % q, REAL, INT, INT) for q in range(3)]
        lim = z3.Real("limit")
        if which == "diff":
            fn, args = "find_min_diff_violation_indices", [n, mat(F[0]), lim]
            x, y = F[0](i, r), F[0](j, i + 1)
            bad = z3.If(x - y >= 0, x - y, y - x) < lim
        elif which == "pvalue":
            TP = v.fun("differ_insignificantly", BOOL, REAL, REAL, REAL, REAL, REAL)
            v.eng.contracts[B + "model_data.test_proportions"] = lambda eng, s, a, k: TP(*[rr(q) for q in a])
            PPF = v.fun("norm_ppf", REAL, REAL)
            v.eng.ext["scipy.stats.norm.ppf"] = lambda eng, s, a, k: PPF(rr(a[0]))
            fn, args = "find_pvalue_violation_indices", [n, mat(F[0]), mat(F[1]), lim, policy]
            bad = TP(F[0](i, r), F[1](i, r), F[0](j, i + 1), F[1](j, i + 1), PPF(1 - lim / 2))
        else:
            PVAL = v.fun("welch_pvalue", REAL, REAL, REAL, REAL, REAL, REAL, REAL)
            def tt(eng, s, a, k):
                if len(a) != 7 or a[6] is not False or k: raise Unsupported("t-test variant")
                return (z3.Real("t_statistic"), PVAL(*[rr(q) for q in a[:6]]))
            v.eng.ext["scipy.stats.ttest_ind_from_stats"] = tt
            fn, args = "find_pvalue_violation_indices_continuous", [n, mat(F[0]), mat(F[1]), mat(F[2]), lim, policy]
            bad = PVAL(F[0](i, r), F[1](i, r), F[2](i, r), F[0](j, i + 1), F[1](j, i + 1), F[2](j, i + 1)) > lim
        ctx.function(MD + fn)
        for s, out in v.returns(fn, v.run(MD + fn, args)):
            rec = s.get(out)
            items = getattr(rec, "items", None)
            if type(rec).__name__ not in ("HFam", "HList"): raise Unsupported("violation list as %s" % type(rec).__name__)
            goals = []
            for it in items:
                g_, val, bound = it[0], it[1], it[2] if len(it) > 2 else ()
                comps = flat(v, s, val)
                if len(comps) != 4: ctx.fact("an item is a pair of index pairs", False); return
                a, b, c, d = comps
                v.prove("listed pairs are groups of pre-bins, the second after the first", s, z3.And(0 <= b, b <= a, a < d, d <= c, c < n), [bz(g_)])
                want = [i, r, j, i + 1]
                sub, left, cur = [], list(bound), list(comps)
                for _ in bound:
                    for bd in list(left):
                        for cp, w in zip(cur, want):
                            o = z3.simplify(cp - bd)
                            if not any(sums.has(o, q) for q in left):
                                t = z3.simplify(w - o)
                                sub.append((bd, t)); left.remove(bd)
                                cur = [z3.substitute(q, (bd, t)) for q in cur]
                                break
                        if bd not in left: break
                goals.append(z3.substitute(z3.And(bz(g_), *[x == w for x, w in zip(comps, want)]), *sub))
            v.prove("every failing pair of consecutive groups is listed", s, z3.Or(*goals) if goals else z3.BoolVal(False), [0 <= r, r <= i, i < j, j < n, bad], timeout=10000)
        v.done()
    return g


def flat(v, s, val):
    if is_num(val) or is_z3(val): return [rv(val)]
    if isinstance(val, (tuple, list)): return [q for x in val for q in flat(v, s, x)]
    a = val if isinstance(val, Arr) else v.eng.as_arr(val, s)
    if a is None: it = v.eng.as_items(val, s); return [q for x in it for q in flat(v, s, x)]
    m = conc(a.n)
    return [q for t in range(m) for q in flat(v, s, a.fn(t))]


def proportions(ctx):
    """test_proportions: the two-proportion z statistic below the critical value"""
    v = VC(ctx)
    e1, n1, e2, n2, z = (z3.Real(q) for q in ("e1", "ne1", "e2", "ne2", "zc"))
    v.st.assume(z3.And(e1 >= 0, n1 >= 0, e2 >= 0, n2 >= 0, e1 + n1 > 0, e2 + n2 > 0, e1 + e2 > 0, n1 + n2 > 0))
    ctx.function(MD + "test_proportions")
    for s, r in v.returns("test_proportions", v.run(MD + "test_proportions", [e1, n1, e2, n2, z])):
        t1, t2 = e1 + n1, e2 + n2
        p = (e1 + e2) / (t1 + t2)
        se = SQRT(p * (1 - p) * (1 / t1 + 1 / t2))
        st_ = (e1 / t1 - e2 / t2) / se
        v.prove("insignificant when |z| is below the critical value", s, bz(r) == (z3.If(st_ >= 0, st_, -st_) < z), [se > 0])
    v.done()


def groups(what):
    out = []
    for kind in ("bin", "multi", "cont"):
        for scale in (None, 10 ** 6):
            if kind == "cont" and scale is None: continue
            divs = ("iv", "js", "hellinger", "triangular") if kind == "bin" and "value" in what else ("iv",)
            for div in divs:
                cfgs = ((True, True), (False, False), (True, False), (False, True)) if "lists" in what else ((False, False),)
                def many(kind=kind, scale=scale, div=div, cfgs=cfgs):
                    def g(ctx):
                        for pv, diff in cfgs: data(kind, div, scale, pv, diff, what)(ctx)
                    return g
                out.append(("data %s%s%s" % (kind, " scaled" if scale else "", " " + div if len(divs) > 1 else ""), many(), 90))
    return out
