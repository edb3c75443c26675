"""C01  Transform gives every record the metric of its own bin (optbinning/binning/transformations.py)."""
import z3
from lib.vc import *

M = "optbinning.binning.transformations"
SEARCH_BUDGET = 60
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles", "numpy.digitize(x, splits)[i] is the number of splits <= x[i] (increasing splits)",
               "pandas.Series.isin(values)[i] iff x[i] equals one of the values; groups and unknown objects: an uninterpreted membership predicate",
               "numpy.isnan / pandas.isnull is the missing predicate of the record",
               "splits are strictly increasing, category groups are pairwise disjoint and contain no special code (established by fit: C02)"]
R0 = z3.RealVal(0)


def setup(ctx, special, cat=False, n_bins_min=1):
    v = VC(ctx)
    st = v.st
    m = v.int("m", lambda m: m >= 0)
    ns = v.int("ns", lambda t: t >= 0)
    S = v.fun("S")
    i, j = z3.Ints("i j")
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ns), S(i) < S(j))))
    splits = v.arr(ns, S)
    X, MISS = v.fun("X"), v.fun("MISS", BOOL)
    x = v.arr(m, X, nan=MISS)
    s1, s2, s3 = z3.Reals("s1 s2 s3")
    if special == "none": codes, sets = None, []
    elif special == "list": codes, sets = v.list([s1, s2]), [[s1, s2]]
    else: codes, sets = st.alloc(HDict({"a": s1, "b": v.list([s2, s3])})), [[s1], [s2, s3]]
    if special == "dict": st.assume(z3.Distinct(s1, s2, s3))
    return v, st, m, ns, S, splits, X, MISS, x, codes, sets


def spec_row(k, X, MISS, S, ns, sets, nb):
    """row index as a relation: (condition, row term) cases for record k, with the bin index b of a clean record"""
    insets = [z3.Or(*[X(k) == c for c in s]) for s in sets]
    anys = z3.Or(*insets) if insets else z3.BoolVal(False)
    return insets, anys


def target_calls(kind, v, st, nb, nsp, splits, codes, x, cat=None):
    rows = nb + nsp + 1
    if kind == "multi":
        E = v.fun("E", INT, INT, INT)
        ev = v.arr2(rows, 2, E)
        st.assume(z3.ForAll([z3.Int("i"), z3.Int("j")], E(z3.Int("i"), z3.Int("j")) >= 0))
        return [("E", E)], lambda metric, ms, mm, unk: ("transform_multiclass_target", [splits, x, ev, codes, metric, ms, mm, 2])
    A, B = v.fun("A", INT), (v.fun("B", INT) if kind == "bin" else v.fun("B"))
    a = v.arr(rows, A, cond=lambda i: A(i) >= 0)
    b = v.arr(rows, B, cond=(lambda i: B(i) >= 0) if kind == "bin" else None)
    if kind == "bin":
        st.assume(v.sum(st, A, 0, rows) > 0); st.assume(v.sum(st, B, 0, rows) > 0)
    else: st.assume(v.sum(st, A, 0, nb) > 0)
    dt = "numerical" if cat is None else "categorical"
    cs, co = (None, None) if cat is None else cat
    if kind == "bin":
        return (A, B), lambda metric, ms, mm, unk: ("transform_binary_target", [splits, dt, x, a, b, codes, cs, co, unk, metric, ms, mm, None, 2])
    return (A, B), lambda metric, ms, mm, unk: ("transform_continuous_target", [splits, dt, x, a, b, codes, cs, co, unk, metric, ms, mm, None, 2, False])


def row_value(v, s, kind, metric, fs, r, rows, nb):
    """value the table's row r shows for the metric"""
    if metric == "indices": return r
    if kind == "bin":
        A, B = fs                       # non-events, events
        tn, te = v.sum(s, A, 0, rows), v.sum(s, B, 0, rows)
        e, n = z3.ToReal(B(r)), z3.ToReal(A(r))
        pos = z3.And(B(r) > 0, A(r) > 0)
        if metric == "event_rate": return z3.If(pos, e / (e + n), R0)
        return z3.If(pos, LN((1 / (e / (e + n)) - 1) * z3.ToReal(te) / z3.ToReal(tn)), R0)
    A, B = fs
    return z3.If(A(r) > 0, B(r) / z3.ToReal(A(r)), R0)


def numerical(kind, special, metric, mode):
    """mode: 'empirical' | 'override' """
    def g(ctx):
        v, st, m, ns, S, splits, X, MISS, x, codes, sets = setup(ctx, special)
        nb, nsp = ns + 1, max(1, len(sets)) if special == "dict" else 1
        rows = nb + nsp + 1
        fs, call = target_calls(kind, v, st, nb, nsp, splits, codes, x)
        v.eng.contracts["optbinning.binning.binning_statistics.bin_str_format"] = lambda eng, st, a, k: Opaque("labels")
        ms = "empirical" if mode == "empirical" else (z3.Real("ms") if metric != "indices" else z3.Int("ms"))
        mm = "empirical" if mode == "empirical" else (z3.Real("mm") if metric != "indices" else z3.Int("mm"))
        fn, args = call(metric, ms, mm, None)
        k, b = z3.Ints("k b")
        ctx.reachable(fn, st.pc)
        for s, r in v.returns(fn, v.run(M + ":" + fn, args)):
            v.prove("one value per record", s, v.eq(v.shape(s, r)[0], m))
            e = v.get(s, r, k)
            rng = [k >= 0, k < m]
            insets = [z3.Or(*[X(k) == c for c in c_]) for c_ in sets]
            spec = z3.Or(*insets) if insets else z3.BoolVal(False)
            val = lambda row: row_value(v, s, kind, metric, fs, row, rows, nb)
            ismiss = MISS(k)
            inbin = z3.And(b >= 0, b <= ns, z3.Implies(b > 0, S(b - 1) <= X(k)), z3.Implies(b < ns, X(k) < S(b)))
            v.prove("a clean record gets the value of the bin [split b-1, split b) containing it", s, v.eq(e, val(b)),
                    rng + [z3.Not(ismiss), z3.Not(spec), inbin])
            for q, ins in enumerate(insets):
                v.prove("a record with special code of group %d gets %s" % (q, "its row's value" if mode == "empirical" else "the override"), s,
                        v.eq(e, val(nb + q) if mode == "empirical" else ms), rng + [z3.Not(ismiss), ins])
            v.prove("a missing record gets %s" % ("its row's value" if mode == "empirical" else "the override"), s,
                    v.eq(e, val(nb + nsp) if mode == "empirical" else mm), rng + [ismiss])
        v.done()
    return g


def lab_stub(v, nb):
    """bin_str_format: contract 'a list of one label per bin' (the labels themselves: C03 search)"""
    LAB = v.fun("LAB", U)
    v.eng.contracts["optbinning.binning.binning_statistics.bin_str_format"] = \
        lambda eng, st, a, k: st.alloc(HArr(Arr((nb,), lambda i: LAB(rv(i)), "obj", islist=True)))
    return LAB


def bins_metric(kind, special):
    def g(ctx):
        v, st, m, ns, S, splits, X, MISS, x, codes, sets = setup(ctx, special)
        nb, nsp = ns + 1, max(1, len(sets)) if special == "dict" else 1
        fs, call = target_calls(kind, v, st, nb, nsp, splits, codes, x)
        LAB = lab_stub(v, nb)
        names = ["Special"] if special != "dict" else ["a", "b"]
        fn, args = call("bins", v.real("ms"), "empirical", None)
        if kind == "multi": args = args[:-1] + [2]
        k, b = z3.Ints("k b")
        for s, r in v.returns(fn, v.run(M + ":" + fn, args)):
            e = v.get(s, r, k)
            rng = [k >= 0, k < m]
            insets = [z3.Or(*[X(k) == c for c in c_]) for c_ in sets]
            spec = z3.Or(*insets) if insets else z3.BoolVal(False)
            inbin = z3.And(b >= 0, b <= ns, z3.Implies(b > 0, S(b - 1) <= X(k)), z3.Implies(b < ns, X(k) < S(b)))
            v.prove("a clean record gets its bin's label", s, ops.u_of(e) == LAB(b), rng + [z3.Not(MISS(k)), z3.Not(spec), inbin])
            for q, ins in enumerate(insets):
                v.prove("special group %d gets the label %s" % (q, names[q]), s, ops.u_of(e) == ops.u_of(names[q]), rng + [z3.Not(MISS(k)), ins])
            v.prove("a missing record gets the label Missing", s, ops.u_of(e) == ops.u_of("Missing"), rng + [MISS(k)])
        v.done()
    return g


def categorical(kind, special, metric, mode, unk):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        m = v.int("m", lambda m: m >= 0)
        nb = v.int("nb", lambda t: t >= 1)
        X, G = v.fun("X", U), v.fun("G", U)
        IN = uf("in_group_U", U, U, BOOL)
        x = v.arr(m, X, "obj")
        i, j = z3.Ints("i j")
        s1, s2, s3 = [z3.Const("s%d" % q, U) for q in (1, 2, 3)]
        codes, sets = {"none": (None, []), "list": (v.list([s1, s2]), [[s1, s2]]),
                       "dict": (st.alloc(HDict({"a": s1, "b": v.list([s2, s3])})), [[s1], [s2, s3]])}[special]
        if special == "dict": st.assume(z3.Distinct(s1, s2, s3))
        w = z3.Const("w", U)
        st.assume(z3.ForAll([i, j, w], z3.Implies(z3.And(0 <= i, i < nb, 0 <= j, j < nb, i != j), z3.Not(z3.And(IN(G(i), w), IN(G(j), w))))))
        bad = [npmodels.u_isnan(w)] + [w == c for s in sets for c in s]
        st.assume(z3.ForAll([i, w], z3.Implies(z3.And(0 <= i, i < nb, z3.Or(*bad)), z3.Not(IN(G(i), w)))))
        nsp = 2 if special == "dict" else 1
        rows = nb + nsp + 1
        v.eng.contracts["optbinning.binning.binning_statistics.bin_categorical"] = \
            lambda eng, st, a, k: st.alloc(HArr(Arr((nb,), lambda i: G(rv(i)), "obj", islist=True)))
        splits = v.arr(v.int("ns", lambda t: t >= 0), v.fun("S"))
        fs, call = target_calls(kind, v, st, nb, nsp, splits, codes, x, cat=(Opaque("categories"), Opaque("cat_others")))
        num = metric != "indices"
        ms = "empirical" if mode == "empirical" else (z3.Real("ms") if num else z3.Int("ms"))
        mm = "empirical" if mode == "empirical" else (z3.Real("mm") if num else z3.Int("mm"))
        cu = {"none": None, "int": z3.Int("unk"), "real": z3.Real("unk")}[unk]
        fn, args = call(metric, ms, mm, cu)
        k, b = z3.Ints("k b")
        ctx.reachable(fn, st.pc)
        for s, r in v.returns(fn, v.run(M + ":" + fn, args)):
            v.prove("one value per record", s, v.eq(v.shape(s, r)[0], m))
            e = v.get(s, r, k)
            rng = [k >= 0, k < m]
            insets = [z3.Or(*[X(k) == c for c in c_]) for c_ in sets]
            ismiss = npmodels.u_isnan(X(k))
            val = lambda row: row_value(v, s, kind, metric, fs, row, rows, nb)
            for c_ in sets: rng += [z3.Not(npmodels.u_isnan(c)) for c in c_]
            v.prove("a record gets the value of the group that holds its category", s, v.eq(e, val(b)), rng + [b >= 0, b < nb, IN(G(b), X(k))])
            for q, ins in enumerate(insets):
                v.prove("a record with special code of group %d gets %s" % (q, "its row's value" if mode == "empirical" else "the override"), s,
                        v.eq(e, val(nb + q) if mode == "empirical" else ms), rng + [ins])
            v.prove("a missing record gets %s" % ("its row's value" if mode == "empirical" else "the override"), s,
                    v.eq(e, val(nb + nsp) if mode == "empirical" else mm), rng + [ismiss])
            nogroup = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nb), z3.Not(IN(G(i), X(k)))))
            unkcase = rng + [nogroup, z3.Not(ismiss)] + [z3.Not(c) for c in insets]
            if cu is not None: want = cu
            elif metric == "indices": want = -1
            else:
                A, B = fs
                if kind == "bin":
                    tn, te = v.sum(s, A, 0, rows), v.sum(s, B, 0, rows)
                    want = z3.ToReal(te) / z3.ToReal(te + tn) if metric == "event_rate" else R0
                    if metric == "woe":
                        p = z3.ToReal(te) / z3.ToReal(te + tn)
                        lem = (1 / p - 1) * z3.ToReal(te) / z3.ToReal(tn) == 1
                        v.prove("lemma: odds of the mean event rate", s, lem, use_facts=False)
                        unkcase = unkcase + [lem, LN(z3.RealVal(1)) == 0]
                else:
                    n_ = rows if mode == "empirical" else nb
                    want = v.sum(s, B, 0, n_) / z3.ToReal(v.sum(s, A, 0, n_))
            v.prove("a category of no group gets the unknown-category value", s, v.eq(e, want), unkcase)
        v.done()
    return g


def unknown_numeric(kind, metric):
    """a user cat_unknown of integer type does not change a numerical transform"""
    def g(ctx):
        v, st, m, ns, S, splits, X, MISS, x, codes, sets = setup(ctx, "none")
        nb = ns + 1
        rows = nb + 2
        fs, call = target_calls(kind, v, st, nb, 1, splits, codes, x)
        lab_stub(v, nb)
        fn, args = call(metric, "empirical", "empirical", z3.Int("unk"))
        k, b = z3.Ints("k b")
        for s, r in v.returns(fn, v.run(M + ":" + fn, args)):
            e = v.get(s, r, k)
            inbin = z3.And(b >= 0, b <= ns, z3.Implies(b > 0, S(b - 1) <= X(k)), z3.Implies(b < ns, X(k) < S(b)))
            v.prove("a clean record gets its bin's value, not truncated", s, v.eq(e, row_value(v, s, kind, metric, fs, b, rows, nb)),
                    [k >= 0, k < m, z3.Not(MISS(k)), inbin])
            v.prove("a missing record gets its row's value, not truncated", s, v.eq(e, row_value(v, s, kind, metric, fs, nb + 1, rows, nb)),
                    [k >= 0, k < m, MISS(k)])
        v.done()
    return g


def multi(special, metric, mode):
    """multiclass: per-class counts are arbitrary; 3 classes"""
    def g(ctx):
        v, st, m, ns, S, splits, X, MISS, x, codes, sets = setup(ctx, special)
        nb, nsp = ns + 1, max(1, len(sets)) if special == "dict" else 1
        rows = nb + nsp + 1
        C = 3
        E = v.fun("E", INT, INT, INT)
        p, q = z3.Ints("p q")
        st.assume(z3.ForAll([p, q], E(p, q) >= 0))
        ev = v.arr2(rows, C, E)
        lab_stub(v, nb)
        # callee contract (proved in C03): transform_event_rate_to_woe(r, n, e) is a function WOE of its arguments, element by element
        WOE = uf("WOE", REAL, REAL, REAL, REAL)
        def woe(eng, st, a, k):
            q = lambda x: WOE(rr(x), rr(a[1]), rr(a[2]))
            return ops.lift(eng, st, q, a[0], dtype="float") if eng.as_arr(a[0], st) is not None else q(a[0])
        v.eng.contracts[M + ".transform_event_rate_to_woe"] = woe
        tot = [v.sum(st, lambda b, c=c: E(b, z3.IntVal(c)), 0, rows) for c in range(C)]
        for t in tot: st.assume(t > 0)
        ms = "empirical" if mode == "empirical" else z3.Real("ms")
        mm = "empirical" if mode == "empirical" else z3.Real("mm")
        args = [splits, x, ev, codes, metric, ms, mm, 2]
        T = sum(tot)

        def val(r):
            if metric == "indices": return r
            rec = sum(E(r, z3.IntVal(c)) for c in range(C))
            ws = []
            for c in range(C):
                e, n = E(r, z3.IntVal(c)), rec - E(r, z3.IntVal(c))
                ws.append(z3.If(z3.And(e > 0, n > 0), WOE(z3.ToReal(e) / z3.ToReal(rec), z3.ToReal(T - tot[c]), z3.ToReal(tot[c])), R0))
            if metric == "mean_woe": return sum(ws) / C
            return sum(w * z3.ToReal(t) for w, t in zip(ws, tot)) / z3.ToReal(T)
        k, b = z3.Ints("k b")
        fn = "transform_multiclass_target"
        ctx.reachable(fn, st.pc)
        for s, r in v.returns(fn, v.run(M + ":" + fn, args)):
            v.prove("one value per record", s, v.eq(v.shape(s, r)[0], m))
            e = v.get(s, r, k)
            rng = [k >= 0, k < m]
            insets = [z3.Or(*[X(k) == c for c in c_]) for c_ in sets]
            spec = z3.Or(*insets) if insets else z3.BoolVal(False)
            inbin = z3.And(b >= 0, b <= ns, z3.Implies(b > 0, S(b - 1) <= X(k)), z3.Implies(b < ns, X(k) < S(b)))
            v.prove("a clean record gets the value of the bin [split b-1, split b) containing it", s, v.eq(e, val(b)), rng + [z3.Not(MISS(k)), z3.Not(spec), inbin])
            for q, ins in enumerate(insets):
                v.prove("a record with special code of group %d" % q, s, v.eq(e, val(nb + q) if mode == "empirical" else ms), rng + [z3.Not(MISS(k)), ins])
            v.prove("a missing record", s, v.eq(e, val(nb + nsp) if mode == "empirical" else mm), rng + [MISS(k)])
        v.done()
    return g


def wiring(mod, cls, fn, metrics, fields):
    """the transform method passes the fitted state and the caller's options to the function verified above"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        tok = {a: Opaque("self." + a) for a in fields.values()}
        o = v.obj("%s:%s" % (mod, cls), dict(tok, _is_fitted=True), st)
        calls = capture(v, "%s:%s" % (M, fn))
        ctx.function("%s:%s.transform" % (mod, cls))
        x, kw = Opaque("x"), {"metric": metrics, "metric_special": 7, "metric_missing": -3, "show_digits": 5, "check_input": True}
        for s, r in v.returns("transform", v.method(o, "transform", [x], kw, st=st)):
            ctx.fact("%s.transform calls %s once" % (cls, fn), len(calls) == 1)
            for c in calls:
                for p, a in fields.items(): ctx.fact("%s: %s is the fitted %s" % (cls, p, a), c.get(p) is tok[a], repr(c.get(p)))
                for p, w in kw.items(): ctx.fact("%s: %s is the caller's" % (cls, p), c.get(p) == w, repr(c.get(p)))
                ctx.fact("%s: x is the caller's" % cls, c.get("x") is x)
        o2 = v.obj("%s:%s" % (mod, cls), dict(tok, _is_fitted=False), st)
        for s, out in v.method(o2, "transform", [x], kw, st=st):
            ctx.fact("%s: transform before fit raises NotFittedError" % cls, out.kind == "raise" and out.val.etype == "NotFittedError", repr(out.val))
        v.done()
    return g


def categorical_groups(user):
    """bin_categorical: group i holds the categories at positions (split i-1, split i], the groups are disjoint and cover all"""
    def g(ctx):
        v = VC(ctx)
        n = v.int("n", lambda n: n >= 1)
        ns = v.int("ns", lambda t: t >= 0)
        S, K = v.fun("S"), v.fun("K", U)
        i, j, k = z3.Ints("i j k")
        v.st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ns), S(i) < S(j))))
        cats = v.arr(n, K, "obj")
        bs = "optbinning.binning.binning_statistics:bin_categorical"
        for s, r in v.returns("bin_categorical", v.run(bs, [v.arr(ns, S), cats, v.list([]), None])):
            a = v.eng.as_arr(r, s)
            v.prove("number of groups is splits + 1", s, v.eq(v.eng.length(a if a is not None else r, s), ns + 1))
            gr = a.fn(k)
            if not isinstance(gr, Arr): gr = v.eng.as_arr(gr, s)
            inn = bz(gr.mask(i)) if gr.mask is not None else z3.BoolVal(True)
            rng = [k >= 0, k <= ns, i >= 0, i < n]
            ceil = lambda t: -z3.ToInt(-t)
            want = z3.And(z3.Implies(k > 0, z3.ToReal(ceil(S(k - 1))) <= z3.ToReal(i)), z3.Implies(k < ns, z3.ToReal(i) < z3.ToReal(ceil(S(k)))))
            v.prove("category i is in group k iff ceil(split k-1) <= i < ceil(split k)", s, inn == want, rng + [S(k - 1) < S(k), ])
            v.prove("its members are the categories", s, ops.u_of(gr.fn(i)) == K(i), rng)
        v.done()
    return g


B_ = "optbinning.binning."
COMMON = {"splits": "_splits_optimal", "special_codes": "special_codes"}
CATF = {"dtype": "dtype", "categories": "_categories", "cat_others": "_cat_others", "user_splits": "user_splits"}
WIRE = [(B_ + "binning", "OptimalBinning", "transform_binary_target", "woe",
         dict(COMMON, **CATF, n_nonevent="_n_nonevent", n_event="_n_event", cat_unknown="cat_unknown")),
        (B_ + "continuous_binning", "ContinuousOptimalBinning", "transform_continuous_target", "mean",
         dict(COMMON, **CATF, n_records="_n_records", sums="_sums", cat_unknown="cat_unknown")),
        (B_ + "multiclass_binning", "MulticlassOptimalBinning", "transform_multiclass_target", "mean_woe", dict(COMMON, n_event="_n_event")),
        (B_ + "uncertainty.binning_scenarios", "SBOptimalBinning", "transform_binary_target", "woe",
         dict(COMMON, **CATF, n_nonevent="_n_nonevent", n_event="_n_event"))]
GROUPS = [("wiring " + w[1], wiring(*w), 30) for w in WIRE] + [("bin_categorical", categorical_groups(False), 60)]
for kind, mets in (("bin", ("woe", "event_rate", "indices")), ("cont", ("mean", "indices"))):
    for sp in ("none", "list", "dict"):
        for me in mets:
            for mode in ("empirical", "override"):
                GROUPS.append(("%s %s special=%s %s" % (kind, me, sp, mode), numerical(kind, sp, me, mode), 60))
                GROUPS.append(("categorical %s %s special=%s %s" % (kind, me, sp, mode),
                               categorical(kind, sp, me, mode, "none" if mode == "empirical" or sp == "list" else "int"), 60))
for kind in ("bin", "cont", "multi"):
    for sp in ("none", "list", "dict"):
        GROUPS.append(("%s bins special=%s" % (kind, sp), bins_metric(kind, sp), 60))
for sp in ("none", "list", "dict"):
    for me in ("mean_woe", "weighted_mean_woe"):
        for mode in ("empirical", "override"): GROUPS.append(("multiclass %s special=%s %s" % (me, sp, mode), multi(sp, me, mode), 60))
for kind, me in (("bin", "woe"), ("bin", "event_rate"), ("cont", "mean")):
    GROUPS.append(("integer cat_unknown %s" % me, unknown_numeric(kind, me), 60))
