"""C02  Every training record is counted in exactly one row of the table."""
import z3
from lib.vc import *
from pyvc import npmodels

P = "optbinning.binning.preprocessing"
B = "optbinning.binning.binning_statistics"
SEARCH_BUDGET = 60
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; record weights are integers where counts are cast to integers",
               "numpy boolean indexing x[mask] keeps exactly the records of the mask, in order", "numpy.isnan / pandas.isnull is the missing predicate of the record",
               "pandas.Series.isin(values)[i] iff x[i] equals one of the values", "a missing value is not a special code; targets are not missing",
               "sklearn _check_sample_weight returns the given weights (ones for None); compute_class_weight returns one weight per class",
               "outlier detectors return one flag per clean record (which flags: C19); value_counts counts the records of a category",
               "pre-binning and the solver are outside these obligations: any splits, any solution (C05, C08)"]


def sklearn_env(v, CW=None):
    def csw(eng, st, args, kw):
        sw, x = args[0], args[1]
        n = eng.as_arr(x, st)
        if sw is None: return npmodels.alloc(st, Arr(n.shape[:1], lambda i: z3.RealVal(1), "float", n.mask))
        return sw
    v.eng.ext["sklearn.utils.validation._check_sample_weight"] = csw
    v.eng.ext["sklearn.utils.check_consistent_length"] = lambda eng, st, a, k: None
    if CW is not None:
        v.eng.ext["numpy.unique"] = lambda eng, st, a, k: Opaque("classes")
        v.eng.ext["sklearn.utils.compute_class_weight"] = lambda eng, st, a, k: st.alloc(HArr(Arr((v.ncls,), lambda i: CW(rv(i)), "float")))
        v.eng.ext["sklearn.preprocessing.LabelEncoder"] = lambda eng, st, a, k: st.alloc(HInst("LabelEncoder", {}))
        def ft(eng, st, a, k):
            y = eng.as_arr(a[1], st)
            CODE = v.fun("CODE", INT, INT)
            return st.alloc(HArr(Arr(y.shape, lambda i: CODE(rv(y.fn(i))), "int", y.mask)))
        v.eng.methods[("LabelEncoder", "fit_transform")] = ft


def detector_env(v, OUTL):
    O = "optbinning.binning.outlier."
    for c in ("RangeDetector", "ModifiedZScoreDetector", "YQuantileDetector"):
        v.eng.contracts[O + c] = lambda eng, st, a, k, c=c: st.alloc(HInst("Detector", {"kind": c, "x": None}))
    def fit(eng, st, a, k):
        r = st.get(a[0]); at = dict(r.attrs); at["x"] = a[1]; at["fitargs"] = tuple(a[1:])
        st.put(a[0], HInst(r.cls, at)); return a[0]
    def sup(eng, st, a, k):
        x = eng.as_arr(st.get(a[0]).attrs["x"], st)
        return st.alloc(HArr(Arr(x.shape, lambda i: OUTL(rv(i)), "bool", x.mask)))
    v.eng.methods[("Detector", "fit")] = fit
    v.eng.methods[("Detector", "get_support")] = sup
    v.eng.methods[("Detector", "set_params")] = lambda eng, st, a, k: a[0]


def special_of(v, kind, sort):
    mk = (lambda n: z3.Real(n)) if sort == REAL else (lambda n: z3.Const(n, sort))
    s1, s2, s3 = mk("s1"), mk("s2"), mk("s3")
    if kind == "none": return None, []
    if kind == "list": return v.list([s1, s2]), [[s1, s2]]
    return v.st.alloc(HDict({"a": s1, "b": v.list([s2, s3])})), [[s1], [s2, s3]]


def dom(v, s, ref, k):
    """(record k is in the array, its value)"""
    if v.eng.as_items(ref, s) == []: return z3.BoolVal(False), None
    a = v.eng.as_arr(ref, s)
    if isinstance(a.n, int) and a.n == 0: return z3.BoolVal(False), None
    return (z3.BoolVal(True) if a.mask is None else bz(a.mask(k))), a.fn(k)


def split_numerical(special, outlier, lb, ub, weights, cw=False, check=False):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        m = v.int("m", lambda m: m >= 1)
        v.ncls = v.int("ncls", lambda t: t >= 1)
        X, MISS, Y, W, OUTL, CW = v.fun("X"), v.fun("MISS", BOOL), v.fun("Y", INT), v.fun("W"), v.fun("OUTL", BOOL), v.fun("CW")
        sklearn_env(v, CW if cw else None); detector_env(v, OUTL)
        x = v.arr(m, X, nan=MISS); y = v.arr(m, Y)
        codes, sets = special_of(v, special, REAL)
        LB, UB = v.real("lb"), v.real("ub")
        st.assume(LB <= UB)
        sw = v.arr(m, W) if weights else None
        k = z3.Int("k")
        CODE = v.fun("CODE", INT, INT)
        i = z3.Int("i")
        if cw: st.assume(z3.ForAll([i], z3.And(CODE(i) >= 0, CODE(i) < v.ncls)))
        kw = dict(outlier_detector=outlier, fix_lb=LB if lb else None, fix_ub=UB if ub else None, check_input=check, sample_weight=sw)
        if cw: kw["class_weight"] = "balanced"
        rng = [k >= 0, k < m]
        spec = z3.And(z3.Not(MISS(k)), z3.Or(*[X(k) == c for s in sets for c in s])) if sets else z3.BoolVal(False)
        clean = z3.And(z3.Not(MISS(k)), z3.Not(spec))
        want = [clean]
        if outlier: want.append(z3.Not(OUTL(k)))
        if lb: want.append(X(k) >= LB)
        if ub: want.append(X(k) <= UB)
        wt = (W(k) if weights else z3.RealVal(1)) * (CW(CODE(Y(k))) if cw else 1)
        ctx.reachable("split_data", st.pc)
        for s, r in v.returns("split_data", v.run(P + ":split_data", ["numerical", x, y, codes], kw)):
            it = v.eng.as_items(r, s)
            (xc, yc, xm, ym, xs, ys, yo, cats, oth, wc, wm, ws, wo) = it
            for nm, refs, inn in (("clean", (xc, yc, wc), z3.And(*want)), ("missing", (xm, ym, wm), MISS(k)), ("special", (xs, ys, ws), spec)):
                for q, (ref, val) in enumerate(zip(refs, (X(k), Y(k), wt))):
                    d, e = dom(v, s, ref, k)
                    w = ("records", "targets", "weights")[q]
                    v.prove("%s %s are exactly those of the %s records" % (nm, w, nm), s, d == inn, rng)
                    if e is not None and not (nm == "missing" and q == 0):
                        v.prove("%s %s keep their value" % (nm, w), s, v.eq(e.r if isinstance(e, Fl) else e, val), rng + [inn])
            n_ = [v.eng.as_items(z, s) for z in (yo, cats, oth, wo)]
            ctx.fact("no others part for a numerical variable", all(z == [] for z in n_))
            v.prove("parts are disjoint and cover every record but outliers and out-of-bounds ones", s,
                    z3.And(z3.Or(clean, MISS(k), spec), z3.Not(z3.And(MISS(k), spec)), z3.Implies(z3.And(*want), clean)), rng)
            if weights:
                a = v.eng.as_arr(sw, s)
                v.prove("the caller's sample weights are unchanged", s, v.eq(a.fn(k), W(k)), rng)
        v.done()
    return g


def split_categorical(special, cutoff, user, weights):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        m = v.int("m", lambda m: m >= 1)
        X, MISS, Y, W = v.fun("X", U), v.fun("MISS_obj", BOOL, U), v.fun("Y", INT), v.fun("W")
        RARE = v.fun("RARE", BOOL, U)
        sklearn_env(v)
        x = v.arr(m, X, "obj"); y = v.arr(m, Y)
        codes, sets = special_of(v, special, U)
        sw = v.arr(m, W) if weights else None
        seen = {}
        k = z3.Int("k")
        # categorical_cutoff(x, ..): contract 'flags the records of the rare categories of the clean records'
        def cc(eng, st, a, kk):
            b = dict(zip(("x", "y", "cutoff"), a)); b.update(kk)
            xa = eng.as_arr(b["x"], st)
            seen["cut"] = (b["x"], b.get("cutoff"))
            return (st.alloc(HArr(Arr(xa.shape, lambda i: RARE(xa.fn(i)), "bool", xa.mask))), Opaque("rare categories"))
        def ct(eng, st, a, kk):
            xa = eng.as_arr(a[0], st)
            CODE = v.fun("CATCODE", INT, U)
            seen["tr"] = (a[0], a[1])
            return (Opaque("categories"), st.alloc(HArr(Arr(xa.shape, lambda i: CODE(xa.fn(i)), "int", xa.mask))))
        v.eng.contracts[P + ".categorical_cutoff"] = cc
        v.eng.contracts[P + ".categorical_transform"] = ct
        CUT = v.real("cutoff")
        kw = dict(cat_cutoff=CUT if cutoff else None, user_splits=v.list([Opaque("g")]) if user else None, check_input=False, sample_weight=sw)
        rng = [k >= 0, k < m]
        MISSF = lambda i: v.isnull(X(i))
        outs = v.run(P + ":split_data", ["categorical", x, y, codes], kw)
        for s, r in v.returns("split_data", outs):
            it = v.eng.as_items(r, s)
            (xc, yc, xm, ym, xs, ys, yo, cats, oth, wc, wm, ws, wo) = it
            mi, _ = dom(v, s, ym, k)
            spec = z3.And(z3.Not(mi), z3.Or(*[X(k) == c for q in sets for c in q])) if sets else z3.BoolVal(False)
            clean = z3.And(z3.Not(mi), z3.Not(spec))
            rare = RARE(X(k)) if cutoff and not user else z3.BoolVal(False)
            wt = W(k) if weights else z3.RealVal(1)
            hyp = rng + ([z3.Implies(mi, z3.And(*[X(k) != c for q in sets for c in q]))] if sets else [])
            CODE = v.fun("CATCODE", INT, U)
            xval = X(k) if user else CODE(X(k))
            for nm, refs, inn in (("clean", (xc, yc, wc), z3.And(clean, z3.Not(rare))), ("missing", (xm, ym, wm), mi), ("special", (xs, ys, ws), spec),
                                  ("others", (None, yo, wo), z3.And(clean, rare))):
                for q, (ref, val) in enumerate(zip(refs, (xval if nm == "clean" else X(k), Y(k), wt))):
                    if ref is None: continue
                    d, e = dom(v, s, ref, k)
                    w = ("records", "targets", "weights")[q]
                    v.prove("%s %s are exactly those of the %s records" % (nm, w, nm), s, d == inn, hyp)
                    if e is not None and not (nm == "missing" and q == 0):
                        v.prove("%s %s keep their value" % (nm, w), s, v.eq(e, val), hyp + [inn])
            if cutoff and not user:
                d, e = dom(v, s, seen["cut"][0], k)
                v.prove("rare categories are searched among the clean records", s, z3.And(d == clean, e == X(k)), hyp)
                v.prove("with the requested cut-off", s, v.eq(seen["cut"][1], CUT))
            if not user:
                d, e = dom(v, s, seen["tr"][0], k)
                v.prove("categories are coded from the clean records", s, z3.And(d == z3.And(clean, z3.Not(rare)), z3.Implies(d, e == X(k))), hyp)
                d, e = dom(v, s, seen["tr"][1], k)
                v.prove("with their targets", s, z3.And(d == z3.And(clean, z3.Not(rare)), z3.Implies(d, v.eq(e, Y(k)))), hyp)
        v.done()
    return g


def segment(v, st, n, SEL, q, b):
    """b is the first pre-bin of the bin that ends at the selected pre-bin q"""
    t = z3.Int("t")
    return z3.And(q >= 0, q < n, SEL(q), 0 <= b, b <= q, z3.Or(b == 0, SEL(b - 1)), z3.ForAll([t], z3.Implies(z3.And(b <= t, t < q), z3.Not(SEL(t)))))


def tail_rows(v, n, rows, off):
    return [(n + i, nm) for i, nm in enumerate(rows)]


def bin_info(kind, special, others, nsol):
    """rows of the table from the solution: sums over each bin's pre-bins, then others, special, missing"""
    def g(ctx):
        v = VC(ctx)
        INF_OK[0] = True
        st = v.st
        n = v.int("n", lambda n: n >= 1)
        SEL = v.fun("SEL", BOOL)
        names = {"bin": ["nev", "ev"], "cont": ["records", "sums", "zeros", "min", "max"]}[kind]
        F = {}
        for c in names: F[c] = v.fun("P_" + c, REAL if c in ("sums", "min", "max", "ss") else INT)
        if nsol == "none":
            sol = v.list([])
        else:
            st.assume(SEL(n - 1))
            sol = v.arr(n, SEL)
        par = {c: v.arr(n, F[c]) for c in names}
        R = lambda nm, c: (z3.Real if c in ("sums", "min", "max", "std") else z3.Int)("%s_%s" % (nm, c))
        groups = ["g0", "g1"] if special == "dict" else ["sp"]
        tails = (["oth"] if others else []) + groups + ["mis"]
        spv = lambda c: v.list([R(gk, c) for gk in groups]) if special == "dict" else R("sp", c)
        co = v.list([Opaque("cat")] if others else [])
        if kind == "bin":
            args = [sol, par["nev"], par["ev"], R("mis", "nev"), R("mis", "ev"), spv("nev"), spv("ev"), R("oth", "nev"), R("oth", "ev"), co]
            fn, order = "bin_info", ["nev", "ev"]
        else:
            SS, SD = v.fun("P_ss"), v.fun("P_std")
            ssum_, std = v.arr(n, SS), v.arr(n, SD)
            v.eng.contracts[B + ".nstd"] = lambda eng, st, a, k: z3.Function("NSTD", REAL, REAL, REAL, REAL)(*[rr(x) for x in a])
            i = z3.Int("i")
            for c in ("min", "max"): st.assume(z3.ForAll([i], z3.And(F[c](i) < PINF, F[c](i) > NINF)))
            five = lambda nm: [R(nm, c) for c in ("records", "sums", "std", "min", "max", "zeros")]
            spx = [spv(c) for c in ("records", "sums", "std", "min", "max", "zeros")]
            if nsol == "none":
                par = {c: (z3.Real if F[c].range() == REAL else z3.Int)("T_" + c) for c in names}
                ssum_, std = z3.Real("T_ss"), z3.Real("T_std")
            args = [sol, par["records"], par["sums"], ssum_, std, par["min"], par["max"], par["zeros"]] + five("mis") + spx + five("oth") + [co]
            fn, order = "continuous_bin_info", ["records", "sums", "std", "min", "max", "zeros"]
        q, b = z3.Ints("q b")
        ctx.reachable(fn, st.pc)
        for s, r in v.returns(fn, v.run(B + ":" + fn, args)):
            it = v.eng.as_items(r, s)
            for c, ref in zip(order, it):
                if c == "std": continue
                a = v.eng.as_arr(ref, s)
                nb = n if nsol != "none" else z3.IntVal(1)
                v.prove("%s: rows are the bins and the others, special and missing rows" % c, s, rv(a.n) == nb + len(tails))
                for j, nm in enumerate(tails):
                    at = z3.simplify(nb + j)
                    e = a.fn(conc(at))
                    v.prove("%s of the %s row" % (c, {"oth": "others", "mis": "missing"}.get(nm, "special " + nm)), s,
                            z3.And(v.eq(e, R(nm, c)), z3.BoolVal(True) if a.mask is None else bz(a.mask(conc(at)))))
                if nsol == "none":
                    want = F[c](0) if kind == "bin" else par[c]
                    v.prove("%s of the single bin" % c, s, v.eq(a.fn(0), want))
                    continue
                seg = segment(v, s, n, SEL, q, b)
                rng = [q >= 0, q < n]
                v.prove("%s: one row per selected pre-bin" % c, s, (z3.BoolVal(True) if a.mask is None else bz(a.mask(q))) == SEL(q), rng)
                if c in ("min", "max"):
                    t = z3.Int("t")
                    e = rr(a.fn(q))
                    v.prove("%s of a bin bounds its pre-bins" % c, s, z3.Implies(z3.And(b <= t, t <= q), (e <= F[c](t)) if c == "min" else (e >= F[c](t))), [seg])
                    v.prove("%s of a bin is reached" % c, s, z3.Exists([t], z3.And(b <= t, t <= q, e == F[c](t))), [seg])
                else:
                    s2 = s.fork(); s2.pc = list(s.pc) + [b <= q, b >= 0]
                    v.prove("%s of a bin is the sum over its pre-bins" % c, s, v.eq(a.fn(q), v.sum(s2, F[c], b, q + 1)), [seg])
        INF_OK[0] = False
        v.done()
    return g


def lemma_total(ctx):
    """induction: the bins' sums add up to the sum over all pre-bins (nothing lost, nothing twice)"""
    SEL = z3.Function("SEL", INT, BOOL)
    start, Pf, T = [z3.Function(x, INT, INT) for x in ("start", "P", "T")]
    n, u, t = z3.Ints("n u t")
    h = [n >= 1, SEL(n - 1), start(0) == 0, Pf(0) == 0, T(0) == 0, u >= 0, u < n,
         start(u + 1) == z3.If(SEL(u), u + 1, start(u)),
         T(u + 1) == T(u) + z3.If(SEL(u), Pf(u + 1) - Pf(start(u)), 0)]
    inv = lambda k: T(k) + Pf(k) - Pf(start(k)) == Pf(k)
    ctx.prove("sum of the bins over the first pre-bins: base", h, inv(z3.IntVal(0)))
    ctx.prove("sum of the bins over the first pre-bins: step", h + [inv(u)], inv(u + 1))
    ctx.prove("all pre-bins are in a bin when the last one is selected", [n >= 1, SEL(n - 1), inv(n), start(n) == n], T(n) == Pf(n))


def target_info(which, special):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        m = v.int("m", lambda m: m >= (0 if which != "samples0" else 0))
        X, Y, W = v.fun("X"), v.fun("Y", INT), v.fun("W", INT)
        x, y, w = v.arr(m, X), v.arr(m, Y), v.arr(m, W)
        codes, sets = special_of(v, special, REAL)
        ind = lambda c: z3.If(c, 1, 0)
        ins = [lambda b, c_=c_: z3.Or(*[X(b) == c for c in c_]) for c_ in sets] if special == "dict" else [lambda b: z3.BoolVal(True)]
        if which == "binary":
            fn, args = "target_info_special", [codes, x, y, w]
            for s, r in v.returns(fn, v.run(B + ":" + fn, args)):
                nn, ne = v.eng.as_items(r, s)
                for q, f in enumerate(ins):
                    a, b_ = (v.get(s, nn, q), v.get(s, ne, q)) if special == "dict" else (nn, ne)
                    v.prove("special group %d: weight of its non-events" % q, s, v.eq(a, v.sum(s, lambda b: z3.If(z3.And(f(b), Y(b) == 0), W(b), 0), 0, m)))
                    v.prove("special group %d: weight of its events" % q, s, v.eq(b_, v.sum(s, lambda b: z3.If(z3.And(f(b), Y(b) != 0), W(b), 0), 0, m)))
        elif which == "multi":
            c1, c2 = v.int("c1"), v.int("c2")
            fn, args = "target_info_special_multiclass", [codes, x, y, v.list([c1, c2])]
            for s, r in v.returns(fn, v.run(B + ":" + fn, args)):
                for q, f in enumerate(ins):
                    for j, c in enumerate((c1, c2)):
                        a = v.get(s, r, q, j) if special == "dict" else v.get(s, r, j)
                        v.prove("special group %d: records of class %d" % (q, j), s, v.eq(a, v.sum(s, lambda b: ind(z3.And(f(b), Y(b) == c)), 0, m)))
        else:
            Z = v.fun("Z")
            z = v.arr(m, Z)
            fn, args = "target_info_special_continuous", [codes, x, z, w]
            # reached for a non-empty group only (its total weight is not zero); their values: bounded search
            for nm in ("std", "min", "max"): v.eng.ext["numpy." + nm] = lambda eng, st, a, k, nm=nm: z3.Real(nm + "_")
            for s, r in v.returns(fn, v.run(B + ":" + fn, args)):
                it = v.eng.as_items(r, s)
                for q, f in enumerate(ins):
                    pick = (lambda z_: v.get(s, z_, q)) if special == "dict" else (lambda z_: z_)
                    val = lambda b: z3.ToReal(W(b)) * Z(b)
                    v.prove("special group %d: records" % q, s, v.eq(pick(it[0]), v.sum(s, lambda b: z3.If(f(b), W(b), 0), 0, m)))
                    v.prove("special group %d: sum" % q, s, v.eq(pick(it[1]), v.sum(s, lambda b: z3.If(f(b), val(b), z3.RealVal(0)), 0, m)))
                    v.prove("special group %d: zeros" % q, s, v.eq(pick(it[2]), v.sum(s, lambda b: ind(z3.And(f(b), val(b) == 0)), 0, m)))
        v.done()
    return g


GROUPS = []
for sp in ("none", "list", "dict"):
    GROUPS.append(("split_data numerical special=%s" % sp, split_numerical(sp, None, False, False, False), 90))
    GROUPS.append(("split_data numerical special=%s weights" % sp, split_numerical(sp, None, False, False, True), 90))
GROUPS += [("split_data numerical bounds lb", split_numerical("list", None, True, False, True), 90),
           ("split_data numerical bounds ub", split_numerical("list", None, False, True, True), 90),
           ("split_data numerical bounds lb and ub", split_numerical("list", None, True, True, True), 90),
           ("split_data numerical outliers range", split_numerical("list", "range", False, False, True), 90),
           ("split_data numerical outliers zscore, bounds", split_numerical("none", "zscore", True, True, True), 90),
           ("split_data numerical outliers yquantile", split_numerical("dict", "yquantile", False, False, False), 90),
           ("split_data numerical class weights", split_numerical("list", None, False, False, True, cw=True), 90),
           ("split_data numerical checked input", split_numerical("list", None, False, False, False, check=True), 90)]
for sp in ("none", "list", "dict"):
    for cut in (False, True):
        GROUPS.append(("split_data categorical special=%s%s" % (sp, " cut-off" if cut else ""), split_categorical(sp, cut, False, True), 90))
GROUPS.append(("split_data categorical user splits", split_categorical("list", True, True, True), 90))
for kd in ("bin", "cont"):
    for sp in ("one", "dict"):
        for oth in (False, True):
            GROUPS.append(("%s rows special=%s%s" % (kd, sp, " others" if oth else ""), bin_info(kd, sp, oth, "some"), 100))
    GROUPS.append(("%s rows without splits" % kd, bin_info(kd, "one", False, "none"), 60))
GROUPS.append(("bins partition the pre-bins", lemma_total, 30))
for wh in ("binary", "multi", "cont"):
    for sp in ("none", "dict"):
        GROUPS.append(("special totals %s special=%s" % (wh, sp), target_info(wh, sp), 90))

from contracts import fitwire
GROUPS += fitwire.groups("wiring")
from contracts import scenfit
GROUPS += scenfit.groups()
ASSUMPTIONS += scenfit.ASSUMPTIONS
