"""C12  Sketches merged from partitions report the counts of the whole (BSketch, BCatSketch, OptimalBinningSketch)."""
import ast
import z3
from lib.vc import *
from pyvc.values import PyVal
from pyvc import npmodels
from contracts import catdict, reclist
from contracts.c02 import sklearn_env, special_of
from contracts.c18 import LC, bind

B = "optbinning.binning.distributed.bsketch"
S = "optbinning.binning.distributed.binning_sketch"
SEARCH_BUDGET = 30
COUNTERS = ("_count_missing_e", "_count_missing_ne", "_count_special_e", "_count_special_ne")
ASSUMPTIONS = ["the quantile sketch GK obeys its contract (C18): its entries weigh as many values as were added once compressed, merging adds the counts",
               "tdigest.TDigest: n counts the values given to batch_update, and the sum of two digests is a new one whose n is the sum; its centroids' weights are fractional, so its bins are not claimed",
               "targets are 0 or 1 and not NaN; special codes are not NaN; a sketch is not merged with itself",
               "the sum over the stored categories changes by the change of the category stored (sum over a finite dictionary); numpy boolean indexing keeps exactly the records of the mask, in order",
               "bin_info and the table obey their contracts (C02, C03); the pre-bins are joined by the solution"]
BOUNDED = ("bounded stand-in (never counted as proved): BCatSketch.bins (partition by cut-off, order by event rate) and the categories of a regrouped bin are checked on random histories of the real code against exact counts; "
           "so are the counters, merges, bins and tables of the proved parts")


def records(v, sort, special):
    """a batch of m records: value, missing condition, target in {0, 1}; conditions clean, missing and special of record k"""
    m = v.int("m", lambda t: t >= 0)
    Y = v.fun("Y", INT)
    v.all(m, lambda i: z3.Or(Y(i) == 0, Y(i) == 1))
    codes, sets = special_of(v, special, sort)
    if sort == REAL:
        X, MISS = v.fun("X"), v.fun("MISS", BOOL)
        x = v.arr(m, X, nan=MISS)
        miss = MISS
    else:
        X = v.fun("X", U)
        x = v.arr(m, X, "obj")
        miss = lambda i: npmodels.u_isnan(X(i))
        for cs in sets:
            for c in cs: v.st.assume(z3.Not(npmodels.u_isnan(c)))
    sklearn_env(v)
    spec = lambda i: z3.And(z3.Not(miss(i)), z3.Or(*[X(i) == c for s in sets for c in s])) if sets else z3.BoolVal(False)
    clean = lambda i: z3.And(z3.Not(miss(i)), z3.Not(spec(i)))
    return m, x, v.arr(m, Y), X, Y, codes, clean, miss, spec


def gkstub(v):
    """GK by its contract, as far as counts go"""
    def add(eng, st, a, k):
        r = st.get(a[0]).attrs
        st.put(a[0], HInst("GKS", dict(r, n=rv(r["n"]) + 1)))
    def batch(eng, st, a, k):
        r = st.get(a[0]).attrs
        st.put(a[0], HInst("GKS", dict(r, n=rv(r["n"]) + rv(ops.length(eng, a[1], st)))))
    def merge(eng, st, a, k):
        r, o = st.get(a[0]).attrs, st.get(a[1]).attrs
        st.put(a[0], HInst("GKS", dict(r, n=rv(r["n"]) + rv(o["n"]))))
    def plus(eng, st, a, k):
        return st.alloc(HInst("GKS", {"n": rv(st.get(a[0]).attrs["n"]) + rv(st.get(a[1]).attrs["n"])}))
    m = v.eng.methods
    m[("GKS", "add")], m[("GKS", "batch_update")], m[("GKS", "merge")], m[("GKS", "__add__")] = add, batch, merge, plus


def bsketch(v, kind, codes, tag=""):
    st = v.st
    n = {q: v.int("n_%s%s" % (q, tag), lambda t: t >= 0) for q in ("e", "ne")}
    c = {nm: v.int(nm + tag, lambda t: t >= 0) for nm in COUNTERS}
    sk = {q: st.alloc(HInst("GKS", {"n": n[q]})) for q in n}
    o = v.obj(B + ":BSketch", dict(sketch=kind, eps=z3.Real("eps"), K=z3.Int("K"), special_codes=codes, _sketch_e=sk["e"], _sketch_ne=sk["ne"], **c))
    return o, n, c, sk


def count(v, s, m, f): return rv(v.sum(s, lambda b: z3.If(f(rv(b)), z3.IntVal(1), z3.IntVal(0)), 0, m))


def totals(v, s, o, label):
    """n_event, n_nonevent and n as the sketch reports them"""
    r = []
    for nm in ("n_event", "n_nonevent", "n"):
        try: r.append(rv(v.eng.getattr(o, nm, s)))
        except (PyRaise, Unsupported) as e: v.ctx.fact("%s: %s is readable" % (label, nm), not isinstance(e, PyRaise)); raise
    return r


def after(v, s, o, n, c, sums, extra, label):
    """counters and sketches hold what they held plus the sums given"""
    for q in ("e", "ne"):
        v.prove("%s: values of the %s sketch" % (label, "event" if q == "e" else "non-event"), s, rv(s.get(v.attr(s, o, "_sketch_" + q)).attrs["n"]) == n[q] + sums["n", q], extra)
    for nm in COUNTERS: v.prove("%s: %s" % (label, nm[1:]), s, rv(v.attr(s, o, nm)) == c[nm] + sums[nm], extra)
    E, N, T = totals(v, s, o, label)
    v.prove(label + ": event total", s, E == n["e"] + c["_count_missing_e"] + c["_count_special_e"] + sums["E"], extra)
    v.prove(label + ": non-event total", s, N == n["ne"] + c["_count_missing_ne"] + c["_count_special_ne"] + sums["N"], extra)
    v.prove(label + ": total", s, T == E + N, extra)


def expected(v, s, m, Y, clean, miss, spec):
    r = {("n", "e"): count(v, s, m, lambda i: z3.And(clean(i), Y(i) == 1)), ("n", "ne"): count(v, s, m, lambda i: z3.And(clean(i), Y(i) == 0))}
    for nm, cond in (("missing", miss), ("special", spec)):
        r["_count_%s_e" % nm] = count(v, s, m, lambda i: z3.And(cond(i), Y(i) == 1))
        r["_count_%s_ne" % nm] = count(v, s, m, lambda i: z3.And(cond(i), Y(i) == 0))
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    laws = []
    for q, y in (("E", 1), ("N", 0)):
        r[q] = count(v, s, m, lambda i: Y(i) == y)
        t, law = v.sum_atom(s, lambda b: one(z3.And(clean(rv(b)), Y(rv(b)) == y)) + one(z3.And(miss(rv(b)), Y(rv(b)) == y)) + one(z3.And(spec(rv(b)), Y(rv(b)) == y)), m)
        v.prove("every record with y = %d is clean, missing or special, and only one of them" % y, s, rv(t) == r[q])
        laws += [law, rv(t) == r[q]]
    return r, laws


def bs_add(kind, special):
    def g(ctx):
        v = VC(ctx); gkstub(v)
        m, x, y, X, Y, codes, clean, miss, spec = records(v, REAL, special)
        o, n, c, sk = bsketch(v, kind, codes)
        for s, _ in v.returns("add", v.method(o, "add", [x, y])):
            after(v, s, o, n, c, *expected(v, s, m, Y, clean, miss, spec), "after add")
        ctx.reachable("add", v.st.pc)
        v.done()
    return g


def bs_merge(kind):
    def g(ctx):
        v = VC(ctx); gkstub(v)
        o, n, c, sk = bsketch(v, kind, None)
        q, n2, c2, sk2 = bsketch(v, kind, None, "_other")
        outs = v.method(o, "merge", [q])
        for s, r in v.returns("merge", outs):
            sums = {("n", k): n2[k] for k in n2}; sums.update(c2)
            sums["E"] = n2["e"] + c2["_count_missing_e"] + c2["_count_special_e"]; sums["N"] = n2["ne"] + c2["_count_missing_ne"] + c2["_count_special_ne"]
            after(v, s, o, n, c, sums, [], "after merge")
            mine, his = {v.attr(s, o, "_sketch_" + k) for k in n}, {v.attr(s, q, "_sketch_" + k) for k in n}
            ctx.fact("the sketches do not share state", not mine & his)
            z = {("n", k): 0 for k in n2}; z.update({k: 0 for k in c2}); z["E"] = z["N"] = 0
            after(v, s, q, n2, c2, z, [], "the other sketch after merge")
        v.done()
    return g


def flushing(v):
    """GK as far as the entries go: len() compresses the buffer into the entries, only then do the entries hold every value"""
    reclist.install(v)
    def flush(eng, st, a, k):
        r = dict(st.get(a[0]).attrs)
        r["entries"] = r["full"]
        st.put(a[0], HInst("GKS", r))
    def ln(eng, st, a, k):
        flush(eng, st, a, k)
        return st.get(st.get(a[0]).attrs["full"]).attrs["n"]
    v.eng.methods[("GKS", "__len__")], v.eng.methods[("GKS", "merge_compress")] = ln, flush


def bs_bins(ctx):
    v = VC(ctx); gkstub(v); flushing(v)
    st = v.st
    o, n, c, sk = bsketch(v, "gk", None)
    full = {}
    for q in n:
        full[q] = reclist.new(st, v.int("entries_" + q, lambda t: t >= 0), "E_" + q)
        for f in reclist.facts(st, full[q]).values(): st.assume(f)
        st.assume(st.get(full[q]).attrs["suf"](z3.IntVal(0)) == n[q])
        stale = reclist.new(st, v.int("stale_" + q, lambda t: t >= 0), "stale_" + q)
        st.put(sk[q], HInst("GKS", {"n": n[q], "entries": stale, "full": full[q]}))
    ns = v.int("n_splits", lambda t: t >= 0)
    SP = v.fun("split")
    splits = v.arr(ns, SP)
    a, b = fresh("a"), fresh("b")
    st.assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < ns), SP(a) <= SP(b))))
    for s, r in v.returns("bins", v.method(o, "bins", [splits])):
        it = v.eng.as_items(r, s)
        ctx.fact("two arrays of counts", it is not None and len(it) == 2)
        for q, res in zip(("e", "ne"), it):
            arr = v.eng.as_arr(res, s)
            nm = {"e": "events", "ne": "non-events"}[q]
            v.prove("%s: one count per bin" % nm, s, rv(arr.n) == ns + 1)
            F = s.get(full[q]).attrs["F"]
            nE = rv(s.get(full[q]).attrs["n"])
            i, j = v.int("i"), v.int("j")
            rng = [i >= 0, i <= ns]
            idx = lambda t: rv(v.eng.as_arr(v.eng.call_ext("numpy.searchsorted", [splits, v.arr(nE, F["value"], st=s)], {"side": "left"}, s), s).fn(t))
            v.prove("%s: a value falls into one of the bins" % nm, s, z3.And(idx(j) >= 0, idx(j) <= ns), [j >= 0, j < nE])
            v.prove("%s: a bin counts the records whose value falls into it" % nm, s,
                    rr(rv(arr.fn(i))) == rr(rv(v.sum(s, lambda t: z3.If(idx(rv(t)) == i, F["g"](rv(t)), z3.IntVal(0)), 0, nE))), rng)
            t = rv(v.sum(s, lambda t: F["g"](rv(t)), 0, nE))
    ctx.reachable("bins", st.pc)
    v.done()


def bins_total(ctx):
    """lemma: bins counting the entries falling into them add up to the weight of the entries; induction over the entries, and over the bins for one entry"""
    idx, g, W, T, D = z3.Function("idx", INT, INT), z3.Function("g", INT, INT), z3.Function("weight", INT, INT), z3.Function("bins_total", INT, INT), z3.Function("increase", INT, INT, INT)
    k, i, nb = z3.Ints("k i nb")
    one = lambda i, k: z3.If(idx(k) == i, g(k), 0)
    # D(i, k): increase of the first i bins by entry k
    ctx.prove("bins: increase by an entry, start", [D(0, k) == 0, idx(k) >= 0], D(0, k) == z3.If(idx(k) < 0, g(k), 0))
    ctx.prove("bins: increase by an entry, step", [i >= 0, D(i + 1, k) == D(i, k) + one(i, k), D(i, k) == z3.If(idx(k) < i, g(k), 0), idx(k) >= 0], D(i + 1, k) == z3.If(idx(k) < i + 1, g(k), 0))
    ctx.prove("bins: total over the entries, start", [T(0) == 0, W(0) == 0], T(0) == W(0))
    ctx.prove("bins: total over the entries, step", [k >= 0, T(k + 1) == T(k) + D(nb, k), D(nb, k) == z3.If(idx(k) < nb, g(k), 0), idx(k) < nb, W(k + 1) == W(k) + g(k), T(k) == W(k)], T(k + 1) == W(k + 1))


def bs_both(kind):
    def g(ctx):
        v = VC(ctx); gkstub(v)
        v.eng.contracts["optbinning.binning.distributed.gk.GK"] = lambda eng, st, a, k: st.alloc(HInst("GKS", {"n": z3.IntVal(0), "eps": a[0] if a else k.get("eps")}))
        o, n, c, sk = bsketch(v, kind, None)
        for s, r in v.returns("merge_sketches", v.method(o, "merge_sketches")):
            v.prove("the joint sketch holds the values of both", s, rv(s.get(r).attrs["n"]) == n["e"] + n["ne"])
            ctx.fact("the joint sketch is a new one", r not in sk.values())
            for q in n: v.prove("the %s sketch is unchanged" % q, s, rv(s.get(sk[q]).attrs["n"]) == n[q])
        v.done()
    return g


# ------------------------------------------------------------------------------------------------------------ categorical
def catsketch(v, codes, tag=""):
    st = v.st
    c = {nm: v.int(nm + tag, lambda t: t >= 0) for nm in COUNTERS}
    d = catdict.new(st, "cat" + tag)
    return v.obj(B + ":BCatSketch", dict(cat_cutoff=None, special_codes=codes, _d_categories=d, **c)), d, c


def catenv(v):
    def alias(st, val): st.events.append(v.eng.loops.FamEvent("alias", (val.d,), True))
    catdict.install(v, alias)


class CatAdd(LC):
    """feeding the clean records: after k of them every category holds what it held plus its records among those k"""
    def __init__(self, v, d, m, X, Y, clean):
        super().__init__(v.ctx, "records loop")
        self.v, self.d, self.m, self.X, self.Y, self.clean = v, d, m, X, Y, clean
        self.r0 = v.st.get(d).attrs
        self.N = {"ne": z3.Function("records_ne", U, INT, INT), "e": z3.Function("records_e", U, INT, INT)}
        self.S = z3.Function("records_seen", U, INT, BOOL)
        self.T = {"ne": z3.Function("records_total_ne", INT, INT), "e": z3.Function("records_total_e", INT, INT)}
        c = fresh("c", U)
        z = z3.IntVal(0)
        v.st.assume(z3.ForAll([c], z3.And(self.N["ne"](c, z) == 0, self.N["e"](c, z) == 0, z3.Not(self.S(c, z)))))
        v.st.assume(z3.And(self.T["ne"](z) == 0, self.T["e"](z) == 0))
    def seq(self, s):
        """position k of the clean part -> record"""
        got = []
        a = sums.compact(self.v.eng, s, Arr((self.m,), lambda i: got.append(i) or self.X(i), "obj", lambda i: self.clean(rv(i))))
        return a
    def record(self, s, k):
        a = self.seq(s)
        for m, nn, e, r in s.ghost["compact"]:
            if z3.simplify(a.fn(k)).eq(z3.simplify(self.X(e(k)))): return e(k)
        raise Unsupported("clean part")
    def define(self, s, k):
        """the counts of the first k + 1 clean records from those of the first k"""
        j = self.record(s, k)
        c = fresh("c", U)
        y = {"ne": 0, "e": 1}
        s.assume(z3.ForAll([c], z3.And(*[self.N[f](c, k + 1) == self.N[f](c, k) + z3.If(z3.And(self.X(j) == c, self.Y(j) == y[f]), 1, 0) for f in y] + [self.S(c, k + 1) == z3.Or(self.S(c, k), self.X(j) == c)])))
        for f in y: s.assume(self.T[f](k + 1) == self.T[f](k) + z3.If(self.Y(j) == y[f], 1, 0))
    def inv(self, s, k):
        r, r0, c = s.get(self.d).attrs, self.r0, fresh("c", U)
        out = [("records per category: " + {"ne": "non-events", "e": "events"}[f], z3.ForAll([c], r[f](c) == r0[f](c) + self.N[f](c, k))) for f in ("ne", "e")]
        out += [("the stored categories are those met", z3.ForAll([c], r["dom"](c) == z3.Or(r0["dom"](c), self.S(c, k)))),
                ("counts are not negative and a stored category has a record", catdict.well(s, self.d)[0])]
        out += [("total over the categories: " + f, r["T" + f] == r0["T" + f] + self.T[f](k)) for f in ("ne", "e")]
        return out
    def havoc(self, s, k):
        catdict.havoc(s, self.d)
        self.define(s, k)
        return (), (self.d.id,)
    def step(self, s0, s1, k):
        return [("a stored list is not another sketch's", z3.Not(bz(e.guard))) for e in s1.events[len(s0.events):] if e.kind == "alias"]


def cat_add(special):
    def g(ctx):
        v = VC(ctx); catenv(v)
        m, x, y, X, Y, codes, clean, miss, spec = records(v, U, special)
        o, d, c = catsketch(v, codes)
        C = CatAdd(v, d, m, X, Y, clean)
        bind(v, B + ".BCatSketch.add", ast.For, C)
        for s, _ in v.returns("add", v.method(o, "add", [x, y])):
            sums_, laws = expected(v, s, m, Y, clean, miss, spec)
            n = rv(C.seq(s).n)
            ref = v.attr(s, o, "_d_categories")
            ctx.fact("the categories are kept in the sketch's dictionary", ref == d)
            for nm, f in C.inv(s, n): v.prove("after add: " + nm, s, f)
            for nm in COUNTERS: v.prove("after add: " + nm[1:], s, rv(v.attr(s, o, nm)) == c[nm] + sums_[nm])
            laws += [C.T["e"](n) == sums_["n", "e"], C.T["ne"](n) == sums_["n", "ne"]]      # lemma "clean part"
            E, N, T = totals(v, s, o, "after add")
            v.prove("after add: event total", s, E == C.r0["Te"] + c["_count_missing_e"] + c["_count_special_e"] + sums_["E"], laws)
            v.prove("after add: non-event total", s, N == C.r0["Tne"] + c["_count_missing_ne"] + c["_count_special_ne"] + sums_["N"], laws)
            v.prove("after add: total", s, T == E + N, laws)
        ctx.reachable("add", v.st.pc)
        v.done()
    return g


class CatMerge(LC):
    """adding another sketch's categories: after k of them those are added, the others are as before, and the other sketch is unchanged"""
    def __init__(self, v, d, d2):
        super().__init__(v.ctx, "merge loop")
        self.v, self.d, self.d2 = v, d, d2
        self.r0, self.q0 = v.st.get(d).attrs, v.st.get(d2).attrs
    def inv(self, s, k):
        r, q, r0, q0, c, t = s.get(self.d).attrs, s.get(self.d2).attrs, self.r0, self.q0, fresh("c", U), fresh("t")
        key, pos, n = catdict.enumeration(s, self.d2) if "merge enum" not in s.ghost else s.ghost["merge enum"]
        s.ghost["merge enum"] = (key, pos, n)
        done = z3.And(q0["dom"](c), pos(c) < k)
        tot = lambda f: rv(self.v.sum(s, lambda b: q0[f](key(rv(b))), 0, k))
        out = [("categories met so far are added: " + {"ne": "non-events", "e": "events"}[f], z3.ForAll([c], r[f](c) == r0[f](c) + z3.If(done, q0[f](c), 0))) for f in ("ne", "e")]
        out += [("the stored categories are those of both", z3.ForAll([c], r["dom"](c) == z3.Or(r0["dom"](c), done))),
                ("counts are not negative and a stored category has a record", catdict.well(s, self.d)[0])]
        out += [("total over the categories: " + f, r["T" + f] == r0["T" + f] + tot(f)) for f in ("ne", "e")]
        out += [("the other sketch is unchanged", z3.And(z3.ForAll([c], z3.And(q["ne"](c) == q0["ne"](c), q["e"](c) == q0["e"](c), q["dom"](c) == q0["dom"](c))), q["Te"] == q0["Te"], q["Tne"] == q0["Tne"]))]
        return out
    def havoc(self, s, k):
        catdict.havoc(s, self.d)
        return (), (self.d.id, self.d2.id)
    def step(self, s0, s1, k):
        return [("a stored list is not another sketch's", z3.Not(bz(e.guard))) for e in s1.events[len(s0.events):] if e.kind == "alias"]


def cat_merge(ctx):
    v = VC(ctx); catenv(v)
    o, d, c = catsketch(v, None)
    q, d2, c2 = catsketch(v, None, "_other")
    C = CatMerge(v, d, d2)
    bind(v, B + ".BCatSketch.merge", ast.For, C)
    for s, _ in v.returns("merge", v.method(o, "merge", [q])):
        k, t = fresh("c", U), fresh("t")
        ctx.fact("the sketches do not share their dictionaries", v.attr(s, o, "_d_categories") != v.attr(s, q, "_d_categories"))
        ctx.fact("the dictionaries are still those of the sketches", v.attr(s, o, "_d_categories") == d and v.attr(s, q, "_d_categories") == d2)
        r, w, r0, q0 = s.get(d).attrs, s.get(d2).attrs, C.r0, C.q0
        for f in ("ne", "e"):
            v.prove("after merge: counts of every category are the sums (%s)" % f, s, z3.ForAll([k], r[f](k) == r0[f](k) + q0[f](k)))
        v.prove("after merge: the stored categories are those of both", s, z3.ForAll([k], r["dom"](k) == z3.Or(r0["dom"](k), q0["dom"](k))))
        v.prove("after merge: the other sketch's counts are unchanged", s, z3.ForAll([k], z3.And(w["ne"](k) == q0["ne"](k), w["e"](k) == q0["e"](k), w["dom"](k) == q0["dom"](k))))
        for nm in COUNTERS:
            v.prove("after merge: " + nm[1:], s, rv(v.attr(s, o, nm)) == c[nm] + c2[nm])
            v.prove("after merge: the other sketch's " + nm[1:], s, rv(v.attr(s, q, nm)) == c2[nm])
        E, N, T = totals(v, s, o, "after merge")
        for nm, tot, a, f in (("event", E, "e", "Te"), ("non-event", N, "ne", "Tne")):
            v.prove("after merge: %s total" % nm, s, tot == sum([rv(cc[x % a]) for cc in (c, c2) for x in ("_count_missing_%s", "_count_special_%s")], r0[f] + q0[f]))
        v.prove("after merge: total", s, T == E + N)
    v.done()


def clean_part(ctx):
    """lemma: counting over the clean part counts the clean records; induction over the records (R(p): clean records before p)"""
    CL, M = z3.Function("cl", INT, BOOL), z3.Function("match", INT, BOOL)
    R, e, A, Bf = z3.Function("R", INT, INT), z3.Function("sel", INT, INT), z3.Function("over_part", INT, INT), z3.Function("over_records", INT, INT)
    p = z3.Int("p")
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    part = [A(0) == 0, R(0) == 0, Bf(0) == 0]
    ctx.prove("clean part: start of the induction", part, A(R(0)) == Bf(0))
    step = [R(p + 1) == R(p) + one(CL(p)), z3.Implies(CL(p), e(R(p)) == p), A(R(p) + 1) == A(R(p)) + one(M(e(R(p)))), Bf(p + 1) == Bf(p) + one(z3.And(CL(p), M(p))), A(R(p)) == Bf(p)]
    ctx.prove("clean part: induction step", step, A(R(p + 1)) == Bf(p + 1))


# ------------------------------------------------------------------------------------------------------ optimal binning sketch
OS = S + ":OptimalBinningSketch"


def wire_add(dtype, fed):
    def g(ctx):
        v = VC(ctx); st = v.st
        made = []
        def mk(cls):
            def c(eng, s, a, k):
                r = s.alloc(HInst("SK", {"cls": cls, "args": tuple(a), "kw": dict(k)})); made.append(r); return r
            return c
        v.eng.contracts[B + ".BSketch"], v.eng.contracts[B + ".BCatSketch"] = mk("BSketch"), mk("BCatSketch")
        v.eng.methods[("SK", "add")] = lambda eng, s, a, k: s.events.append(eng.loops.FamEvent("fed", (a, k), True))
        old = st.alloc(HInst("SK", {"cls": "old", "args": (), "kw": {}})) if fed else None
        nm = dict(dtype=dtype, sketch="gk", eps=v.real("eps"), K=v.int("K"), special_codes=v.list([v.real("code")]), cat_cutoff=v.real("cut"), verbose=False)
        o = v.obj(OS, dict(nm, _bsketch=old, _n_add=v.int("n_add"), _time_streaming_add=v.real("tm")))
        x, y = v.arr(v.int("m"), v.fun("X")), v.arr(v.int("m"), v.fun("Y", INT))
        for s, _ in v.returns("add", v.method(o, "add", [x, y])):
            b = v.attr(s, o, "_bsketch")
            ev = [e for e in s.events if e.kind == "fed"]
            ctx.fact("the batch is fed once to the sketch kept", len(ev) == 1 and ev[0].data[0][:3] == [b, x, y])
            ctx.fact("an existing sketch is kept", not fed or b == old)
            if not fed:
                r = s.get(b).attrs
                want = ("BSketch", [("sketch", "gk"), ("eps", nm["eps"]), ("K", nm["K"]), ("special_codes", nm["special_codes"])]) if dtype == "numerical" else ("BCatSketch", [("cat_cutoff", nm["cat_cutoff"]), ("special_codes", nm["special_codes"])])
                got = dict(zip([w[0] for w in want[1]], r["args"])); got.update(r["kw"])
                ctx.fact("the sketch is of the variable's kind with the binning's options", r["cls"] == want[0] and all(got.get(a) is b_ or got.get(a) == b_ if not is_z3(b_) else is_z3(got.get(a)) and got[a].eq(b_) for a, b_ in want[1]))
            v.prove("the number of batches grows by one", s, rv(v.attr(s, o, "_n_add")) == v.int("n_add") + 1)
        v.done()
    return g


def wire_merge(ctx):
    v = VC(ctx); st = v.st
    v.eng.methods[("SK", "merge")] = lambda eng, s, a, k: s.events.append(eng.loops.FamEvent("merged", tuple(a), True))
    same = v.bool("same_parameters")
    v.eng.contracts[S + ".OptimalBinningSketch.mergeable"] = lambda eng, s, a, k: same
    b1, b2 = st.alloc(HInst("SK", {})), st.alloc(HInst("SK", {}))
    o, q = v.obj(OS, dict(_bsketch=b1, verbose=False)), v.obj(OS, dict(_bsketch=b2, verbose=False))
    for s, out in v.method(o, "merge", [q]):
        ev = [e for e in s.events if e.kind == "merged"]
        if out.kind == "raise": v.prove("merging is refused for other parameters only", s, z3.Not(same)); ctx.fact("nothing is merged then", not ev); continue
        ctx.fact("the other's sketch is merged into this one's, once", len(ev) == 1 and ev[0].data[:2] == (b1, b2))
    v.done()


def bins_stub(v, nsplit_of=None):
    """the sketch by its contract: bins(splits) are the counts of its records per bin, functions of the splits"""
    def bins(eng, st, a, k):
        sp = eng.as_arr(a[1], st)
        if sp is None: raise Unsupported("splits")
        tag = fresh("bins")
        E, N = fresh_fun("bins_e", INT, INT), fresh_fun("bins_ne", INT, INT)
        n = rv(sp.n if sp.mask is None else ops.length(eng, a[1], st)) + 1
        i = fresh("i")
        st.assume(z3.ForAll([i], z3.And(E(i) >= 0, N(i) >= 0)))
        re, rn = (st.alloc(HArr(Arr((n,), (lambda f: lambda i: f(rv(i)))(f), "int"))) for f in (E, N))
        st.ghost["bins"] = st.ghost.get("bins", ()) + ((a[1], E, N, n),)
        return (re, rn)
    v.eng.methods[("SK", "bins")] = bins


def is_bins(v, s, splits, ne, e):
    """(ne, e) are the counts of a call of bins with these splits"""
    an, ae = v.eng.as_arr(ne, s), v.eng.as_arr(e, s)
    i = z3.Int("i")
    for sp, E, N, n in s.ghost.get("bins", ()):
        if sp == splits or sp is splits:
            return z3.And(rv(an.n) == n, rv(ae.n) == n, z3.Implies(z3.And(i >= 0, i < n), z3.And(rv(an.fn(i)) == N(i), rv(ae.fn(i)) == E(i))))
    return z3.BoolVal(False)


def body(v, o, name, args, again=None):
    """the outcomes of a method's body, calls of itself by contract"""
    f = v.eng.class_attr(v.st.get(o).cls, name)
    if again: v.eng.contracts["%s.OptimalBinningSketch.%s" % (S, name)] = again
    v.ctx.function("%s.%s" % (OS, name))
    s0 = v.st.fork()
    return v.returns(name, v.eng.body_outs(f, v.eng.bind(f, [o] + list(args), {}, s0), o, s0))


def prebins(divergence):
    """pre-bins: the counts returned are the sketch's counts for the splits returned, which are among the splits given"""
    def g(ctx):
        v = VC(ctx); st = v.st
        bins_stub(v)
        rec = []
        def again(eng, s, a, k):
            d = dict(zip(("self", "splits"), a)); d.update(k)
            rec.append(d["splits"])
            s.put(d["self"], HInst(s.get(d["self"]).cls, dict(s.get(d["self"]).attrs, _call=len(rec) - 1)))
            return tuple(Opaque("result%d" % q) for q in range(3))
        b = st.alloc(HInst("SK", {}))
        o = v.obj(OS, dict(_bsketch=b, divergence=divergence, _n_refinements=0, _flag_min_n_event_nonevent=False))
        K, SP, q, t = v.int("n_splits", lambda t: t >= 1), v.fun("split"), z3.Int("q"), z3.Int("t")
        splits = v.arr(K, SP)
        kinds = set()
        for s, r in body(v, o, "_compute_prebins", [splits], again):
            it = v.eng.as_items(r, s)
            ca = s.get(o).attrs.get("_call")
            kinds.add(ca is None)
            if ca is None:
                v.prove("the counts are those of the splits returned", s, is_bins(v, s, it[0], it[1], it[2]))
                continue
            for u, z in enumerate(it): ctx.fact("the refined splits and counts are returned (%d)" % u, isinstance(z, Opaque) and z.name == "result%d" % u)
            a = v.eng.as_arr(rec[ca], s)
            alive = z3.BoolVal(True) if a.mask is None else bz(a.mask(q))
            v.prove("the remaining splits are a subset of those given, in order", s, z3.And(rv(a.n) == K, z3.Implies(alive, v.eq(a.fn(q), SP(q)))), [q >= 0, q < K])
            v.prove("at least one split is removed (the refinement ends)", s, z3.Exists([t], z3.And(0 <= t, t < K, z3.Not(z3.BoolVal(True) if a.mask is None else bz(a.mask(t))))))
        ctx.fact("both outcomes are reached", len(kinds) == (1 if divergence == "hellinger" else 2))
        v.done()
    return g


def prebinning_data(dtype, sketch):
    def g(ctx):
        v = VC(ctx); st = v.st
        bins_stub(v)
        c = {nm: v.int(nm, lambda t: t >= 0) for nm in COUNTERS}
        tot = {nm: v.int(nm) for nm in ("n_event", "n_nonevent", "n")}
        b = st.alloc(HInst("SK", dict(c, **tot)))
        Q = v.fun("quantile", REAL, REAL)
        v.eng.methods[("SK", "merge_sketches")] = lambda eng, s, a, k: s.alloc(HInst("ALL", {}))
        v.eng.methods[("ALL", "quantile")] = v.eng.methods[("ALL", "percentile")] = lambda eng, s, a, k: Q(rr(a[1]))
        v.eng.contracts[S + ".OptimalBinningSketch._compute_prebins"] = lambda eng, s, a, k: (s.ghost.__setitem__("given", a[1]) or tuple(Opaque("pre%d" % q) for q in range(3)))
        cat = [Opaque("cat%d" % q) for q in range(7)]
        if dtype == "categorical": v.eng.methods[("SK", "bins")] = lambda eng, s, a, k: tuple(cat)
        v.eng.contracts[S + ".OptimalBinningSketch._compute_cat_prebins"] = lambda eng, s, a, k: (s.ghost.__setitem__("given", tuple(a[1:])) or tuple(Opaque("grp%d" % q) for q in range(4)))
        o = v.obj(OS, dict(_bsketch=b, dtype=dtype, sketch=sketch, max_n_prebins=v.int("max_n_prebins", lambda t: t >= 2), cat_heuristic=v.bool("heur"), divergence="iv"))
        name = lambda x: isinstance(x, Opaque) and x.name
        def lin(eng, s, a, k):
            lo, hi, n = rr(rv(a[0])), rr(rv(a[1])), rv(a[2] if len(a) > 2 else k["num"])
            return s.alloc(HArr(Arr((n,), lambda i: lo + z3.ToReal(rv(i)) * (hi - lo) / z3.ToReal(n - 1), "float")))
        v.eng.ext["numpy.linspace"] = lin
        for s, r in v.returns("_prebinning_data", v.method(o, "_prebinning_data", [])):
            it = v.eng.as_items(r, s)
            for a, src in (("_n_nonevent_missing", "_count_missing_ne"), ("_n_event_missing", "_count_missing_e"), ("_n_nonevent_special", "_count_special_ne"), ("_n_event_special", "_count_special_e")):
                v.prove("%s comes from the sketch" % a[1:], s, v.eq(v.attr(s, o, a), c[src]))
            v.prove("events of the whole", s, v.eq(v.attr(s, o, "_t_n_event"), tot["n_event"]))
            v.prove("non-events of the whole", s, v.eq(v.attr(s, o, "_t_n_nonevent"), tot["n_nonevent"]))
            if dtype == "numerical":
                ctx.fact("the refined splits and their counts are returned", [name(x) for x in it] == ["pre0", "pre1", "pre2"])
                a = v.eng.as_arr(s.ghost["given"], s)
                ctx.fact("the candidate splits are values of the joint sketch", a is not None)
            else:
                ctx.fact("regrouped: the sketch's splits, categories, non-events and events", [name(x) for x in s.ghost["given"]] == ["cat0", "cat1", "cat2", "cat3"])
                ctx.fact("the regrouped splits, non-events and events are returned", [name(x) for x in it] == ["grp0", "grp2", "grp3"])
                ctx.fact("others: categories, non-events and events of the sketch", [name(v.attr(s, o, n)) for n in ("_cat_others", "_n_nonevent_cat_others", "_n_event_cat_others")] == ["cat4", "cat5", "cat6"])
        v.done()
    return g


def solve(ctx):
    """solve: the table gets the pre-bins' counts joined by the solution, and the missing, special and others counts"""
    v = VC(ctx); st = v.st
    ns = v.int("n_splits", lambda t: t >= 0)
    NE, EV, SP = v.fun("NE", INT), v.fun("EV", INT), v.fun("split")
    ne, ev, sp = v.arr(ns + 1, NE), v.arr(ns + 1, EV), v.arr(ns, SP)
    v.eng.contracts[S + ".OptimalBinningSketch._prebinning_data"] = lambda eng, s, a, k: (sp, ne, ev)
    fit = []
    v.eng.contracts[S + ".OptimalBinningSketch._fit_optimizer"] = lambda eng, s, a, k: fit.append(tuple(a[1:]))
    v.eng.contracts[S + ".OptimalBinningSketch._update_streaming_stats"] = lambda eng, s, a, k: None
    BI = "optbinning.binning.binning_statistics.bin_info"
    rec = []
    pn = ("solution", "n_nonevent", "n_event", "n_nonevent_missing", "n_event_missing", "n_nonevent_special", "n_event_special", "n_nonevent_cat_others", "n_event_cat_others", "cat_others")
    def info(eng, s, a, k):
        d = dict(zip(pn, a)); d.update(k); rec.append((s.fork(), d)); return (Opaque("rows_ne"), Opaque("rows_e"))
    v.eng.contracts[BI] = info
    tn = ("name", "dtype", "special_codes", "splits", "n_nonevent", "n_event")
    tabs = []
    def tab(eng, s, a, k):
        d = dict(zip(tn, a)); d.update(k); tabs.append((s.fork(), d)); return s.alloc(HInst("TABLE", {}))
    v.eng.contracts["optbinning.binning.binning_statistics.BinningTable"] = tab
    own = {n: Opaque(n) for n in ("_solution", "_n_nonevent_missing", "_n_event_missing", "_n_nonevent_special", "_n_event_special", "_n_nonevent_cat_others", "_n_event_cat_others", "_cat_others", "_splits_optimal", "_categories", "_status")}
    o = v.obj(OS, dict(own, name="x", dtype="numerical", special_codes=None, verbose=False, _n_add=v.int("n_add", lambda t: t >= 1), _n_solve=v.int("n_solve"), _time_streaming_solve=v.real("ts"), _n_refinements=v.int("nr"), _is_solved=False))
    i = v.int("i")
    for s, r in v.returns("solve", v.method(o, "solve", [])):
        ctx.fact("this object is returned", r == o)
    for z, d in rec:
        for a in ("solution", "n_nonevent_missing", "n_event_missing", "n_nonevent_special", "n_event_special", "n_nonevent_cat_others", "n_event_cat_others", "cat_others"):
            ctx.fact("rows: %s" % a, d.get(a) is own["_" + a])
        for a, F in (("n_nonevent", NE), ("n_event", EV)):
            arr = v.eng.as_arr(d[a], z)
            if arr is None: arr = ops.to_nd(v.eng, z, d[a])
            v.prove("rows: counts of the pre-bins (%s)" % a, z, z3.And(rv(arr.n) == ns + 1, v.eq(arr.fn(i), F(i))), [i >= 0, i <= ns])
    for z, d in tabs:
        ctx.fact("the table gets the rows", d["n_nonevent"].name == "rows_ne" and d["n_event"].name == "rows_e" if isinstance(d["n_event"], Opaque) and isinstance(d["n_nonevent"], Opaque) else False)
        ctx.fact("the table gets the optimal splits", d["splits"] is own["_splits_optimal"])
    for a in fit: ctx.fact("the optimizer gets the pre-bins", a == (sp, ne, ev))
    ctx.fact("one table, one optimization", len(rec) >= 1 and len(tabs) >= 1 and len(fit) >= 1)
    v.done()


def cat_prebins(heur):
    """regrouping: every category goes to one group, the counts of a group are the sums of its categories'"""
    def g(ctx):
        v = VC(ctx); st = v.st
        K = v.int("K", lambda t: t >= 2)
        NE, EV, CAT = v.fun("NE", INT), v.fun("EV", INT), v.fun("CAT", U)
        v.all(K, lambda i: z3.And(NE(i) >= 0, EV(i) >= 0))
        sp, cats, ne, ev = v.arr(K - 1, lambda i: z3.ToReal(i) + z3.RealVal("1/2")), v.arr(K, CAT, "obj"), v.arr(K, NE), v.arr(K, EV)
        rec = []
        def again(eng, s, a, k):
            d = dict(zip(("self", "splits", "categories", "n_nonevent", "n_event"), a)); d.update(k)
            rec.append(d)
            s.put(d["self"], HInst(s.get(d["self"]).cls, dict(s.get(d["self"]).attrs, _call=len(rec) - 1)))
            return tuple(Opaque("result%d" % q) for q in range(4))
        b = st.alloc(HInst("SK", {"n": v.int("n", lambda t: t >= 1)}))
        DIG = []
        def dg(eng, s, a, k, m0=v.eng.ext["numpy.digitize"]):
            r = m0(eng, s, a, k); DIG.append((r, eng.as_arr(r, s))); return r
        v.eng.ext["numpy.digitize"] = dg
        o = v.obj(OS, dict(_bsketch=b, divergence="iv", cat_heuristic=heur, max_n_prebins=v.int("max_n_prebins", lambda t: t >= 2), _n_refinements=0, _flag_min_n_event_nonevent=False))
        i, j = v.int("i"), v.int("j")
        for s, r in body(v, o, "_compute_cat_prebins", [sp, cats, ne, ev], again):
            it = v.eng.as_items(r, s)
            ca = s.get(o).attrs.get("_call")
            if ca is None:
                ctx.fact("nothing to merge: unchanged", list(it) == [sp, cats, ne, ev]); continue
            for u, z in enumerate(it): ctx.fact("the refined result is returned (%d)" % u, isinstance(z, Opaque) and z.name == "result%d" % u)
            d = rec[ca]
            idx = DIG[-1][1]
            ns = rv(ops.length(v.eng, d["splits"], s))
            grp = lambda t: rv(idx.fn(t))
            v.prove("a category goes to one of the groups", s, z3.And(grp(j) >= 0, grp(j) <= ns), [j >= 0, j < K])
            for nm, F, ref in (("non-events", NE, d["n_nonevent"]), ("events", EV, d["n_event"])):
                a = v.eng.as_arr(ref, s)
                v.prove("one count per group (%s)" % nm, s, rv(a.n) == ns + 1)
                v.prove("counts of a group (%s)" % nm, s, rv(a.fn(i)) == rv(v.sum(s, lambda t: z3.If(grp(rv(t)) == i, F(rv(t)), z3.IntVal(0)), 0, K)), [i >= 0, i <= ns])
        v.done()
    return g


GROUPS = [("BSketch.add %s special=%s" % (k, sp), bs_add(k, sp), 200) for k in ("gk", "t-digest") for sp in ("none", "list")]
GROUPS += [("BSketch.merge %s" % k, bs_merge(k), 60) for k in ("gk", "t-digest")]
GROUPS += [("BCatSketch.add special=%s" % sp, cat_add(sp), 250) for sp in ("none", "list")] + [("BCatSketch.merge", cat_merge, 250), ("clean part", clean_part, 20)]
GROUPS += [("BSketch.bins", bs_bins, 60), ("bins total", bins_total, 20)] + [("BSketch.merge_sketches %s" % k, bs_both(k), 30) for k in ("gk", "t-digest")]
GROUPS += [("OptimalBinningSketch.add %s fed=%s" % (d, f), wire_add(d, f), 30) for d in ("numerical", "categorical") for f in (False, True)]
GROUPS += [("OptimalBinningSketch.merge", wire_merge, 30), ("OptimalBinningSketch.solve", solve, 60)]
GROUPS += [("OptimalBinningSketch pre-bins %s" % d, prebins(d), 60) for d in ("iv", "hellinger")]
GROUPS += [("OptimalBinningSketch pre-binning data %s %s" % (d, k), prebinning_data(d, k), 30) for d, k in (("numerical", "gk"), ("numerical", "t-digest"), ("categorical", "gk"))]
GROUPS += [("OptimalBinningSketch categories heuristic=%s" % h, cat_prebins(h), 120) for h in (False, True)]
