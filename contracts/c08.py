"""C08  Pre-bin refinement removes impure pre-bins and only those."""
import z3
from lib.vc import *

M = {"bin": ("optbinning.binning.binning", "OptimalBinning"), "cont": ("optbinning.binning.continuous_binning", "ContinuousOptimalBinning"),
     "multi": ("optbinning.binning.multiclass_binning", "MulticlassOptimalBinning")}
B = "optbinning.binning.binning_statistics"
SEARCH_BUDGET = 45
ASSUMPTIONS = ["real arithmetic instead of IEEE doubles; record weights are integers where counts are cast to integers and not negative",
               "numpy.digitize(x, s, right)[i] is the number of splits at or below (right: below) x[i], s sorted",
               "numpy boolean indexing x[mask] keeps exactly the elements of the mask, in order",
               "_compute_prebins calls itself on the shorter splits under its own contract (partial correctness; the number of splits decreases)",
               "candidate splits are sorted (they come from a pre-binning method or from sorted user splits: bounded search)"]


def setup(v, kind, user, fixed, div, frac=False):
    mod, cls = M[kind]
    st = v.st
    m = v.int("m", lambda m: m >= 1)
    K = v.int("K", lambda K: K >= 1)
    X, W, S = v.fun("X"), v.fun("W", REAL if frac else INT), v.fun("S")
    i, j = z3.Ints("i j")
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < K), S(i) < S(j))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), W(i) >= 0)))
    at = dict(dtype="categorical" if user == "cat" else "numerical", verbose=False, _n_refinements=z3.Int("nref"), divergence=div,
              user_splits=None, user_splits_fixed=None, _user_splits=None, _user_splits_fixed=None, _flag_min_n_event_nonevent=False)
    FIX, US = v.fun("FIX", BOOL), v.fun("US", U if user == "cat" else REAL)
    if user == "cat": st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < K), S(i) == z3.ToReal(i) + z3.RealVal("1/2"))))
    if user: at["user_splits"] = at["_user_splits"] = v.arr(K, US)
    if fixed: at["user_splits_fixed"] = at["_user_splits_fixed"] = v.arr(K, FIX)
    return mod, cls, m, K, X, W, S, at, FIX, US


def alive(v, s, ref, q):
    a = v.eng.as_arr(ref, s)
    return (z3.BoolVal(True) if a.mask is None else bz(a.mask(q))), a.fn(q), a


def prebins(kind, user, fixed, div="iv", ncls=3, frac=False):
    def g(ctx):
        v = VC(ctx)
        mod, cls, m, K, X, W, S, at, FIX, US = setup(v, kind, user, fixed, div, frac)
        st = v.st
        Y = v.fun("Y", INT) if kind != "cont" else v.fun("Y")
        x, w = v.arr(m, X), v.arr(m, W)
        if kind == "multi":
            cl = [v.int("c%d" % i) for i in range(ncls)]
            at["_classes"] = v.list(cl); at["_n_classes"] = ncls
        o = v.obj(mod + ":" + cls, at)
        rec = []
        def again(eng, st, a, k):
            names = ("self", "splits_prebinning", "x") + {"bin": ("y0", "y1", "sw"), "cont": ("y", "sw"), "multi": ("y",)}[kind]
            d = dict(zip(names, a)); d.update(k)
            r = st.alloc(HList([Opaque("result%d" % q) for q in range({"bin": 3, "cont": 8, "multi": 3}[kind])]))
            rec.append((d, v.attr(st, d["self"], "_user_splits_fixed"), v.attr(st, d["self"], "_user_splits"), v.attr(st, d["self"], "_n_refinements")))
            st.put(d["self"], HInst(st.get(d["self"]).cls, dict(st.get(d["self"]).attrs, _call=len(rec) - 1)))
            return r
        v.eng.contracts["%s.%s._compute_prebins" % (mod, cls)] = again
        c = v.eng.module(mod).lookup(cls)
        f = v.eng.class_attr(c, "_compute_prebins")
        DIG = []
        if kind == "multi":
            for nm in ("numpy.digitize", "numpy.searchsorted"):
                def dg(eng, st, a, k, m0=v.eng.ext[nm]):
                    r = m0(eng, st, a, k); DIG.append(eng.as_arr(r, st)); return r
                v.eng.ext[nm] = dg
        if kind == "cont": INF_OK[0] = True
        y0 = v.arr(m, lambda b: Y(b) == 0); y1 = v.arr(m, lambda b: Y(b) != 0); y = v.arr(m, Y)
        args = [o, v.arr(K, S), x] + {"bin": [y0, y1, w], "cont": [y, w], "multi": [y]}[kind]
        ctx.function("%s:%s._compute_prebins" % (mod, cls))
        s0 = st.fork()
        outs = v.eng.body_outs(f, v.eng.bind(f, args, {}, s0), o, s0)
        last = K if user != "cat" else K - 1          # index of the last pre-bin
        q, t = z3.Ints("q t")
        # record b is in pre-bin j: S(j-1) <= x < S(j) (a category code below its group's bound for user groups)
        inbin = lambda b, j: z3.And(z3.Or(j == 0, S(j - 1) <= X(b) if user != "cat" else S(j - 1) < X(b)),
                                    z3.Or(j == K, X(b) < S(j) if user != "cat" else X(b) <= S(j)))
        rng = [q >= 0, q <= last]
        if len(DIG) == 1:
            k, plain = z3.Int("k"), inbin
            inbin = lambda b, j: rv(DIG[0].fn(b)) == j
            v.prove("the pre-bin of a record", outs[0][0], inbin(k, q) == plain(k, q), rng + [k >= 0, k < m])
        zero = z3.IntVal(0)
        whole = (lambda t: z3.ToInt(t) if z3.is_expr(t) and t.sort() == REAL else t) if frac else (lambda t: t)      # counts are whole numbers: fractional totals are truncated
        cnt = lambda s, cond, j, val=None: whole(v.sum(s, lambda b: z3.If(z3.And(inbin(b, j), cond(b)), W(b) if val is None else val(b), zero if (W(b) if val is None else val(b)).sort() == INT else z3.RealVal(0)), 0, m))
        one = lambda b: z3.IntVal(1)
        ev = lambda s, j: cnt(s, lambda b: Y(b) != 0, j)
        nev = lambda s, j: cnt(s, lambda b: Y(b) == 0, j)
        if kind == "bin": impure = lambda s, j: z3.Or(ev(s, j) == 0, nev(s, j) == 0)
        elif kind == "cont": impure = lambda s, j: cnt(s, lambda b: z3.BoolVal(True), j) == 0
        else:
            impure = lambda s, j: z3.Or(*[z3.Or(cnt(s, lambda b, c_=c_: Y(b) == c_, j, one) == 0, cnt(s, lambda b, c_=c_: Y(b) != c_, j, one) == 0) for c_ in cl])
        nret = 0
        for s, r in outs:
            if r.kind == "raise":
                if r.val.etype != "ValueError" or not fixed:
                    ctx.prove("no %s raised (%s)" % (r.val.etype, (r.val.msg or "")[:40]), s.pc, z3.BoolVal(False)); continue
                cs, hyp = v.witness(s)
                nb = lambda j: z3.Or(z3.And(j == K - 1, impure(s, last)), impure(s, j)) if user != "cat" else z3.Or(
                    z3.And(j == K - 2, impure(s, last)), z3.And(z3.Or(j < K - 1, K == 1), impure(s, j)))
                v.prove("raises only when a fixed split borders an impure pre-bin", s,
                        z3.Or(*[z3.And(0 <= j, j < K, FIX(j), nb(j)) for j in cs]), hyp)
                continue
            ca = st.get(o) and s.get(o).attrs.get("_call")
            it = v.eng.as_items(r.val, s)
            if ca is None:
                nret += 1
                al, e, a = alive(v, s, it[0], q)
                v.prove("pure pre-bins: splits returned unchanged", s, z3.And(rv(a.n) == K, al, v.eq(e, S(q))), [q >= 0, q < K])
                if kind == "bin":
                    v.prove("pure pre-bins: non-events of each pre-bin", s, v.eq(v.get(s, it[1], q), nev(s, q)), rng)
                    v.prove("pure pre-bins: events of each pre-bin", s, v.eq(v.get(s, it[2], q), ev(s, q)), rng)
                    if div == "iv":
                        v.prove("every pre-bin has an event and a non-event", s, z3.And(rr(v.get(s, it[1], q)) > 0, rr(v.get(s, it[2], q)) > 0), rng)
                    else:
                        fl = v.attr(s, o, "_flag_min_n_event_nonevent")
                        v.prove("an impure pre-bin only remains when the solver is asked to bound events and non-events", s,
                                z3.Or(bz(fl), z3.And(rr(v.get(s, it[1], q)) > 0, rr(v.get(s, it[2], q)) > 0)), rng)
                    ctx.prove("one count per pre-bin", s.pc, z3.And(rv(v.shape(s, it[1])[0]) == last + 1, rv(v.shape(s, it[2])[0]) == last + 1))
                elif kind == "cont":
                    wy = lambda b: z3.ToReal(W(b)) * Y(b)
                    T_ = lambda b: z3.BoolVal(True)
                    v.prove("records of each pre-bin", s, v.eq(v.get(s, it[1], q), cnt(s, T_, q)), rng)
                    v.prove("every pre-bin has a record", s, rr(v.get(s, it[1], q)) > 0, rng)
                    v.prove("sum of each pre-bin", s, v.eq(v.get(s, it[2], q), cnt(s, T_, q, wy)), rng)
                    v.prove("sum of squares of each pre-bin", s, v.eq(v.get(s, it[3], q), cnt(s, T_, q, lambda b: wy(b) * wy(b))), rng)
                    v.prove("zeros of each pre-bin", s, v.eq(v.get(s, it[7], q), cnt(s, lambda b: wy(b) == 0, q, one)), rng)
                    ctx.prove("one entry per pre-bin", s.pc, z3.And(*[rv(v.shape(s, it[z])[0]) == last + 1 for z in range(1, 8)]))
                else:
                    for u, c_ in enumerate(cl):
                        v.prove("class %d: others of each pre-bin" % u, s, v.eq(v.get(s, it[1], q, u), cnt(s, lambda b: Y(b) != c_, q, one)), rng)
                        v.prove("class %d: records of each pre-bin" % u, s, v.eq(v.get(s, it[2], q, u), cnt(s, lambda b: Y(b) == c_, q, one)), rng)
                        v.prove("class %d: every pre-bin has a record of it and of another" % u, s, z3.And(rr(v.get(s, it[1], q, u)) > 0, rr(v.get(s, it[2], q, u)) > 0), rng)
                continue
            d, fx, us, nr = rec[ca]
            nret += 1
            for u, z in enumerate(it): ctx.fact("the refined splits and counts are returned (%d)" % u, isinstance(z, Opaque) and z.name == "result%d" % u)
            al, e, a = alive(v, s, d["splits_prebinning"], q)
            rq = [q >= 0, q < K]
            v.prove("the remaining splits are a subset of the candidates, in order", s, z3.And(rv(a.n) == K, z3.Implies(al, v.eq(e, S(q)))), rq)
            if div != "iv": continue
            v.prove("only splits of impure pre-bins are removed", s, z3.Implies(z3.Not(al), z3.Or(impure(s, q), z3.And(q == K - 1, impure(s, last) if user != "cat" else False),
                    z3.And(q == K - 2, impure(s, last)) if user == "cat" else False)), rq)
            v.prove("an impure pre-bin is merged with its neighbour", s,
                    z3.Implies(impure(s, q), z3.Not(alive(v, s, d["splits_prebinning"], q)[0])), [q >= 0, q < K - (1 if user == "cat" else 0)])
            if user == "cat":
                v.prove("an impure last group is merged with the one before", s, z3.Implies(z3.And(K >= 2, impure(s, last)), z3.And(z3.Not(alive(v, s, d["splits_prebinning"], K - 2)[0]),
                        alive(v, s, d["splits_prebinning"], K - 1)[0])))
            else:
                v.prove("an impure last pre-bin is merged with the one before", s, z3.Implies(impure(s, last), z3.Not(alive(v, s, d["splits_prebinning"], K - 1)[0])))
            v.prove("at least one split is removed (the refinement ends)", s, z3.Exists([t], z3.And(0 <= t, t < K, z3.Not(alive(v, s, d["splits_prebinning"], t)[0]))))
            k = z3.Int("k")
            for nm, F in (("x", X), ("sw", W), ("y", Y), ("y0", lambda b: Y(b) == 0), ("y1", lambda b: Y(b) != 0)):
                if nm not in d: continue
                al2, e2, a2 = alive(v, s, d[nm], k)
                v.prove("refined again on the same records (%s)" % nm, s, z3.And(rv(a2.n) == m, al2, v.eq(e2, F(k))), [k >= 0, k < m])
            if fixed:
                alf, ef, af = alive(v, s, fx, q); alu, eu, au = alive(v, s, us, q)
                v.prove("no fixed split is removed", s, z3.Implies(FIX(q), al), rq)
                v.prove("fixed flags stay with their splits", s, z3.And(alf == al, z3.Implies(al, v.eq(ef, FIX(q)))), rq)
                v.prove("user splits stay with the pre-bins", s, z3.And(alu == al, z3.Implies(al, v.eq(eu, US(q)))), rq)
        ctx.fact("both outcomes are reached", nret >= 1)
        INF_OK[0] = False
        v.done()
    return g


def scen(fixed, N=2):
    """the refinement of multi-scenario binning: N scenarios (unrolled)"""
    def g(ctx):
        v = VC(ctx); st = v.st
        mod, cls = "optbinning.binning.uncertainty.binning_scenarios", "SBOptimalBinning"
        K = v.int("K", lambda K: K >= 1); S = v.fun("S"); i, j, q, t, k = z3.Ints("i j q t k")
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < K), S(i) < S(j))))
        FIX, US = v.fun("FIX", BOOL), v.fun("US")
        at = dict(verbose=False, _n_refinements=z3.Int("nref"), _n_scenarios=N, user_splits=None, user_splits_fixed=None, _user_splits=None, _user_splits_fixed=None)
        if fixed: at["user_splits"] = at["_user_splits"] = v.arr(K, US); at["user_splits_fixed"] = at["_user_splits_fixed"] = v.arr(K, FIX)
        m = [v.int("m%d" % z, lambda m: m >= 1) for z in range(N)]
        X, Y = [v.fun("X%d" % z) for z in range(N)], [v.fun("Y%d" % z, INT) for z in range(N)]
        o = v.obj(mod + ":" + cls, at)
        rec = []
        def again(eng, st, a, kw):
            d = dict(zip(("self", "splits_prebinning", "x", "y"), a)); d.update(kw)
            r = st.alloc(HList([Opaque("result%d" % q) for q in range(3)]))
            rec.append((d, v.attr(st, d["self"], "_user_splits_fixed"), v.attr(st, d["self"], "_user_splits")))
            st.put(d["self"], HInst(st.get(d["self"]).cls, dict(st.get(d["self"]).attrs, _call=len(rec) - 1)))
            return r
        v.eng.contracts["%s.%s._compute_prebins" % (mod, cls)] = again
        f = v.eng.class_attr(v.eng.module(mod).lookup(cls), "_compute_prebins")
        ctx.function("%s:%s._compute_prebins" % (mod, cls))
        x, y = v.list([v.arr(m[z], X[z]) for z in range(N)]), v.list([v.arr(m[z], Y[z]) for z in range(N)])
        args = [o, v.arr(K, S), x, y]
        DIG = []
        def dg(eng, st, a, kw, m0=v.eng.ext["numpy.digitize"]):
            r = m0(eng, st, a, kw); DIG.append(eng.as_arr(r, st)); return r
        v.eng.ext["numpy.digitize"] = dg
        s0 = st.fork()
        outs = v.eng.body_outs(f, v.eng.bind(f, args, {}, s0), o, s0)
        if len(DIG) != N: raise Unsupported("digitize calls")
        plain = lambda z, b, j: z3.And(z3.Or(j == 0, S(j - 1) <= X[z](b)), z3.Or(j == K, X[z](b) < S(j)))
        inbin = lambda z, b, j: rv(DIG[z].fn(b)) == j
        rng = [q >= 0, q <= K]
        for z in range(N): v.prove("the pre-bin of a record (scenario %d)" % z, outs[0][0], inbin(z, k, q) == plain(z, k, q), rng + [k >= 0, k < m[z]])
        cnt = lambda s, z, ev, j: v.sum(s, lambda b: z3.If(z3.And(inbin(z, b, j), (Y[z](b) == 0) != ev), z3.IntVal(1), z3.IntVal(0)), 0, m[z])
        impure = lambda s, j: z3.Or(*[cnt(s, z, e, j) == 0 for z in range(N) for e in (True, False)])
        n = 0
        for s, r in outs:
            if r.kind == "raise":
                if r.val.etype != "ValueError" or not fixed:
                    ctx.prove("no %s raised (%s)" % (r.val.etype, (r.val.msg or "")[:40]), s.pc, z3.BoolVal(False)); continue
                cs, hyp = v.witness(s)
                nb = lambda j: z3.Or(z3.And(j == K - 1, impure(s, K)), impure(s, j))
                v.prove("raises only when a fixed split borders an impure pre-bin", s, z3.Or(*[z3.And(0 <= j, j < K, FIX(j), nb(j)) for j in cs]), hyp)
                continue
            n += 1
            ca = s.get(o).attrs.get("_call"); it = v.eng.as_items(r.val, s)
            if ca is None:
                al, e, a = alive(v, s, it[0], q)
                v.prove("pure pre-bins: splits returned unchanged", s, z3.And(rv(a.n) == K, al, v.eq(e, S(q))), [q >= 0, q < K])
                for z in range(N):
                    v.prove("scenario %d: non-events of each pre-bin" % z, s, v.eq(v.get(s, it[1], q, z), cnt(s, z, False, q)), rng)
                    v.prove("scenario %d: events of each pre-bin" % z, s, v.eq(v.get(s, it[2], q, z), cnt(s, z, True, q)), rng)
                    v.prove("scenario %d: every pre-bin has an event and a non-event" % z, s, z3.And(rr(v.get(s, it[1], q, z)) > 0, rr(v.get(s, it[2], q, z)) > 0), rng)
                ctx.prove("one count per pre-bin", s.pc, z3.And(rv(v.shape(s, it[1])[0]) == K + 1, rv(v.shape(s, it[2])[0]) == K + 1))
                continue
            d, fx, us = rec[ca]
            for u, z in enumerate(it): ctx.fact("the refined splits and counts are returned (%d)" % u, isinstance(z, Opaque) and z.name == "result%d" % u)
            al, e, a = alive(v, s, d["splits_prebinning"], q)
            rq = [q >= 0, q < K]
            v.prove("the remaining splits are a subset of the candidates, in order", s, z3.And(rv(a.n) == K, z3.Implies(al, v.eq(e, S(q)))), rq)
            v.prove("only splits of impure pre-bins are removed", s, z3.Implies(z3.Not(al), z3.Or(impure(s, q), z3.And(q == K - 1, impure(s, K)))), rq)
            v.prove("an impure pre-bin is merged with its neighbour", s, z3.Implies(impure(s, q), z3.Not(al)), rq)
            v.prove("an impure last pre-bin is merged with the one before", s, z3.Implies(impure(s, K), z3.Not(alive(v, s, d["splits_prebinning"], K - 1)[0])))
            v.prove("at least one split is removed (the refinement ends)", s, z3.Exists([t], z3.And(0 <= t, t < K, z3.Not(alive(v, s, d["splits_prebinning"], t)[0]))))
            for nm, FF in (("x", X), ("y", Y)):
                l2 = v.eng.as_items(d[nm], s)
                for z in range(N):
                    al2, e2, a2 = alive(v, s, l2[z], k)
                    v.prove("refined again on the same records (%s, scenario %d)" % (nm, z), s, z3.And(rv(a2.n) == m[z], al2, v.eq(e2, FF[z](k))), [k >= 0, k < m[z]])
            if fixed:
                alf, ef, af = alive(v, s, fx, q); alu, eu, au = alive(v, s, us, q)
                v.prove("no fixed split is removed", s, z3.Implies(FIX(q), al), rq)
                v.prove("fixed flags stay with their splits", s, z3.And(alf == al, z3.Implies(al, v.eq(ef, FIX(q)))), rq)
                v.prove("user splits stay with the pre-bins", s, z3.And(alu == al, z3.Implies(al, v.eq(eu, US(q)))), rq)
        ctx.fact("both outcomes are reached", n >= 1)
        v.done()
    return g


GROUPS = []
for kd in ("bin", "cont", "multi"):
    GROUPS.append(("%s numerical" % kd, prebins(kd, None, False), 120))
    GROUPS.append(("%s numerical fixed user splits" % kd, prebins(kd, "num", True), 120))
    if kd != "multi":
        GROUPS.append(("%s categorical user splits" % kd, prebins(kd, "cat", False), 120))
        GROUPS.append(("%s categorical fixed user splits" % kd, prebins(kd, "cat", True), 120))
GROUPS.append(("bin numerical hellinger", prebins("bin", None, False, "hellinger"), 120))
GROUPS.append(("bin numerical fractional weights", prebins("bin", None, False, frac=True), 120))
GROUPS += [("scenarios numerical", scen(False), 120), ("scenarios numerical fixed user splits", scen(True), 120)]
ASSUMPTIONS.append("multi-scenario refinement: two scenarios (the loop over scenarios is unrolled)")
