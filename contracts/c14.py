"""C14  A binning process transforms each column as its own binning does (BinningProcess._transform, _transform_disk)."""
import z3
from lib.vc import *
from pyvc.models import b_isinstance

M = "optbinning.binning.binning_process"
SEARCH_BUDGET = 40
ASSUMPTIONS = ["a per-variable binning's transform is a function of the values and the settings it is given (C01, C02), value by value; its indices are integers",
               "pandas reads and writes the csv files of transform_disk without loss"]

# value of the transform of the binning of a variable: value, metric (or its default), special, missing, digits (or its default), check_input
TR = z3.Function("transform_of", U, REAL, U, U, U, U, U, REAL)
PWV = z3.Function("is_piecewise", U, BOOL)
NONE = None


def setting(key): return z3.Function("has_" + key, U, BOOL), z3.Function("param_" + key, U, U)


def world(v, params):
    """the fitted binnings and per-variable parameters, by variable name"""
    eng, st = v.eng, v.st
    none = ops.u_of(None)
    def tget(eng, st, a, kw): return st.alloc(HInst("Par", {"name": a[1]}))
    def pget(eng, st, a, kw):
        o, k = a[0], a[1]; d = a[2] if len(a) > 2 else None
        h, p = setting(k); nm = st.get(o).attrs["name"]
        return z3.If(h(nm), p(nm), ops.u_of(d))
    eng.methods[("TP", "get")], eng.methods[("Par", "get")] = tget, pget
    def vget(eng, st, a, kw): return st.alloc(HInst("Optb", {"name": a[1]}))
    eng.methods[("VarDict", "__getitem__")] = vget
    def values(eng, st, a, kw): return st.alloc(HList([st.alloc(HInst("Optb", {"name": fresh("some", U)}))]))
    eng.methods[("VarDict", "values")] = values
    def transform(eng, st, a, kw):
        o, kw = a[0], dict(kw)
        if len(a) != 1: raise Unsupported("positional arguments of transform")
        x = eng.as_arr(kw.pop("x"), st)
        nm = st.get(o).attrs["name"]
        g = [ops.u_of(kw.pop(k)) if k in kw else none for k in ("metric", "metric_special", "metric_missing", "show_digits", "check_input")]
        if kw: raise PyRaise("TypeError", "unexpected argument")
        return st.alloc(HArr(Arr(x.shape, lambda i: TR(nm, rr(x.fn(i)), *g), "float", x.mask)))
    eng.methods[("Optb", "transform")] = transform
    def isinst(eng, st, a, kw):
        o = a[0]
        if isinstance(o, Ref) and isinstance(st.get(o), HInst) and st.get(o).cls == "Optb":
            names = {getattr(c, "qual", getattr(c, "name", "")).split(".")[-1] for c in (a[1] if isinstance(a[1], tuple) else (a[1],))}
            if names == {"OptimalPWBinning", "ContinuousOptimalPWBinning"}: return PWV(st.get(o).attrs["name"])
            raise Unsupported("isinstance of a binning")
        return b_isinstance(eng, st, a, kw)
    eng.ext["isinstance"] = isinst
    return st.alloc(HInst("VarDict", {})), st.alloc(HInst("TP", {})) if params else None


def integers(st):
    xs, xr, gs = z3.Const("nm", U), z3.Real("xr"), [z3.Const("g%d" % t, U) for t in range(4)]
    ti = TR(xs, xr, ops.u_of("indices"), *gs)
    st.assume(z3.ForAll([xs, xr] + gs, z3.ToReal(z3.ToInt(ti)) == ti, patterns=[ti]))
    st.assume(z3.Distinct(*[ops.u_of(t) for t in ("woe", "bins", "indices", None)]))
    return xs, gs, xr, ti


def spec(N, params, metric, sp, ms, sd, ci):
    """want(j, x): value of record x of variable j under the settings that apply to it; met(j): its metric"""
    um, nu = ops.u_of(metric), ops.u_of(None)
    def eff(key, j, d):
        if not params: return d
        h, p = setting(key)
        return z3.If(h(N(j)), p(N(j)), d)
    met = lambda j: eff("metric", j, um)
    want = lambda j, x: TR(N(j), x, met(j), eff("metric_special", j, sp), eff("metric_missing", j, ms), z3.If(PWV(N(j)), nu, eff("show_digits", j, sd)), ci)
    return want, met


def refused(v, s, res, k, n, S, met, metric, params):
    """a raising path: one of the two documented refusals"""
    if res.kind != "raise": return False
    if res.val.etype == "ValueError" and "mixed" in (res.val.msg or "") and params:
        b = z3.Int("b1")
        if metric != "bins":
            v.prove("error %d: only when texts and numbers would be mixed" % k, s, z3.Exists([b], z3.And(b >= 0, b < n, S(b), met(b) == ops.u_of("bins"))))
    elif not (res.val.etype == "TypeError" and metric in ("indices", "bins")):
        v.prove("%s %d: not raised" % (res.val.etype, k), s, z3.BoolVal(False))
    return True


def check(v, ctx, s, k, S, N, n, ns, a, cols, want):
    """a: transformed values; one column per selected variable, in their order"""
    j, r = z3.Ints("j r")
    C = s.ghost.get("compact", ())
    ctx.fact("columns %s: one enumeration of the selected variables" % k, len(C) == 1)
    m, nn, e, rk = C[0]
    # sel: the increasing enumeration of the selected variables (its defining facts are part of the path condition)
    v.prove("columns %s: enumeration of the selected variables" % k, s, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), bz(m(j)) == S(j))))
    v.prove("columns %s: one per selected variable and record" % k, s, z3.And(rv(a.shape[0]) == ns, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, S(j)), z3.And(rk(j) >= 0, rk(j) < rv(a.shape[1]))))))
    if cols is not None:
        v.prove("columns %s: names" % k, s, z3.Implies(z3.And(j >= 0, j < n, S(j)), v.eq(cols.fn(rk(j)), N(j))))
        v.prove("columns %s: number of names" % k, s, rv(cols.n) == rv(a.shape[1]))
    v.prove("values %s: transform of the own binning with the own settings" % k, s,
            z3.Implies(z3.And(j >= 0, j < n, S(j), r >= 0, r < ns), v.eq(a.fn(r, rk(j)), want(j, r))))


def transform(frame, params, metric):
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        ns, n = v.int("n_samples", lambda t: t >= 1), v.int("n_variables", lambda t: t >= 1)
        S, N = v.fun("S", BOOL), v.fun("name", U)
        vd, tp = world(v, params)
        sp, ms, sd, ci = [z3.Const(k, U) for k in ("metric_special", "metric_missing", "show_digits", "check_input")]
        o = v.obj(M + ":BinningProcess", dict(_support=v.arr(n, S), variable_names=v.arr(n, N, islist=True), _is_fitted=True, _is_updated=False,
                                              _binned_variables=vd, binning_transform_params=tp))
        if frame:
            XC = v.fun("X", REAL, U, INT)
            HC = v.fun("has_column", BOOL, U)
            eng.methods[("DataFrame", "__getitem__")] = lambda eng, st, a, kw: st.alloc(HArr(Arr((ns,), lambda i: XC(a[1], rv(i)), "float")))
            def attr(eng, o, nm, st):
                if nm == "shape": return (ns, v.int("n_columns"))
                if nm == "columns": return st.alloc(HInst("Columns", {}))
                if nm == "index": return Opaque("index")
                raise Unsupported("DataFrame." + nm)
            eng.methods[("DataFrame", "*")] = attr
            eng.methods[("Columns", "__contains__")] = lambda eng, st, a, kw: HC(ops.u_of(a[1]))
            X = st.alloc(HInst("DataFrame", {}))
            val = lambda j, r: XC(N(j), r)
        else:
            XC = v.fun("X", REAL, INT, INT)
            X = v.arr2(ns, n, lambda i, j: XC(i, j)); val = lambda j, r: XC(r, j)
        eng.ext["pandas.DataFrame"] = lambda eng, st, a, kw: st.alloc(HInst("OutFrame", dict(kw, data=a[0])))
        integers(st)
        j, r = z3.Ints("j r")
        if frame: st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, S(j)), HC(N(j)))))
        want, met = spec(N, params, metric, sp, ms, sd, ci)
        anysel = z3.Exists([j], z3.And(j >= 0, j < n, S(j)))
        ctx.function("%s:BinningProcess._transform" % M)
        k = 0
        ctx.function("%s:BinningProcess.transform" % M); ctx.function("%s:BinningProcess.get_support" % M)
        kw = dict(metric_special=sp, metric_missing=ms, show_digits=sd, check_input=ci)
        if metric is not None: kw["metric"] = metric
        for s, res in v.method(o, "transform", [X], kw):
            k += 1
            if refused(v, s, res, k, n, S, met, metric, params): continue
            out, cols = res.val, None
            if frame:
                rec = s.get(res.val)
                if isinstance(rec, HInst):
                    out, cols = rec.attrs["data"], sums.compact(v.eng, s, v.eng.as_arr(rec.attrs["columns"], s))
                    ctx.fact("frame %d: index of the input" % k, isinstance(rec.attrs.get("index"), Opaque) and rec.attrs["index"].name == "index")
            a = v.eng.as_arr(out, s)
            C = s.ghost.get("compact", ())
            if not C:
                v.prove("no column %d: only without selected variables" % k, s, z3.And(rv(a.shape[0]) == ns, rv(a.shape[1]) == 0, z3.Not(anysel)))
                continue
            check(v, ctx, s, k, S, N, n, ns, a, cols, lambda j, r: want(j, val(j, r)))
        v.done()
    return g



def disk(params, metric):
    """transform_disk: two chunks (the loop over chunks carries nothing but the header flag)"""
    def g(ctx):
        v = VC(ctx); st = v.st; eng = v.eng
        n = v.int("n_variables", lambda t: t >= 1)
        S, N = v.fun("S", BOOL), v.fun("name", U)
        vd, tp = world(v, params)
        sp, ms, sd = [z3.Const(k, U) for k in ("metric_special", "metric_missing", "show_digits")]
        o = v.obj(M + ":BinningProcess", dict(_support=v.arr(n, S), variable_names=v.arr(n, N, islist=True), _is_fitted=True, _is_updated=False,
                                              _binned_variables=vd, binning_transform_params=tp))
        XC = [v.fun("X%d" % c, REAL, U, INT) for c in range(2)]
        ns = [v.int("n_samples%d" % c, lambda t: t >= 0) for c in range(2)]
        log = st.alloc(HList([])); reads = []
        def column(eng, st, a, kw):
            c = st.get(a[0]).attrs["c"]
            return st.alloc(HArr(Arr((ns[c],), lambda i: XC[c](a[1], rv(i)), "float")))
        eng.methods[("Chunk", "__getitem__")] = column
        def attr(eng, o, nm, st):
            if nm == "shape": return (ns[st.get(o).attrs["c"]], v.int("n_columns"))
            raise Unsupported("DataFrame." + nm)
        eng.methods[("Chunk", "*")] = attr
        def read_csv(eng, st, a, kw):
            reads.append((a, kw))
            return st.alloc(HList([st.alloc(HInst("Chunk", {"c": c})) for c in range(2)]))
        eng.ext["pandas.read_csv"] = read_csv
        eng.ext["pandas.DataFrame"] = lambda eng, st, a, kw: st.alloc(HInst("OutFrame", dict(kw, data=a[0])))
        def to_csv(eng, st, a, kw):
            d = st.get(a[0]).attrs
            st.heap[log.id] = HList(list(st.heap[log.id].items) + [(d["data"], d["columns"], tuple(a[1:]), tuple(sorted(kw.items())))])
        eng.methods[("OutFrame", "to_csv")] = to_csv
        xs, gs, xr, ti = integers(st)
        j, r = z3.Ints("j r")
        want, met = spec(N, params, metric, sp, ms, sd, ops.u_of(None))
        cs = v.int("chunksize", lambda t: t >= 1)
        kw = dict(metric_special=sp, metric_missing=ms, show_digits=sd)
        if metric is not None: kw["metric"] = metric
        ctx.function("%s:BinningProcess.transform_disk" % M); ctx.function("%s:BinningProcess._transform_disk" % M)
        k = 0
        for s, res in v.method(o, "transform_disk", ["in.csv", "out.csv", cs], kw):
            k += 1
            if refused(v, s, res, k, n, S, met, metric, params): continue
            D = s.get(log).items
            ctx.fact("chunks %d: each written once, in order" % k, len(D) == 2)
            for c, (data, cols, a, kw2) in enumerate(D):
                kw2 = dict(kw2)
                ctx.fact("chunk %d/%d: appended to the output, header once" % (k, c), a == ("out.csv",) and kw2.get("mode") == "a" and kw2.get("index") is False and kw2.get("header") is (c == 0))
                data, cols = v.eng.as_arr(data, s), sums.compact(v.eng, s, v.eng.as_arr(cols, s))
                check(v, ctx, s, "%d/%d" % (k, c), S, N, n, ns[c], data, cols, lambda j, r, c=c: want(j, XC[c](N(j), r)))
        for a, kw2 in reads[:1]:
            ctx.fact("reads: the input in chunks of the given size", len(a) == 1 and a[0] == "in.csv" and kw2["chunksize"] is cs)
        v.done()
    return g


GROUPS = []
for fr in (False, True):
    for pa in (False, True):
        for me in (None, "woe", "indices", "bins"):
            GROUPS.append(("%s, %s, metric=%s" % ("data frame" if fr else "array", "per-variable settings" if pa else "common settings", me), transform(fr, pa, me), 100))
for pa in (False, True):
    for me in (None, "woe", "indices", "bins"):
        GROUPS.append(("disk, %s, metric=%s" % ("per-variable settings" if pa else "common settings", me), disk(pa, me), 100))
