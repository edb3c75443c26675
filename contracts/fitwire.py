"""Contracts over the fit methods (shared by C02, C05, C06 and C21): which values reach which step.

The object's state attributes (everything assigned outside __init__) start with arbitrary 'stale' values, as after earlier fits."""
import ast
import z3
from lib.vc import *
from pyvc import npmodels

B = "optbinning.binning."
M = {"bin": (B + "binning", "OptimalBinning", "BinningTable"), "cont": (B + "continuous_binning", "ContinuousOptimalBinning", "ContinuousBinningTable"),
     "multi": (B + "multiclass_binning", "MulticlassOptimalBinning", "MulticlassBinningTable")}
S = B + "binning_statistics."
PARTS = ["x_clean", "y_clean", "x_missing", "y_missing", "x_special", "y_special", "y_others", "categories", "cat_others", "sw_clean", "sw_missing", "sw_special", "sw_others"]


def state_attrs(eng, cls):
    """attributes assigned by a method other than __init__"""
    out = []
    for c in eng.mro(cls):
        if not hasattr(c, "node"): continue
        for f in c.node.body:
            if not isinstance(f, ast.FunctionDef) or f.name == "__init__": continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr not in out: out.append(n.attr)
    return out


def make(v, kind, params):
    """an object with the given parameters whose state is left over from earlier fits"""
    mod, cls, _ = M[kind]
    c = v.eng.module(mod).lookup(cls)
    o = v.eng.instantiate(c, [], dict(params), v.st)
    at = dict(v.st.get(o).attrs)
    ps = set(v.eng.init_params(c))
    mut = [a for a in state_attrs(v.eng, c) if a in ps]
    v.ctx.fact("fit assigns no parameter (%s)" % ", ".join(mut), not mut)
    for a in state_attrs(v.eng, c):
        if a in ps: continue
        i = at.get(a)
        at[a] = z3.Bool("stale" + a) if isinstance(i, bool) else z3.Int("stale" + a) if isinstance(i, int) else Opaque("stale" + a)
    v.st.put(o, HInst(c, at))
    return o


def stale_in(v, s, x, depth=0):
    """stale values a value depends on"""
    if isinstance(x, Opaque): return {x.name} if x.name.startswith("stale") else set()
    if is_z3(x):
        out, todo, seen = set(), [x], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): todo.append(t.body()); continue
            if z3.is_const(t) and str(t).startswith("stale"): out.add(str(t))
            todo.extend(t.children())
        return out
    if isinstance(x, Fl): return stale_in(v, s, x.r) | (stale_in(v, s, x.nan) if is_z3(x.nan) else set())
    if depth > 4: return set()
    if isinstance(x, (tuple, list)): return set().union(*[stale_in(v, s, y, depth + 1) for y in x]) if x else set()
    if isinstance(x, dict): return set().union(*[stale_in(v, s, y, depth + 1) for y in x.values()]) if x else set()
    if isinstance(x, Ref):
        r = s.get(x)
        if isinstance(r, HList): return stale_in(v, s, list(r.items), depth + 1)
        if isinstance(r, HDict): return stale_in(v, s, list(r.items.values()), depth + 1)
        if isinstance(r, HArr):
            ks = [z3.Int("!st%d" % i) for i in range(len(r.arr.shape))]
            out = set()
            for e in [r.arr.fn(*ks)] + list(r.arr.shape) + ([r.arr.mask(ks[0])] if r.arr.mask else []): out |= stale_in(v, s, e, depth + 1)
            return out
    return set()


class Log:
    """calls recorded along a path"""
    def __init__(self, v):
        self.v = v
        self.ref = v.st.alloc(HInst("Log", {}))
    def add(self, st, name, d):
        at = dict(st.get(self.ref).attrs)
        k = 0
        while "%s#%d" % (name, k) in at: k += 1
        at["%s#%d" % (name, k)] = Opaque("call")
        for p, x in d.items(): at["%s#%d.%s" % (name, k, p)] = x
        st.put(self.ref, HInst("Log", at))
    def calls(self, s, name):
        at = s.get(self.ref).attrs
        out, k = [], 0
        while "%s#%d" % (name, k) in at:
            p = "%s#%d." % (name, k)
            out.append({q[len(p):]: x for q, x in at.items() if q.startswith(p)}); k += 1
        return out
    def all(self, s): return s.get(self.ref).attrs


def names_of(v, dotted, skip=0):
    m, f = dotted.rsplit(".", 1)
    n = v.eng.module(m).lookup(f)
    node = n.node if not isinstance(n, type(None)) and hasattr(n, "node") else None
    if isinstance(node, ast.ClassDef): node, skip = v.eng.class_attr(n, "__init__").node, 1
    return [a.arg for a in node.args.posonlyargs + node.args.args][skip:]


def record(v, log, dotted, short, ret, names=None):
    names = names or names_of(v, dotted)
    def c(eng, st, a, k):
        d = dict(zip(names, a)); d.update(k)
        log.add(st, short, d)
        return ret(eng, st, d)
    v.eng.contracts[dotted] = c


def mnames(v, kind, meth):
    c = v.eng.module(M[kind][0]).lookup(M[kind][1])
    return [a.arg for a in v.eng.class_attr(c, meth).node.args.args]


def common_env(v):
    v.eng.ext["time.perf_counter"] = lambda eng, st, a, k: z3.Real("clock")
    v.eng.ext["sklearn.utils.check_array"] = lambda eng, st, a, k: a[0]


def arrays(v, st, dtype):
    """the parts split_data returns: distinct arrays of arbitrary lengths"""
    out, F = [], {}
    for nm in PARTS:
        if nm in ("categories", "cat_others"):
            r = v.st.alloc(HInst("Categories", {"of": nm})) if dtype == "categorical" else v.list([])
            F[nm] = r; out.append(r); continue
        n = z3.Int("n_" + nm)
        st.assume(n >= (1 if nm.endswith("clean") else 0))
        if nm == "sw_clean" or nm == "y_clean": n = z3.Int("n_x_clean")
        if nm in ("sw_missing", "y_missing"): n = z3.Int("n_x_missing")
        if nm in ("sw_others",): n = z3.Int("n_y_others")
        if nm.endswith("others") and dtype != "categorical": n = z3.IntVal(0)
        f = z3.Function("P_" + nm, INT, REAL)
        F[nm] = (f, n)
        out.append(v.arr(n, f))
    return out, F


def is_arr(v, s, ref, F, k):
    """formula: ref is the array with elements F[0](k) and length F[1]"""
    if isinstance(F, Ref): return z3.BoolVal(isinstance(ref, Ref) and (ref == F or s.get(ref) is s.get(F)))
    a = v.eng.as_arr(ref, s)
    if a is None: return z3.BoolVal(False)
    return z3.And(rv(a.n) == F[1], z3.Implies(z3.And(k >= 0, k < F[1]), v.eq(a.fn(k), F[0](k))))


def fit(kind, dtype="numerical", user=None, want="wiring"):
    """kind's _fit; user: None, 'sorted' (user splits) ; want: 'wiring' (C02) or 'fresh' (C21)"""
    def g(ctx):
        v = VC(ctx)
        st = v.st
        mod, cls, tab = M[kind]
        common_env(v)
        INF_OK[0] = True
        k = z3.Int("k")
        params = {"monotonic_trend": None}
        if kind != "multi": params["dtype"] = dtype
        K = z3.Int("K"); US, FX = v.fun("US"), v.fun("FX", BOOL)
        if user:
            st.assume(K >= 1)
            params["user_splits"] = v.arr(K, US) if dtype == "numerical" else v.arr(K, v.fun("USG", U))
            params["user_splits_fixed"] = v.arr(K, FX)
        params["special_codes"] = v.list([z3.Real("s1")])
        if kind == "bin": params["class_weight"] = Opaque("class_weight")
        params["outlier_detector"], params["outlier_params"] = Opaque("outlier_detector"), Opaque("outlier_params")
        o = make(v, kind, params)
        log = Log(v)
        parts, F = arrays(v, st, dtype)
        x, y, sw = v.arr(z3.Int("m"), v.fun("X")), v.arr(z3.Int("m"), v.fun("Y")), v.arr(z3.Int("m"), v.fun("SW"))
        st.assume(z3.Int("m") >= 1)
        v.eng.contracts[mod + "._check_parameters"] = lambda eng, st, a, kk: None
        record(v, log, B + "preprocessing.split_data", "split", lambda eng, st, d: tuple(parts))
        PERM = v.fun("PERM", INT, INT)
        F2 = dict(F)
        if user and dtype == "categorical":
            p2 = {}
            for nm in ("x_clean", "y_clean", "y_others", "sw_clean", "sw_others"):
                n = z3.Int("u_" + (nm if nm[2:] != "clean" else "x_clean")); st.assume(n >= (1 if "clean" in nm else 0))
                if nm in ("y_clean", "sw_clean"): n = z3.Int("u_x_clean")
                if nm == "sw_others": n = z3.Int("u_y_others")
                f = z3.Function("U_" + nm, INT, REAL); F2[nm] = (f, n); p2[nm] = v.arr(n, f)
            st.assume(z3.Int("u_x_clean") >= 1)
            for nm in ("categories", "cat_others"): F2[nm] = p2[nm] = v.st.alloc(HInst("Categories", {"of": "user " + nm}))
            UC = v.fun("UCODE"); p2["user_splits"] = v.arr(K, UC); p2["idx"] = v.arr(K, PERM)
            st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(PERM(k) >= 0, PERM(k) < K))))
            record(v, log, B + "preprocessing.preprocessing_user_splits_categorical", "usercat",
                   lambda eng, st, d: tuple(p2[q] for q in ("categories", "user_splits", "x_clean", "y_clean", "y_others", "cat_others", "sw_clean", "sw_others", "idx")))
        v.eng.methods[("Categories", "__len__")] = lambda eng, st, a, kk: z3.Int("n_" + str(st.get(a[0]).attrs["of"]).replace(" ", "_"))
        # the refinement (C08) and the totals of the special, missing and others records (this property)
        def tins(nm, k_):
            return lambda eng, st, d: tuple(z3.Int("%s_%d_%s" % (nm, q, len(log.calls(st, nm)))) for q in range(k_))
        if kind == "bin":
            record(v, log, S + "target_info_special", "tspecial", tins("tspecial", 2))
            record(v, log, S + "target_info_samples", "tsamples", tins("tsamples", 2))
        elif kind == "cont":
            record(v, log, S + "target_info_special_continuous", "tspecial", tins("tspecial", 6))
        else:
            record(v, log, S + "target_info_special_multiclass", "tspecial", lambda eng, st, d: v.st_list(st, "tsp"))
            record(v, log, S + "target_info", "tinfo", tins("tinfo", 2))
            v.st_list = lambda st, nm: st.alloc(HList([z3.Int(nm + "0"), z3.Int(nm + "1")]))
            v.eng.ext["numpy.dtype"] = lambda eng, st, a, kk: Ext("numpy.dtype.obj") if a[0] == "object" else eng.ext_missing("numpy.dtype")
            v.eng.ext["numpy.unique"] = lambda eng, st, a, kk: v.st_list(st, "class")
        R = z3.Int("R"); st.assume(R >= 0)
        SPL = v.fun("SPLITS")
        cols = {"bin": ["nonevent", "event"], "cont": ["records", "sums", "ssums", "stds", "min_t", "max_t", "zeros"], "multi": ["nonevent", "event"]}[kind]
        nb = R + 1
        def prebins(eng, st, d):
            def col(c):
                f = z3.Function("PB_" + c, *([INT] * (2 if kind == "multi" else 1) + [REAL]))
                return st.alloc(HArr(Arr((nb, 2), lambda i, j: f(rv(i), rv(j)), "float"))) if kind == "multi" else v.arr(nb, f, st=st)
            log.add(st, "state", {"fx": v.attr(st, d["self"], "_user_splits_fixed"), "us": v.attr(st, d["self"], "_user_splits")})
            return tuple([v.arr(R, SPL, st=st)] + [col(c) for c in cols])
        record(v, log, "%s.%s._compute_prebins" % (mod, cls), "prebins", prebins, mnames(v, kind, "_compute_prebins"))
        # pre-binning: any splits
        PS, NP = v.fun("PRESPLITS"), z3.Int("NP"); st.assume(NP >= 0)
        def mkpre(eng, st, d): return st.alloc(HInst("PreBinning", {}))
        record(v, log, B + "prebinning.PreBinning", "PreBinning", mkpre)
        def pfit(eng, st, a, kk):
            d = dict(zip(("self", "x", "y", "sample_weight"), a)); d.update(kk)
            log.add(st, "prefit", d)
            st.put(a[0], HInst("PreBinning", {"splits": v.arr(NP, PS, st=st)}))
            return a[0]
        v.eng.methods[("PreBinning", "fit")] = pfit
        def opt(eng, st, d):
            r = st.get(d["self"]); at = dict(r.attrs)
            at.update(_solution=Opaque("solution"), _splits_optimal=Opaque("splits_optimal"), _status=Opaque("status"))
            st.put(d["self"], HInst(r.cls, at))
        record(v, log, "%s.%s._fit_optimizer" % (mod, cls), "optimizer", opt, mnames(v, kind, "_fit_optimizer"))
        info = {"bin": "bin_info", "cont": "continuous_bin_info", "multi": "multiclass_bin_info"}[kind]
        nout = {"bin": 2, "cont": 6, "multi": 1}[kind]
        record(v, log, S + info, "info", lambda eng, st, d: Opaque("row0") if nout == 1 else tuple(Opaque("row%d" % q) for q in range(nout)))
        record(v, log, S + tab, "table", lambda eng, st, d: st.alloc(HInst("Table", {})))
        c = v.eng.module(mod).lookup(cls)
        ctx.function("%s:%s._fit" % (mod, cls))
        CHK = z3.Bool("check_input")
        args = [x, y, CHK] if kind == "multi" else [x, y, sw, CHK]
        paths = []
        for s, out in v.method(o, "_fit", args):
            if out.kind == "raise":
                if out.val.etype == "ValueError" and user and "not unique" in (out.val.msg or ""): continue
                if out.val.etype == "ValueError" and kind == "multi" and "numerical" in (out.val.msg or ""): continue
                ctx.prove("fit: no %s raised (%s)" % (out.val.etype, (out.val.msg or "")[:40]), s.pc, z3.BoolVal(False)); continue
            paths.append(s)
        ctx.fact("fit: returns", bool(paths))
        for s in paths:
            if want == "samples":
                r = v.attr(s, o, "_n_samples")
                v.prove("the number of samples is the length of the input", s, rv(r) == z3.Int("m") if is_num(r) else z3.BoolVal(False))
            elif want == "fixed": fixed_path(v, s, log, ctx, dtype, K, US, z3.Function("UCODE", INT, REAL), FX, PERM)
            elif want == "fresh": fresh_path(v, s, o, log, ctx, kind)
            else: wiring_path(v, s, o, log, ctx, kind, dtype, user, F, F2, dict(x=x, y=y, sw=sw), params, k, K, US, FX, R, SPL, PS, NP, cols)
        INF_OK[0] = False
        v.done()
    return g


def fixed_path(v, s, log, ctx, dtype, K, US, UC, FX, PERM):
    """the refinement starts from the user's splits in ascending order, each with its own fixed flag"""
    calls, states = log.calls(s, "prebins"), log.calls(s, "state")
    if len(calls) != 1: ctx.fact("the user splits are refined once", False); return
    k, m = z3.Int("k"), z3.Int("m")
    a, f = v.eng.as_arr(calls[0]["splits_prebinning"], s), v.eng.as_arr(states[0]["fx"], s)
    if a is None or f is None: ctx.fact("the refinement gets the splits and their fixed flags", False); return
    rng = [k >= 0, k < K, m >= 0, m < K]
    if dtype == "categorical":
        v.prove("user groups in the order of their codes", s, z3.And(rv(a.n) == K, v.eq(a.fn(k), UC(k))), rng)
        v.prove("the fixed flag of each group stays with it", s, z3.And(rv(f.n) == K, v.eq(f.fn(k), FX(PERM(k)))), rng)
        return
    v.prove("the fixed flag of each user split stays with it", s, z3.And(rv(a.n) == K, rv(f.n) == K, z3.Implies(v.eq(a.fn(k), US(m)), v.eq(f.fn(k), FX(m)))),
            rng + [z3.ForAll([k, m], z3.Implies(z3.And(0 <= k, k < m, m < K), US(k) != US(m)))])
    v.prove("the splits are the user's, in ascending order", s, z3.And(z3.Implies(k < m, rr(a.fn(k)) <= rr(a.fn(m))), z3.Exists([m], z3.And(0 <= m, m < K, v.eq(a.fn(k), US(m))))), rng)
    for p, q, n in s.ghost.get("perms", ())[-1:]:
        v.prove("every user split is handed over", s, z3.And(0 <= q(m), q(m) < K, v.eq(a.fn(q(m)), US(m))), rng)


RESULTS = ["_n_refinements", "_splits_optimal", "_solution", "_status", "_n_prebins", "_n_samples", "_binning_table"]
RESULTS_OF = {"bin": ["_flag_min_n_event_nonevent", "_user_splits", "_user_splits_fixed", "_categories", "_cat_others", "_n_event", "_n_nonevent", "_n_event_missing", "_n_nonevent_missing",
                      "_n_event_special", "_n_nonevent_special"],
              "cont": ["_user_splits", "_user_splits_fixed", "_categories", "_cat_others", "_n_records", "_sums", "_stds", "_n_zeros", "_min_target", "_max_target",
                       "_n_records_missing", "_sum_missing", "_std_missing", "_min_target_missing", "_max_target_missing", "_n_zeros_missing",
                       "_n_records_special", "_sum_special", "_std_special", "_min_target_special", "_max_target_special", "_n_zeros_special"],
              "multi": ["_user_splits", "_user_splits_fixed", "_classes", "_n_classes", "_n_event", "_n_event_missing", "_n_event_special"]}


def fresh_path(v, s, o, log, ctx, kind):
    bad = set()
    for q, x in log.all(s).items():
        d = stale_in(v, s, x)
        if q.startswith("info#") and q.split(".")[-1].replace("_cat", "").endswith("others") and "others" in "".join(d):
            # handed to the row builder, which reads it only when there are other categories (C02)
            continue
        if q.endswith(".self"): continue
        bad |= {"%s reaches %s" % (z, q) for z in d}
    for h in s.pc:
        bad |= {"a branch depends on %s" % z for z in stale_in(v, s, h)}
    at = s.get(o).attrs
    for a, x in at.items():
        d = stale_in(v, s, x)
        d -= {"stale" + a}
        bad |= {"%s reaches attribute %s" % (z, a) for z in d}
    ctx.fact("fit depends on no state of an earlier fit (%s)" % "; ".join(sorted(bad)[:3]), not bad)
    left = [a for a in RESULTS + RESULTS_OF[kind]
            if a in at and stale_in(v, s, at[a])]
    ctx.fact("fit sets every result anew (%s)" % ", ".join(left), not left)


def wiring_path(v, s, o, log, ctx, kind, dtype, user, F, F2, inp, params, k, K, US, FX, R, SPL, PS, NP, cols):
    one = lambda nm: (log.calls(s, nm) + [None])[0]
    def arr(label, ref, Fx): v.prove(label, s, is_arr(v, s, ref, Fx, k) if ref is not None else z3.BoolVal(False))
    sp = one("split")
    for nm, key in (("x", "x"), ("y", "y")): ctx.fact("split_data gets the caller's %s" % nm, sp.get(nm) is inp[key] or sp.get(nm) == inp[key])
    if kind != "multi": ctx.fact("split_data gets the caller's weights", sp.get("sample_weight") == inp["sw"])
    for p in ("special_codes", "cat_cutoff", "user_splits", "outlier_detector", "outlier_params") + (("class_weight",) if kind == "bin" else ()):
        if p not in v.eng.init_params(v.eng.module(M[kind][0]).lookup(M[kind][1])) or kind == "multi" and p in ("user_splits", "cat_cutoff"): continue
        w = params.get(p)
        ctx.fact("split_data gets %s" % p, sp.get(p) is w or sp.get(p) == w)
    ctx.fact("split_data gets no bounds", sp.get("fix_lb") is None and sp.get("fix_ub") is None)
    G = F2 if user and dtype == "categorical" else F
    if user and dtype == "categorical":
        uc = one("usercat")
        arr("user groups are coded on the clean records", uc.get("x"), F["x_clean"]); arr("with their targets", uc.get("y"), F["y_clean"])
        arr("with their weights", uc.get("sample_weight", uc.get("sw")), F["sw_clean"])
    if not user:
        pf = one("prefit")
        arr("pre-binning of the clean records", pf.get("x"), F["x_clean"]); arr("pre-binning with their targets", pf.get("y"), F["y_clean"])
        if kind != "multi": arr("pre-binning with their weights", pf.get("sample_weight"), F["sw_clean"])
    # totals of the special, missing and others records
    ts = one("tspecial")
    ctx.fact("special totals use the special codes", ts.get("special_codes") == params["special_codes"])
    arr("special totals of the special records", ts.get("x"), F["x_special"]); arr("special totals of their targets", ts.get("y"), F["y_special"])
    if kind != "multi": arr("special totals of their weights", ts.get("sw"), F["sw_special"])
    inf = one("info")
    pb = one("prebins")
    if pb is not None:
        arr("refinement of the clean records", pb.get("x"), G["x_clean"])
        if kind == "bin":
            for nm, eqv in (("y0", True), ("y1", False)):
                a = v.eng.as_arr(pb.get(nm), s)
                v.prove("refinement with their %s" % ("non-events" if eqv else "events"), s, z3.And(rv(a.n) == G["y_clean"][1], bz(a.fn(k)) == ((G["y_clean"][0](k) == 0) == eqv)), [k >= 0, k < G["y_clean"][1]])
        else: arr("refinement with their targets", pb.get("y"), G["y_clean"])
        if kind != "multi": arr("refinement with their weights", pb.get("sw"), G["sw_clean"])
        a = v.eng.as_arr(pb.get("splits_prebinning"), s)
        if not user: v.prove("refinement of the pre-binning splits", s, z3.And(rv(a.n) == NP, v.eq(a.fn(k), PS(k))), [k >= 0, k < NP])
    op = one("optimizer")
    if pb is not None:
        a = v.eng.as_arr(op["splits"], s)
        v.prove("the optimizer gets the refined splits", s, z3.And(rv(a.n) == R, v.eq(a.fn(k), SPL(k))), [k >= 0, k < R])
    onames = {"bin": {"n_nonevent": "nonevent", "n_event": "event"}, "cont": {"n_records": "records", "sums": "sums", "ssums": "ssums", "stds": "stds"}, "multi": {"n_nonevent": "nonevent", "n_event": "event"}}[kind]
    j = z3.Int("j")
    def pbcol(label, ref, c):
        a = v.eng.as_arr(ref, s)
        f = z3.Function("PB_" + c, *([INT] * (2 if kind == "multi" else 1) + [REAL]))
        if a is None or len(a.shape) != (2 if kind == "multi" else 1): ctx.fact(label, False); return
        ix = (k, j) if kind == "multi" else (k,)
        v.prove(label, s, v.eq(a.fn(*ix), f(*ix)), [k >= 0, k < R + 1])
    if pb is not None:
        for p, c in onames.items(): pbcol("the optimizer gets the pre-bins' %s" % c, op[p], c)
    # rows of the table
    ctx.fact("rows from the optimizer's solution", isinstance(inf["solution"], Opaque) and inf["solution"].name == "solution")
    inames = {"bin": {"n_nonevent": "nonevent", "n_event": "event"}, "cont": {"n_records": "records", "sums": "sums", "ssums": "ssums", "stds": "stds", "min_t": "min_t", "max_t": "max_t", "n_zeros": "zeros"},
              "multi": {"n_event": "event"}}[kind]
    one_bin = one("tsamples") is not None
    splits0 = not v.eng.entails(s.pc, R >= 1) if pb is not None else True
    if not splits0:
        for p, c in inames.items():
            nm = p if p in inf else {"min_t": "min_target", "max_t": "max_target"}.get(p, p)
            if nm in inf: pbcol("rows from the pre-bins' %s" % c, inf[nm], c)
            else: ctx.fact("rows from the pre-bins' %s" % c, False)
    Z = lambda x: z3.BoolVal(False) if not is_z3(x) else x
    if kind == "bin":
        tsam = log.calls(s, "tsamples")
        def result_of(label, got, part, q):
            """got is the q-th total of a target_info_samples call on (y_part, sw_part)"""
            hit = None
            for i, d in enumerate(tsam):
                if is_z3(got) and str(got) == "tsamples_%d_%d" % (q, i + 1): hit = d
            if hit is None: ctx.fact(label, False); return
            arr(label, hit.get("y"), G["y_" + part]); arr(label + " (weights)", hit.get("sw"), G["sw_" + part])
        for q, c in enumerate(("n_nonevent", "n_event")):
            result_of("missing row: %s of the missing records" % c, inf[c + "_missing"], "missing", q)
            ctx.fact("special rows: %s of the special records" % c, is_z3(inf[c + "_special"]) and str(inf[c + "_special"]) == "tspecial_%d_1" % q)
            if dtype == "categorical" and v.eng.entails(s.pc, G["y_others"][1] >= 1):
                result_of("others row: %s of the others" % c, inf[c + "_cat_others"], "others", q)
            if v.eng.entails(s.pc, R == 0) and pb is not None:
                e = v.eng.as_arr(inf[c], s)
                if e is None: ctx.fact("single bin: %s of all clean records" % c, False)
                else: result_of("single bin: %s of all clean records" % c, e.fn(0), "clean", q)
    if kind == "cont":
        for q, c in enumerate(("n_records", "sum", "n_zeros", "std", "min_target", "max_target")):
            nm = c + "_special"
            got = inf.get(nm, inf.get(c + "_special"))
            ctx.fact("special rows: %s of the special records" % c, is_z3(got) and str(got) == "tspecial_%d_1" % q)
        def tot(label, got, ypart, wpart, f):
            fy, n = G[ypart]; fw = G[wpart][0]
            s2 = s.fork(); s2.pc = list(s.pc)
            v.prove(label, s2, v.eq(got, v.sum(s2, lambda b: f(fy(b), fw(b)), 0, n)))
        for part, sfx in (("missing", "missing"), ("others", "cat_others")):
            if part == "others" and not (dtype == "categorical" and v.eng.entails(s.pc, G["y_others"][1] >= 1)): continue
            tot("%s row: records" % part, inf["n_records_" + sfx], "y_" + part, "sw_" + part, lambda y, w: w)
            tot("%s row: sum" % part, inf["sum_" + sfx], "y_" + part, "sw_" + part, lambda y, w: y * w)
            zs = inf.get("n_zeros_" + sfx, inf.get("n_zeros_" + part))
            tot("%s row: zeros" % part, zs, "y_" + part, "sw_" + part, lambda y, w: z3.If(y * w == 0, z3.RealVal(1), z3.RealVal(0)))
        if v.eng.entails(s.pc, R == 0) and pb is not None:
            tot("single bin: records", inf["n_records"], "y_clean", "sw_clean", lambda y, w: w)
            tot("single bin: sum", inf["sums"], "y_clean", "sw_clean", lambda y, w: w * y)
            tot("single bin: sum of squares", inf["ssums"], "y_clean", "sw_clean", lambda y, w: (w * y) * (w * y))
    if kind == "multi":
        ctx.fact("special rows of the special records", v.eng.as_items(inf["n_event_special"], s) is not None and [str(z) for z in v.eng.as_items(inf["n_event_special"], s)] == ["tsp0", "tsp1"])
        ti = log.calls(s, "tinfo")
        def of(label, got, ref, q):
            hit = [d for i, d in enumerate(ti) if is_z3(got) and str(got) == "tinfo_0_%d" % (i + 1)]
            if not hit: ctx.fact(label, False); return
            arr(label, hit[0].get("y"), ref)
            ctx.fact(label + " (class)", str(hit[0].get("cl")) == "class%d" % q)
        it = v.eng.as_items(inf["n_event_missing"], s)
        for q in range(2): of("missing row: records of class %d" % q, it[q], F["y_missing"], q)
        if v.eng.entails(s.pc, R == 0) and pb is not None:
            e = v.eng.as_arr(inf["n_event"], s)
            for q in range(2):
                of("single bin: records of class %d" % q, conc(e.fn(q)), F["y_clean"], q)
    tb = one("table")
    if kind == "bin": ctx.fact("the table holds the rows", [getattr(tb.get(q), "name", "") for q in ("n_nonevent", "n_event")] == ["row0", "row1"])
    if kind == "cont": ctx.fact("the table holds the rows", [getattr(tb.get(q), "name", "") for q in ("n_records", "sums", "stds", "min_target", "max_target", "n_zeros")] == ["row%d" % q for q in range(6)])
    if kind == "multi": ctx.fact("the table holds the rows", getattr(tb.get("n_event"), "name", "") == "row0")
    ctx.fact("the table holds the optimal splits and the special codes", getattr(tb.get("splits"), "name", "") == "splits_optimal" and tb.get("special_codes") == params["special_codes"])
    if kind != "multi":
        for nm in ("categories", "cat_others"):
            ctx.fact("the table holds the %s" % nm, tb.get(nm) == G[nm])
        ctx.fact("rows of the others when there are other categories", (inf.get("cat_others") == G["cat_others"]))
        if dtype == "numerical":
            f, n = F["x_clean"]
            for nm, sgn in (("min_x", 1), ("max_x", -1)):
                v.prove("the table's %s" % nm, s, z3.Implies(z3.And(k >= 0, k < n), (rr(tb.get(nm)) - f(k)) * sgn <= 0))


def groups(want):
    out = []
    for kd in ("bin", "cont", "multi"):
        for dt in (("numerical", "categorical") if kd != "multi" else ("numerical",)):
            for us in ((None, True) if want != "fixed" else (True,)):
                out.append(("fit %s %s%s" % (kd, dt, " user splits" if us else ""), fit(kd, dt, us, want), 60))
    return out
