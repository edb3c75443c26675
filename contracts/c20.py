"""C20  Saving a fitted binning and reading it back preserves its table."""
import z3
from lib.vc import *

M = {"bin": ("optbinning.binning.binning", "OptimalBinning", "BinningTable"), "cont": ("optbinning.binning.continuous_binning", "ContinuousOptimalBinning", "ContinuousBinningTable"),
     "multi": ("optbinning.binning.multiclass_binning", "MulticlassOptimalBinning", "MulticlassBinningTable")}
S = "optbinning.binning.binning_statistics"
SEARCH_BUDGET = 45
ASSUMPTIONS = ["json.load of what json.dump wrote: numbers, strings, booleans, None and dicts with string keys come back equal, lists and tuples as lists of the images of their items, "
               "and an array the default hook turned into a list as that list (IEEE doubles are written so that they are read back exactly)",
               "the table's build reads only the constructor attributes of the table (C03); an array and the list of its elements have equal elements"]
FIELDS = {"bin": {"n_nonevent": INT, "n_event": INT}, "cont": {"n_records": INT, "sums": REAL, "stds": REAL, "min_target": REAL, "max_target": REAL, "n_zeros": INT}, "multi": {"classes": INT}}


def image(eng, st, v, hook, depth=0):
    """the value read back from json for a written value"""
    if isinstance(v, Ref):
        r = st.get(v)
        if isinstance(r, HDict): return st.alloc(HDict({k: image(eng, st, x, hook, depth + 1) for k, x in r.items.items()}))
        if isinstance(r, HArr):
            if not r.arr.islist:                          # not json-serialisable: the default hook of json.dump decides
                if hook is None: raise PyRaise("TypeError", "Object of type ndarray is not JSON serializable")
                return image(eng, st, eng.call(hook, [v], {}, st), None, depth + 1)
            return st.alloc(HArr(Arr(r.arr.shape, r.arr.fn, r.arr.dtype, r.arr.mask, islist=True)))
        if isinstance(r, HList): return st.alloc(HList([image(eng, st, x, hook, depth + 1) for x in r.items]))
        raise Unsupported("json of %r" % (r,))
    if isinstance(v, tuple): return st.alloc(HList([image(eng, st, x, hook, depth + 1) for x in v]))
    return v


def roundtrip(kind, dtype, special, arrays):
    def g(ctx):
        v = VC(ctx)
        st = v.st
        mod, cls, tab = M[kind]
        n, r = v.int("n", lambda n: n >= 0), v.int("r", lambda r: r >= 1)
        at = {"name": "variable"}
        if kind != "multi":
            at["dtype"] = dtype
            at["min_x"], at["max_x"] = (v.real("lo"), v.real("hi")) if dtype == "numerical" else (None, None)
        for f, s in FIELDS[kind].items(): at[f] = v.arr(r, v.fun("T_" + f, s))
        if kind == "multi": at["n_event"] = v.arr2(r, v.int("c", lambda c: c >= 2), v.fun("T_n_event", INT, INT, INT))
        at["special_codes"] = {"none": lambda: None, "list": lambda: v.list([v.real("s1"), v.real("s2")]), "array": lambda: v.arr(2, v.fun("T_sp")),
                               "dict": lambda: st.alloc(HDict({"a": v.real("s1"), "b": v.list([v.real("s2"), v.real("s3")])}))}[special]()
        G = v.fun("T_group", U, INT)
        if dtype == "categorical":
            at["splits"] = v.list([v.arr(v.int("g%d" % k, lambda g: g >= 1), v.fun("T_split%d" % k, U)) for k in range(2)])
            cats = lambda nm, m: v.arr(m, v.fun(nm, U)) if arrays else v.list([z3.Const(nm + "0", U), z3.Const(nm + "1", U)])
            at["categories"], at["cat_others"] = cats("T_cat", v.int("nc", lambda m: m >= 1)), cats("T_oth", v.int("no", lambda m: m >= 0))
            at["user_splits"] = v.arr(v.int("nu", lambda m: m >= 1), v.fun("T_us", U)) if arrays else None
        else:
            at["splits"] = v.arr(n, v.fun("T_splits"))
            if kind != "multi": at["categories"], at["cat_others"], at["user_splits"] = None, v.list([]), (v.arr(v.int("nu", lambda m: m >= 1), v.fun("T_us")) if arrays else None)
        table = v.obj(S + ":" + tab, at)
        o = v.obj(mod + ":" + cls, {"_is_fitted": True, "_binning_table": table})
        p = v.obj(mod + ":" + cls, {"_is_fitted": False})
        wrote = {}
        def dump(eng, st, a, k):
            wrote["path"] = st.get(a[1]).attrs["path"] if isinstance(a[1], Ref) else None
            wrote["mode"] = st.get(a[1]).attrs["mode"]
            wrote["val"] = image(eng, st, a[0], k.get("default"))
        def opn(eng, st, a, k): return st.alloc(HInst("File", {"path": a[0], "mode": a[1] if len(a) > 1 else k.get("mode", "r")}))
        def load(eng, st, a, k):
            wrote["rmode"] = st.get(a[0]).attrs["mode"]
            wrote["rpath"] = st.get(a[0]).attrs["path"]
            return wrote["val"]
        v.eng.ext["builtins.open"] = v.eng.ext["open"] = opn
        v.eng.methods[("File", "__enter__")] = lambda eng, st, a, k: a[0]
        v.eng.methods[("File", "__exit__")] = lambda eng, st, a, k: None
        v.eng.ext["json.dump"], v.eng.ext["json.load"] = dump, load
        f = v.eng.module(S).lookup(tab)
        init = v.eng.class_attr(f, "__init__")
        names = [x.arg for x in init.node.args.args][1:]
        def mk(eng, st, a, k):
            d = dict(zip(names, a)); d.update(k)
            return st.alloc(HInst("Table", d))
        v.eng.contracts[S + "." + tab] = mk
        P = Opaque("path")
        ctx.function("%s:%s.to_json" % (mod, cls)); ctx.function("%s:%s.read_json" % (mod, cls))
        for s, _ in v.returns("to_json", v.method(o, "to_json", [P])):
            if "val" not in wrote: ctx.fact("to_json writes the table", False); continue
            ctx.fact("written to the given path", wrote["path"] is P and wrote["mode"] == "w")
            for s2, _ in v.returns("read_json", v.method(p, "read_json", [P], st=s)):
                t = s2.get(p).attrs.get("_binning_table")
                ok = isinstance(t, Ref) and getattr(s2.get(t), "cls", None) == "Table" and s2.get(p).attrs.get("_is_fitted") is True
                ctx.fact("the table read is the object's table", ok)
                if not ok: continue
                d = s2.get(t).attrs
                ctx.fact("read from the given path", wrote["rpath"] is P and wrote["rmode"] == "r")
                ctx.fact("every value read is a parameter of the table", set(d) <= set(names))
                for nm in names:
                    if nm not in at: continue
                    if nm not in d:
                        ctx.fact("%s is written and read" % nm, at[nm] is None or nm == "cat_others" and dtype == "numerical"); continue
                    same(v, s2, nm, d[nm], at[nm], o)
        v.done()
    return g


def same(v, s, nm, a, b, o):
    """the value read equals the value of the table"""
    if b is None or isinstance(b, (str, Opaque)) or is_num(b) or is_z3(b):
        v.prove("%s comes back" % nm, s, z3.BoolVal(a is b or a == b) if not (is_z3(a) or is_z3(b)) else v.eq(a, b)); return
    r = s.get(b)
    if isinstance(r, HDict):
        q = s.get(a)
        v.ctx.fact("%s comes back with its keys" % nm, isinstance(q, HDict) and list(q.items) == list(r.items))
        for k in r.items: same(v, s, "%s[%s]" % (nm, k), q.items[k], r.items[k], o)
        return
    if isinstance(r, HList):
        it = v.eng.as_items(a, s)
        if it is None:
            e = v.eng.as_arr(a, s)
            v.prove("%s comes back with its length" % nm, s, rv(e.n) == len(r.items))
            it = [e.fn(k) for k in range(len(r.items))]
        else: v.ctx.fact("%s comes back with its length" % nm, len(it) == len(r.items))
        for k, x in enumerate(r.items): same(v, s, "%s[%d]" % (nm, k), it[k], x, o)
        return
    e, x = v.eng.as_arr(a, s), r.arr
    if e is None: v.ctx.fact("%s comes back as a sequence" % nm, False); return
    ks = [z3.Int("k%d" % i) for i in range(len(x.shape))]
    rng = [z3.And(k >= 0, k < rv(d)) for k, d in zip(ks, x.shape)]
    v.prove("%s comes back with its shape" % nm, s, z3.And(*[rv(p) == rv(q) for p, q in zip(e.shape, x.shape)]) if len(e.shape) == len(x.shape) else z3.BoolVal(False))
    v.prove("%s comes back" % nm, s, v.eq(e.fn(*ks), x.fn(*ks)), rng)


GROUPS = []
for kd in ("bin", "cont", "multi"):
    for sp in ("none", "list", "array", "dict"):
        GROUPS.append(("%s numerical special=%s" % (kd, sp), roundtrip(kd, "numerical", sp, sp == "array"), 40))
        if kd != "multi":
            GROUPS.append(("%s categorical special=%s" % (kd, sp), roundtrip(kd, "categorical", sp, sp in ("array", "dict")), 40))
