"""Trusted contracts of Python builtins, numpy and the other external functions the verified code calls."""
import ast
import math
from fractions import Fraction
import z3
from .values import *
from . import ops, sums

_UF = {}
def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    if key not in _UF:
        _UF[key] = z3.Function(name, *(sorts or (REAL, REAL)))
    return _UF[key]

CONSTS = {"numpy.inf": float("inf"), "numpy.nan": float("nan"), "np.inf": float("inf"), "numpy.e": math.e,
          "numpy.pi": math.pi, "numpy.NaN": float("nan"), "numpy.newaxis": None}
PROPS = {}
SPECIAL = []      # hooks: objects with methods special_xxx


def _hook(name):
    def f(eng, *a):
        for h in SPECIAL:
            m = getattr(h, name, None)
            if m is not None:
                r = m(eng, *a)
                if r is not NotImplemented: return r
        return NotImplemented
    return f
special_binop = _hook("binop")
special_unop = _hook("unop")
special_compare = _hook("compare")
special_len = _hook("length")
special_iter = _hook("iter_")
special_attr = _hook("attr")
special_getitem = _hook("getitem")
special_setitem = _hook("setitem")


def freeze_special(eng, st, v, r, base):
    if isinstance(r, HInst) and isinstance(r.cls, ClassVal):
        from .loops import freeze
        return Rec(r.cls, {k: freeze(eng, st, x, base) for k, x in r.attrs.items()})
    raise Unsupported("object created in a symbolic iteration escapes")


# ------------------------------------------------------------------------------------------------ dynamic parameters
def isinstance_pv(eng, v, cls):
    n = cls.name.split(".")[-1] if isinstance(cls, (Ext, ClassVal)) else None
    full = cls.name if isinstance(cls, Ext) else cls.qual
    if n in ("Integral", "int") or full in ("numpy.integer",): return z3.Or(PV.is_PInt(v), PV.is_PBool(v))
    if n in ("Number", "Real"): return ops.pv_isnum(v)
    if n == "float": return PV.is_PReal(v)
    if n == "bool": return PV.is_PBool(v)
    if n == "str": return PV.is_PStr(v)
    if n in ("list", "tuple", "dict", "set"): return z3.And(PV.is_PObj(v), PV.pkind(v) == kind_id(n))
    if full in ("numpy.ndarray", "pandas.DataFrame", "pandas.Series"):
        return z3.And(PV.is_PObj(v), PV.pkind(v) == kind_id(full))
    return z3.And(PV.is_PObj(v), PV.pkind(v) == kind_id(n))


def b_isinstance(eng, st, args, kw):
    v, cls = args
    if isinstance(cls, tuple):
        r = Or(*[b_isinstance(eng, st, [v, c], {}) for c in cls])
        return r
    if is_pv(v): return isinstance_pv(eng, v, cls)
    n = cls.name.split(".")[-1]
    full = cls.name if isinstance(cls, Ext) else cls.qual
    if v is None: return n == "NoneType"
    if isinstance(v, bool) or is_sbool(v): return n in ("bool", "Integral", "Number", "int", "Real")
    if isinstance(v, int) or (is_z3(v) and v.sort() == INT): return n in ("Integral", "Number", "int", "Real")
    if isinstance(v, (float, Fl, Fraction)) or (is_z3(v) and v.sort() == REAL): return n in ("Number", "float", "Real")
    if isinstance(v, (str, OpaqueStr)): return n == "str"
    if isinstance(v, tuple): return n == "tuple"
    if isinstance(v, Arr) or isinstance(v, Ref):
        r = st.get(v) if isinstance(v, Ref) else HArr(v)
        if isinstance(r, HList) or (isinstance(r, HArr) and r.arr.islist): return n == "list"
        if isinstance(r, HArr): return n == "ndarray"
        if isinstance(r, HDict): return n == "dict"
        if isinstance(r, HSet): return n == "set"
        if isinstance(r, HInst):
            if isinstance(r.cls, ClassVal): return eng.is_subclass(r.cls, n)
            return str(r.cls).split(".")[-1] == n
    if is_z3(v) and v.sort() == U:
        if n == "str": return uf("u_isstr", U, BOOL)(v)
    if isinstance(v, Opaque): raise Unsupported("isinstance of opaque")
    return False


def pv_attr(eng, v, name, st):
    key = ("pv", name)
    m = eng.methods.get(key)
    if m is not None: return ops.bind_py(m, v)
    # attribute of a dynamic object
    ok = z3.And(PV.is_PObj(v), phas(PV.pid(v), str_id(name)))
    if not eng.decide(ok, st): raise PyRaise("AttributeError", name)
    return pattr(PV.pid(v), str_id(name))


def pv_getitem(eng, v, k, st):
    isc = PV.is_PObj(v)
    if not eng.decide(isc, st): raise PyRaise("TypeError", "not subscriptable")
    i = PV.pid(v)
    if isinstance(k, str) or is_pv(k):
        kk = eng.to_pv(k, st)
        if not eng.decide(z3.And(PV.pkind(v) == kind_id("dict")), st): raise PyRaise("TypeError", "not a mapping")
        j = fresh("key")
        has = z3.Exists([j], z3.And(j >= 0, j < plen(i), pelem(i, j) == kk))
        if not eng.decide(has, st): raise PyRaise("KeyError")
        return uf("pget", INT, PV, PV)(i, kk)
    if is_num(k):
        n = plen(i)
        j = ops.norm_index(eng, st, k, n)
        return pelem(i, rv(j))
    raise Unsupported("index of dynamic value")


def inst_method(eng, ref, rec, name, st):
    """methods inherited from external bases"""
    if name == "get_params":
        def get_params(eng, st, args, kw):
            return st.alloc(HDict({p: eng.getattr(ref, p, st) for p in sorted(eng.init_params(rec.cls))}))
        return get_params
    if name == "set_params":
        def set_params(eng, st, args, kw):
            if args: raise PyRaise("TypeError", "set_params")
            r = st.get(ref); at = dict(r.attrs)
            for k, v in kw.items():
                if "__" in k: raise Unsupported("nested parameter")
                if k not in eng.init_params(rec.cls): raise PyRaise("ValueError", "set_params")
                at[k] = v
            st.put(ref, HInst(r.cls, at))
            return ref
        return set_params
    return None


# ------------------------------------------------------------------------------------------------ builtins
def b_len(eng, st, args, kw): return ops.length(eng, args[0], st)


def _scan(eng, st, v, want):
    """any (want=True) / all (want=False)"""
    it = eng.iter_of(v, st)
    if isinstance(it, list):
        bs = [eng.to_bool(x, st) for x in it]
        return Or(*bs) if want else And(*bs)
    k = fresh("q")
    b = eng.to_bool(it.val(k), st)
    g = And(k >= 0, k < rv(it.n), it.mask(k) if it.mask else True)
    if isinstance(b, bool):
        if b != want: return not want if True else None
        ex = z3.Exists([k], bz(g)) if it.mask else rv(it.n) > 0
        return ex if want else Not(ex)
    if want: return z3.Exists([k], bz(And(g, b)))
    return z3.ForAll([k], z3.Implies(bz(g), bz(b)))

def b_any(eng, st, args, kw): return _scan(eng, st, args[0], True)
def b_all(eng, st, args, kw): return _scan(eng, st, args[0], False)


def arr_sum(eng, st, a, axis=None):
    """sum of the elements (symbolic or concrete)"""
    if len(a.shape) == 1:
        n = conc(a.n)
        if isinstance(n, int) and a.mask is None and n <= 40:
            r = 0
            for i in range(n): r = ops.arith(eng, "+", r, num_of(a.fn(i)), st)
            return r
        e = a.fn(fresh("nn"))
        if isinstance(e, Fl): raise Unsupported("sum of NaN-carrying array")
        return sums.ssum(eng, st, lambda i: rv(num_of(a.fn(i))), 0, a.n, a.mask)
    if len(a.shape) == 2:
        if axis is None:
            return arr_sum(eng, st, Arr((a.shape[0],), lambda i: arr_sum(eng, st, Arr((a.shape[1],), lambda j: a.fn(i, j), a.dtype)), a.dtype, a.mask))
        if axis in (0, -2):
            return Arr((a.shape[1],), lambda j: arr_sum(eng, st, Arr((a.shape[0],), lambda i: a.fn(i, j), a.dtype, a.mask)), num_dt(a.dtype))
        if axis in (1, -1):
            return Arr((a.shape[0],), lambda i: arr_sum(eng, st, Arr((a.shape[1],), lambda j: a.fn(i, j), a.dtype)), num_dt(a.dtype), a.mask)
    raise Unsupported("sum over axis")


def num_dt(d): return "int" if d == "bool" else d
def num_of(v):
    if isinstance(v, bool): return int(v)
    if is_sbool(v): return rv(v)
    return v


def b_sum(eng, st, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    a = eng.as_arr(v, st)
    if a is not None and a.dtype == "nested":
        def inner(i):
            x = a.fn(i)
            return arr_sum(eng, st, x)
        r = sums.ssum(eng, st, lambda i: rv(inner(i)), 0, a.n, a.mask)
        return ops.binop(eng, ast.Add(), start, r, st) if not (isinstance(start, int) and start == 0) else r
    items = eng.as_items(v, st)
    if items is not None and a is None or (items is not None and isinstance(conc(a.n), int)):
        r = start
        for x in items: r = eng.binop(ast.Add(), r, num_of(x) if not isinstance(x, Ref) else x, st)
        return r
    it = eng.iter_of(v, st)
    if isinstance(it, ops.SymIter):
        a = Arr((it.n,), it.val, "x", it.mask)
        e = a.fn(fresh("t"))
        if isinstance(e, Arr): # sum of rows
            raise Unsupported("sum of arrays")
        r = arr_sum(eng, st, a)
        return eng.binop(ast.Add(), start, r, st) if not (isinstance(start, int) and start == 0) else r
    raise Unsupported("sum")


def b_minmax(kind):
    def f(eng, st, args, kw):
        if "key" in kw: raise Unsupported("min/max with key")
        vals = args
        if len(args) == 1:
            vals = eng.as_items(args[0], st)
            if vals is None:
                a = eng.as_arr(args[0], st)
                if a is not None: return arr_minmax(eng, st, a, kind)
                raise Unsupported("min/max of symbolic sequence")
        if not vals: raise PyRaise("ValueError", "min of empty")
        r = vals[0]
        for x in vals[1:]:
            if all(ops.is_conc_num(q) for q in (r, x)): r = max(r, x) if kind == "max" else min(r, x)
            else:
                inf = float("inf")
                for p, q in ((r, x), (x, r)):
                    if isinstance(p, float) and abs(p) == inf:
                        r = (p if (p > 0) == (kind == "max") else q); break
                else:
                    c = ops.cmp_scalar(eng, ">" if kind == "max" else "<", x, r, st)
                    r = eng.merge_vals([x, r], [bz(c), z3.BoolVal(True)], [st, st])
        return r
    return f


def arr_minmax(eng, st, a, kind):
    """extremum of a non-empty array: fresh value with its defining facts"""
    if len(a.shape) != 1: raise Unsupported("min/max of 2-d array")
    n = conc(a.n)
    if isinstance(n, int) and a.mask is None:
        if n == 1: return a.fn(0)
        return b_minmax(kind)(eng, st, [a.fn(i) for i in range(n)], {})
    ln = ops.length(eng, a, st)
    if not eng.decide(rv(ln) > 0, st): raise PyRaise("ValueError", "zero-size array reduction")
    t = fresh("t")
    e = a.fn(t)
    if isinstance(e, Fl): raise Unsupported("min/max of NaN-carrying array")
    if a.dtype == "nested" and isinstance(e, Arr) and len(e.shape) == 1:
        # flattened comprehension: all inner sequences must be non-empty
        inner = e
        gt = And(t >= 0, t < rv(a.n), a.mask(t) if a.mask else True)
        if inner.mask is not None or not eng.entails(list(st.pc) + [bz(gt)], rv(inner.n) > 0): raise Unsupported("min/max of possibly empty sequences")
        u = fresh("u")
        e = rv(num_of(inner.fn(u)))
        m = fresh(kind, e.sort())
        p, q = fresh("arg" + kind), fresh("arg" + kind)
        dom = And(gt, u >= 0, u < rv(inner.n))
        st.assume(z3.substitute(z3.And(bz(dom), m == e), (t, p), (u, q)))
        st.assume(z3.ForAll([t, u], z3.Implies(bz(dom), (e <= m) if kind == "max" else (e >= m))))
        return m
    e = rv(num_of(e))
    p = fresh("arg" + kind)
    m = fresh(kind, e.sort())
    g = And(t >= 0, t < rv(a.n), a.mask(t) if a.mask else True)
    cmp_ = (e <= m) if kind == "max" else (e >= m)
    st.assume(z3.And(p >= 0, p < rv(a.n), bz(a.mask(p) if a.mask else True), m == z3.substitute(e, (t, p))))
    st.assume(z3.ForAll([t], z3.Implies(bz(g), cmp_)))
    return m


def b_range(eng, st, args, kw):
    args = [ops.scal(eng, st, a) for a in args]
    args = [conc(z3.simplify(a)) if is_z3(a) else a for a in args]
    if len(args) == 1: return Rng(0, args[0])
    if len(args) == 2: return Rng(args[0], args[1])
    return Rng(*args)


def b_enumerate(eng, st, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    it = eng.iter_of(args[0], st)
    if isinstance(it, list): return [(i + start, v) for i, v in enumerate(it)]
    if it.mask is not None:
        from . import sums
        c = sums.compact(eng, st, Arr((it.n,), it.val, "obj", it.mask))
        it = ops.SymIter(c.n, c.fn)
    return ops.SymIter(it.n, lambda k: (k if ops.same_zero(start) else k + rv(start), it.val(k)))


def b_zip(eng, st, args, kw):
    its = [eng.iter_of(a, st) for a in args]
    if all(isinstance(i, list) for i in its): return list(zip(*its))
    if any(not isinstance(i, list) and i.mask is not None for i in its):
        from . import sums
        for q, i in enumerate(its):
            if isinstance(i, list) or i.mask is None: continue
            c = sums.compact(eng, st, Arr((i.n,), i.val, "obj", i.mask))
            its[q] = ops.SymIter(c.n, c.fn)
    n = None
    for i in its:
        m = len(i) if isinstance(i, list) else i.n
        if not isinstance(i, list) and i.mask is not None: raise Unsupported("zip of filtered sequence")
        if n is None: n = m
        elif not ops._eqdim(eng, st, n, m):
            x, y = rv(n), rv(m)
            n = x if eng.entails(st.pc, x <= y) else y if eng.entails(st.pc, y <= x) else z3.If(x <= y, x, y)
    def val(k):
        return tuple((ops.pick(eng, st, i, k) if isinstance(i, list) else i.val(k)) for i in its)
    return ops.SymIter(rv(n), val)


def b_list(eng, st, args, kw):
    if not args: return st.alloc(HList(()))
    it = eng.iter_of(args[0], st)
    if isinstance(it, list): return st.alloc(HList(it))
    return st.alloc(HArr(Arr((conc(it.n),), it.val, ops.dt_of(it.val(fresh("l"))), it.mask, islist=True)))


def b_tuple(eng, st, args, kw):
    if not args: return ()
    it = eng.iter_of(args[0], st)
    if isinstance(it, list): return tuple(it)
    return Arr((conc(it.n),), it.val, ops.dt_of(it.val(fresh("l"))), it.mask, islist=True)


def b_dict(eng, st, args, kw):
    d = {}
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v), HDict):
            r = st.get(v)
            return st.alloc(HDict({**r.items, **kw}, r.fams))
        it = eng.iter_of(v, st)
        if not isinstance(it, list): raise Unsupported("dict of symbolic sequence")
        for x in it:
            k, y = eng.as_items(x, st)
            d[eng.hashkey(k)] = y
    d.update(kw)
    return st.alloc(HDict(d))


def b_set(eng, st, args, kw):
    if not args: return st.alloc(HSet(()))
    it = eng.iter_of(args[0], st)
    if isinstance(it, list):
        if any(is_z3(x) for x in it): return st.alloc(HSet(it))
        out = []
        for x in it:
            if x not in out: out.append(x)
        return st.alloc(HSet(out))
    return st.alloc(HArr(Arr((conc(it.n),), it.val, "set", it.mask, islist=True)))


def b_abs(eng, st, args, kw):
    def f(x):
        if isinstance(x, Fl): return Fl(f(x.r), x.nan)
        if ops.is_conc_num(x): return abs(x)
        x = rv(x)
        return z3.If(x >= 0, x, -x)
    if eng.as_arr(args[0], st) is not None: return ops.lift(eng, st, f, args[0])
    return f(args[0])


def to_int(x):
    if isinstance(x, (bool, int, float, Fraction)): return int(x)
    if isinstance(x, Fl): raise Unsupported("int of NaN-able")
    x = rv(x)
    if x.sort() == INT: return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

def b_int(eng, st, args, kw):
    v = ops.scal(eng, st, args[0])
    if is_pv(v):
        if not eng.decide(ops.pv_isnum(v), st): raise PyRaise("ValueError")
        return to_int(ops.pv_real(v))
    if isinstance(v, (str, OpaqueStr)):
        if isinstance(v, str):
            try: return int(v)
            except ValueError: raise PyRaise("ValueError")
        raise Unsupported("int of string")
    if not (is_num(v) or isinstance(v, Fl)): raise PyRaise("TypeError") if v is None else Unsupported("int")
    return to_int(v)

def b_float(eng, st, args, kw):
    v = ops.scal(eng, st, args[0])
    if isinstance(v, str): return float(v)
    if isinstance(v, (bool, int)): return float(v)
    if isinstance(v, (float, Fl)): return v
    return rr(v)

def b_bool(eng, st, args, kw):
    return eng.to_bool(args[0], st) if args else False

def b_str(eng, st, args, kw):
    if not args: return ""
    v = args[0]
    if isinstance(v, (str, int)) and not isinstance(v, bool): return str(v)
    return OpaqueStr()

def b_sorted(eng, st, args, kw):
    it = eng.as_items(args[0], st)
    if it is not None and not any(is_z3(x) or isinstance(x, (Ref, tuple)) for x in it) and not kw:
        return st.alloc(HList(sorted(it)))
    if it is not None and not any(is_z3(x) for x in it) and set(kw) <= {"key", "reverse"} and isinstance(kw.get("reverse", False), bool):
        ks = [eng.call(kw["key"], [x], {}, st) if kw.get("key") is not None else x for x in it]
        if all(isinstance(k, (int, float)) for k in ks) or all(isinstance(k, str) for k in ks):
            return st.alloc(HList([it[q] for q in sorted(range(len(it)), key=lambda q: ks[q], reverse=kw.get("reverse", False))]))
    if ("sequence", "sorted") in eng.methods: return eng.methods[("sequence", "sorted")](eng, st, args, kw)
    raise Unsupported("sorted of symbolic sequence")

def b_reversed(eng, st, args, kw):
    it = eng.iter_of(args[0], st)
    if isinstance(it, list): return it[::-1]
    if it.mask is not None: raise Unsupported("reversed filtered")
    return ops.SymIter(it.n, lambda k: it.val(z3.simplify(rv(it.n) - 1 - k)))

def b_hasattr(eng, st, args, kw):
    o, n = args
    if is_pv(o): return z3.And(PV.is_PObj(o), phas(PV.pid(o), str_id(n)))
    if isinstance(o, Opaque): raise Unsupported("hasattr opaque")
    try:
        eng.getattr(o, n, st)
        return True
    except PyRaise as e:
        if e.etype == "AttributeError": return False
        raise

def b_getattr(eng, st, args, kw):
    try:
        return eng.getattr(args[0], args[1], st)
    except PyRaise:
        if len(args) > 2: return args[2]
        raise

def b_setattr(eng, st, args, kw):
    eng.setattr(args[0], args[1], args[2], st)

def b_callable(eng, st, args, kw):
    v = args[0]
    if is_pv(v): return z3.And(PV.is_PObj(v), uf("pcallable", INT, BOOL)(PV.pid(v)))
    return isinstance(v, (FuncVal, BoundMethod, ClassVal, Ext)) or callable(v)

def b_type(eng, st, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v), HInst): return st.get(v).cls
    raise Unsupported("type()")

def b_round(eng, st, args, kw):
    v = args[0]
    if len(args) > 1 and args[1] not in (None, 0): return uf("py_round", REAL, INT, REAL)(rr(v), rv(args[1]))
    if ops.is_conc_num(v): return round(v)
    x = rr(v)
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    return z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))

def b_print(eng, st, args, kw): return None
def b_map(eng, st, args, kw):
    it = eng.iter_of(args[1], st)
    if isinstance(it, list): return [eng.call(args[0], [x], {}, st) for x in it]
    raise Unsupported("map over symbolic")
def b_filter(eng, st, args, kw): raise Unsupported("filter")
def b_next(eng, st, args, kw): raise Unsupported("next")
def b_id(eng, st, args, kw): raise Unsupported("id")
def b_exc(name): return lambda eng, st, args, kw: ExcVal(name, tuple(args))


# ------------------------------------------------------------------------------------------------ list / dict / str methods
def l_append(eng, st, args, kw):
    from . import loops
    return loops.list_append(eng, st, args[0], args[1])

def s_add(eng, st, args, kw):
    o, v = args
    r = st.get(o)
    if isinstance(r, HSet):
        if any(ops.eq_scalar(eng, x, v, st) is True for x in r.items): return None
        st.put(o, HSet(r.items + (v,))); return None
    if isinstance(r, HArr):
        n = ops.concat(eng, st, [Arr(r.arr.shape, r.arr.fn, "obj", r.arr.mask, islist=True), ops.to_nd_list(eng, st, [v])], islist=True)
        st.put(o, HArr(Arr(n.shape, n.fn, "set", n.mask, islist=True))); return None
    from . import loops
    return loops.list_append(eng, st, o, v)

def s_pop(eng, st, args, kw):
    o = args[0]
    r = st.get(o)
    if isinstance(r, HSet):
        if not r.items: raise PyRaise("KeyError", "pop from an empty set")
        if len(r.items) > 1: raise Unsupported("pop of a set")
        st.put(o, HSet(())); return r.items[0]
    if not isinstance(r, HArr): raise Unsupported("pop of a set")
    a, p, j = r.arr, fresh("popped"), fresh("j")
    g = lambda t: z3.And(t >= 0, t < rv(a.n), bz(a.mask(t)) if a.mask else z3.BoolVal(True))
    if not eng.decide(z3.Exists([j], g(j)), st): raise PyRaise("KeyError", "pop from an empty set")
    st.assume(g(p))
    x = a.fn(p)
    st.put(o, HInst("set after pop", {}))
    return x

def l_extend(eng, st, args, kw):
    o, v = args
    items = eng.as_items(v, st)
    r = st.get(o)
    if items is not None and isinstance(r, HList):
        st.put(o, HList(r.items + tuple(items)))
        return None
    if isinstance(r, HList) or (isinstance(r, HArr) and r.arr.islist):
        st.put(o, st.get(ops.list_concat(eng, st, o, v)))
        return None
    raise Unsupported("extend")

def l_pop(eng, st, args, kw):
    r = st.get(args[0])
    i = conc(args[1]) if len(args) > 1 else -1
    if isinstance(r, HList) and isinstance(i, int):
        if not r.items: raise PyRaise("IndexError")
        items = list(r.items)
        v = items.pop(i)
        st.put(args[0], HList(items))
        return v
    raise Unsupported("pop")

def l_remove(eng, st, args, kw):
    r = st.get(args[0])
    if isinstance(r, HList):
        items = list(r.items)
        for i, x in enumerate(items):
            if eng.truth(ops.eq_scalar(eng, x, args[1], st), st):
                del items[i]
                st.put(args[0], HList(items))
                return None
        raise PyRaise("ValueError")
    raise Unsupported("remove")

def l_index(eng, st, args, kw):
    items = eng.as_items(args[0], st)
    if items is None:
        a, x = eng.as_arr(args[0], st), args[1]
        if a is None or len(a.shape) != 1 or a.mask is not None or len(args) > 2: raise Unsupported("index")
        eq = lambda i: bz(ops.eq_scalar(eng, a.fn(i), x, st))
        j = fresh("j")
        if not eng.decide(z3.Exists([j], z3.And(j >= 0, j < rv(a.n), eq(j))), st): raise PyRaise("ValueError", "not in list")
        p, j = fresh("index"), fresh("j")
        st.assume(z3.And(p >= 0, p < rv(a.n), eq(p), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), z3.Not(eq(j))))))
        return p
    for i, x in enumerate(items):
        if eng.truth(ops.eq_scalar(eng, x, args[1], st), st): return i
    raise PyRaise("ValueError")

def l_copy(eng, st, args, kw): return st.alloc(st.get(args[0]))
def l_insert(eng, st, args, kw):
    r = st.get(args[0])
    i = conc(args[1])
    if isinstance(r, HList) and isinstance(i, int):
        items = list(r.items); items.insert(i, args[2])
        st.put(args[0], HList(items)); return None
    raise Unsupported("insert")

def d_items(eng, st, args, kw):
    r = st.get(args[0])
    if r.fams: raise Unsupported("items of symbolic dict")
    return [(k, v) for k, v in r.items.items()]
def d_keys(eng, st, args, kw):
    r = st.get(args[0])
    if r.fams: raise Unsupported("keys of symbolic dict")
    return list(r.items)
def d_values(eng, st, args, kw):
    r = st.get(args[0])
    if r.fams: raise Unsupported("values of symbolic dict")
    return list(r.items.values())
def d_get(eng, st, args, kw):
    r = st.get(args[0])
    dflt = args[2] if len(args) > 2 else None
    if not r.fams:
        if is_z3(conc(args[1])):
            for kk in r.items:
                if eng.decide(ops.eq_scalar(eng, args[1], kk, st), st): return r.items[kk]
            return dflt
        return r.items.get(eng.hashkey(args[1]), dflt)
    try:
        return ops.getitem(eng, args[0], args[1], st)
    except PyRaise:
        return dflt
def d_pop(eng, st, args, kw):
    r = st.get(args[0])
    k = eng.hashkey(args[1])
    d = dict(r.items)
    if k in d:
        v = d.pop(k); st.put(args[0], HDict(d, r.fams)); return v
    if len(args) > 2: return args[2]
    raise PyRaise("KeyError")
def d_update(eng, st, args, kw):
    r = st.get(args[0])
    d = dict(r.items)
    if len(args) > 1:
        o = st.get(args[1])
        if not isinstance(o, HDict) or o.fams: raise Unsupported("update")
        d.update(o.items)
    d.update(kw)
    st.put(args[0], HDict(d, r.fams))
def d_copy(eng, st, args, kw): return st.alloc(st.get(args[0]))

def s_format(eng, st, args, kw):
    s = args[0]
    if isinstance(s, str) and all(isinstance(a, (str, int)) and not isinstance(a, bool) for a in args[1:]) and not kw:
        try: return s.format(*args[1:])
        except Exception: return OpaqueStr()
    return OpaqueStr()
def s_simple(name):
    def f(eng, st, args, kw):
        if all(isinstance(a, (str, int)) for a in args):
            r = getattr(args[0], name)(*args[1:])
            return st.alloc(HList(r)) if isinstance(r, list) else r
        if name in ("startswith", "endswith"): raise Unsupported("str.%s" % name)
        return OpaqueStr()
    return f
def s_join(eng, st, args, kw):
    it = eng.as_items(args[1], st)
    if it is not None and isinstance(args[0], str) and all(isinstance(x, str) for x in it): return args[0].join(it)
    return OpaqueStr()


def install(eng):
    E, M = eng.ext, eng.methods
    for n, f in dict(isinstance=b_isinstance, len=b_len, any=b_any, all=b_all, sum=b_sum, min=b_minmax("min"),
                     max=b_minmax("max"), range=b_range, enumerate=b_enumerate, zip=b_zip, list=b_list, tuple=b_tuple,
                     dict=b_dict, set=b_set, frozenset=b_set, abs=b_abs, int=b_int, float=b_float, bool=b_bool, str=b_str, sorted=b_sorted,
                     reversed=b_reversed, hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, callable=b_callable, type=b_type, round=b_round,
                     print=b_print, map=b_map, filter=b_filter, next=b_next, id=b_id).items():
        E[n] = f
    for n in ("ValueError", "TypeError", "KeyError", "IndexError", "NotImplementedError", "Exception", "AttributeError",
              "RuntimeError", "ArithmeticError", "ZeroDivisionError"):
        E[n] = b_exc(n)
    for n in ("NotFittedError", "CounterfactualsFoundWarning", "NotSolvedError", "NotGeneratedError"): E[n] = b_exc(n)
    for n, f in dict(append=l_append, extend=l_extend, pop=l_pop, remove=l_remove, index=l_index, copy=l_copy,
                     insert=l_insert).items():
        M[("list", n)] = f
    M[("tuple", "index")] = l_index
    M[("set", "add")], M[("set", "pop")] = s_add, s_pop
    for n, f in dict(items=d_items, keys=d_keys, values=d_values, get=d_get, pop=d_pop, update=d_update, copy=d_copy).items():
        M[("dict", n)] = f
    M[("str", "format")] = s_format
    for n in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "lstrip", "rstrip", "count", "title", "ljust", "rjust", "center"):
        M[("str", n)] = s_simple(n)
    M[("str", "join")] = s_join
    for n in ("time.perf_counter", "time.time"):
        E[n] = lambda eng, st, args, kw: fresh("clock", REAL)
    E["warnings.warn"] = lambda eng, st, args, kw: None
    from . import npmodels
    npmodels.install(eng)
    from . import pdmodels
    pdmodels.install(eng)
