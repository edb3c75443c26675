"""Contracts assumed on numpy / scipy / sklearn functions (element-wise, reductions, searches) over real arithmetic."""
import ast
import math
from fractions import Fraction
import z3
from .values import *
from . import ops, sums, models
from .models import uf, arr_sum, num_of, num_dt

LN, EXP, SQRT = uf("ln"), uf("exp"), uf("sqrt")


def alloc(st, a): return st.alloc(HArr(a))


def nd(eng, st, v):
    """value as an Arr (0-d for scalars)"""
    a = eng.as_arr(v, st)
    if a is not None: return a if not a.islist else Arr(a.shape, a.fn, a.dtype, a.mask)
    if isinstance(v, (tuple, list)) or (isinstance(v, Ref) and isinstance(st.get(v), (HList,))):
        return ops.to_nd(eng, st, v if not isinstance(v, list) else tuple(v))
    h = models.special_arr(eng, v, st) if hasattr(models, "special_arr") else NotImplemented
    if h is not NotImplemented: return h
    it = None
    if isinstance(v, (Rng, ops.SymIter)): it = ops.iter_of(eng, v, st)
    if it is not None:
        if isinstance(it, list): return ops.to_nd(eng, st, tuple(it))
        return Arr((conc(it.n),), it.val, ops.dt_of(it.val(fresh("nd"))), it.mask)
    return None


def elem(f, dtype="float"):
    def m(eng, st, args, kw):
        v = args[0]
        a = nd(eng, st, v)
        g = lambda x: fl_lift(eng, st, f, x)
        if a is None: return g(ops.scal(eng, st, v))
        return ops.lift(eng, st, g, alloc(st, a), dtype=dtype)
    return m


def fl_lift(eng, st, f, x):
    if isinstance(x, float) and x != x: return x
    if isinstance(x, Fl):
        return ops.mkfl(f(x.r), x.nan)
    return f(x)


def f_log(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 1: return 0.0
    return LN(rr(x))
def f_exp(x):
    if isinstance(x, (int, float)) and x == 0: return 1.0
    return EXP(rr(x))
def f_sqrt(x): return SQRT(rr(x))
def f_log10(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 1: return 0.0
    return LN(rr(x)) / LN(rv(10.0))
def f_abs(x):
    if ops.is_conc_num(x): return abs(x)
    x = rv(x)
    return z3.If(x >= 0, x, -x)
def f_floor(x):
    if ops.is_conc_num(x): return float(math.floor(x))
    x = rv(x)
    return z3.ToReal(x) if x.sort() == INT else z3.ToReal(z3.ToInt(x))
def f_ceil(x):
    if ops.is_conc_num(x): return float(math.ceil(x))
    x = rv(x)
    return z3.ToReal(x) if x.sort() == INT else -z3.ToReal(z3.ToInt(-x))
def f_round(x):
    if isinstance(x, int): return x
    if ops.is_conc_num(x): return float(round(x))
    x = rv(x)
    if x.sort() == INT: return x
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    return z3.ToReal(z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1))))
def f_square(x): return rv(x) * rv(x)
def f_sign(x):
    x = rr(x)
    return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


u_isnan = z3.Function("u_isnull", U, BOOL)
def f_isnan(x):
    if isinstance(x, Fl): return x.nan
    if isinstance(x, float): return x != x
    if x is None: return True
    if is_z3(x) and x.sort() == U: return u_isnan(x)
    return False
def m_isnan(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if a is None:
        v = ops.scal(eng, st, args[0])
        if v is None: raise PyRaise("TypeError", "isnan(None)")
        return f_isnan(v)
    return ops.lift(eng, st, f_isnan, alloc(st, a), dtype="bool")
def m_isinf(eng, st, args, kw):
    f = lambda x: isinstance(x, float) and abs(x) == float("inf")
    a = nd(eng, st, args[0])
    if a is None: return f(args[0])
    return ops.lift(eng, st, f, alloc(st, a), dtype="bool")
def m_isfinite(eng, st, args, kw):
    def f(x):
        if isinstance(x, float): return x == x and abs(x) != float("inf")
        return Not(f_isnan(x))
    a = nd(eng, st, args[0])
    if a is None: return f(args[0])
    return ops.lift(eng, st, f, alloc(st, a), dtype="bool")


def m_xlogy(eng, st, args, kw):
    def f(x, y):
        if ops.is_conc_num(x) and x == 0: return 0.0
        x = rr(x)
        return z3.If(x == 0, z3.RealVal(0), x * LN(rr(y)))
    a = [alloc(st, nd(eng, st, v)) if nd(eng, st, v) is not None else v for v in args]
    if all(nd(eng, st, v) is None for v in args): return f(*args)
    return ops.lift(eng, st, f, *a, dtype="float")


def two(kind):
    def f2(eng, st):
        def f(x, y):
            if ops.is_conc_num(x) and ops.is_conc_num(y): return max(x, y) if kind == "max" else min(x, y)
            x, y = rv(x), rv(y)
            if x.sort() != y.sort(): x, y = rr(x), rr(y)
            return z3.If(x >= y, x, y) if kind == "max" else z3.If(x <= y, x, y)
        return f
    def m(eng, st, args, kw):
        a = [alloc(st, nd(eng, st, v)) if nd(eng, st, v) is not None else v for v in args[:2]]
        if all(nd(eng, st, v) is None for v in args[:2]): return f2(eng, st)(*args)
        return ops.lift(eng, st, f2(eng, st), *a)
    return m


def shape_of(eng, st, v):
    v = ops.scal(eng, st, v)
    it = eng.as_items(v, st)
    if it is not None: return tuple(conc(ops.scal(eng, st, x)) for x in it)
    a = eng.as_arr(v, st)
    if a is not None: raise Unsupported("symbolic shape vector")
    if isinstance(v, tuple): return tuple(conc(x) for x in v)
    v = conc(z3.simplify(v)) if is_z3(v) else v
    if isinstance(v, bool) or not (isinstance(v, int) or (is_z3(v) and v.sort() == INT)): raise PyRaise("TypeError", "shape")
    return (v,)


DT = {"int": "int", "float": "float", "bool": "bool", "numpy.int64": "int", "numpy.int32": "int", "numpy.float64": "float",
      "numpy.int": "int", "numpy.float": "float", "object": "obj", "numpy.object": "obj", "numpy.bool_": "bool", "numpy.bool": "bool", "numpy.intp": "int",
      "numpy.uint8": "int", "numpy.float32": "float"}
def dtype_arg(v, default):
    if v is None: return default
    if isinstance(v, Ext):
        if v.name in DT: return DT[v.name]
        if v.name.startswith("numpy.dtype.") and v.name[12:] in ("int", "float", "bool", "obj"): return v.name[12:]
        if v.name.split(".")[-1] == "str": return "obj"
    if isinstance(v, str) and v in ("int", "float", "bool", "object", "int64", "float64"):
        return {"object": "obj", "int64": "int", "float64": "float"}.get(v, v)
    raise Unsupported("dtype %r" % (v,))


def m_full(val, name):
    def m(eng, st, args, kw):
        kw = dict(kw)
        args = list(args)
        sh = shape_of(eng, st, args[0] if args else kw.pop("shape"))
        if val == "fill":
            v = args[1] if len(args) > 1 else kw.get("fill_value")
            dt = kw.get("dtype", args[2] if len(args) > 2 else None)
            va = eng.as_arr(v, st)
            if va is not None and len(va.shape) > 0:
                d = dtype_arg(dt, va.dtype)
                off = len(sh) - len(va.shape)
                one = [isinstance(conc(s), int) and conc(s) == 1 for s in va.shape]
                return alloc(st, Arr(sh, lambda *i: va.fn(*[0 if o else x for o, x in zip(one, i[off:])]), d))
            if is_pv(v):
                raise Unsupported("np.full with a dynamic value")
            d = dtype_arg(dt, ops.dt_of(v))
            c = Arr(sh, None, d)
            w = ops.store_cast(c, v)
            n0, mk = sums.domain(eng, sh[0]) if len(sh) == 1 else (None, None)
            return alloc(st, Arr(sh if mk is None else (n0,), lambda *i: w, d, mk))
        d = dtype_arg(kw.get("dtype", args[1] if len(args) > 1 else None), "float")
        w = val
        n0, mk = sums.domain(eng, sh[0]) if len(sh) == 1 else (None, None)
        if mk is not None: sh = (n0,)
        if name == "empty":
            f = fresh_fun("uninit", *([INT] * len(sh) + [REAL if d == "float" else INT if d == "int" else BOOL if d == "bool" else U]))
            return alloc(st, Arr(sh, lambda *i: f(*[rv(x) for x in i]), d, mk))
        w = {"float": float(val), "int": int(val), "bool": bool(val), "obj": int(val)}[d]
        return alloc(st, Arr(sh, lambda *i: w, d, mk))
    return m


def m_like(val):
    def m(eng, st, args, kw):
        a = nd(eng, st, args[0])
        d = dtype_arg(kw.get("dtype"), a.dtype)
        w = {"float": float(val), "int": int(val), "bool": bool(val)}[d if d in ("float", "int", "bool") else "float"]
        return alloc(st, Arr(a.shape, lambda *i: w, d, a.mask))
    return m


def m_array(eng, st, args, kw):
    r = st.get(args[0]) if isinstance(args[0], Ref) else None
    if isinstance(r, HList) and len(r.items) > 1 and all(isinstance(x, Ref) and isinstance(st.get(x), HArr) and len(st.get(x).arr.shape) == 1 for x in r.items):
        ns = [rv(ops.length(eng, x, st)) for x in r.items]
        if not eng.decide(z3.And(*[k == ns[0] for k in ns[1:]]), st):
            if kw.get("dtype", args[1] if len(args) > 1 else None) is None: raise PyRaise("ValueError", "inhomogeneous shape")
            return st.alloc(HList(list(r.items)))
    a = nd(eng, st, args[0])
    if a is None:
        v = args[0]
        if isinstance(v, (Opaque,)): return v
        if is_num(v) or isinstance(v, (Fl, str)) or v is None: return alloc(st, Arr((), lambda: v, ops.dt_of(v)))
        raise Unsupported("np.array of %r" % (v,))
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if dt is not None: return alloc(st, astype(a, dtype_arg(dt, a.dtype)))
    if isinstance(args[0], Ref) and isinstance(st.get(args[0]), HArr) and not a.islist and \
            st.get(args[0]).arr is a and kw.get("copy", True) is not True: return args[0]
    return alloc(st, a)
def m_asarray(eng, st, args, kw):
    a = eng.as_arr(args[0], st)
    if a is not None and not a.islist and not kw and len(args) == 1: return args[0]
    return m_array(eng, st, args, kw)


def m_check_array(eng, st, args, kw):
    """returns the array; ValueError when it has fewer samples than ensure_min_samples (1 by default)"""
    a = nd(eng, st, args[0])
    if a is None: raise Unsupported("check_array")
    k = kw.get("ensure_min_samples", 1)
    if not isinstance(k, int): raise Unsupported("ensure_min_samples")
    if k > 0:
        n = ops.length(eng, a, st)
        if not eng.decide(rv(n) >= k, st): raise PyRaise("ValueError", "Found array with fewer samples than required")
    return m_asarray(eng, st, [args[0]], {})


def cast_to(v, src, d):
    if d == src: return v
    if d == "float":
        if is_z3(v) and v.sort() == U: return uf("u_float", U, REAL)(v)
        return ops.tofloat(v)
    if d == "int":
        if isinstance(v, Fl): raise Unsupported("NaN cast to int")
        return models.to_int(v) if not (isinstance(v, bool) or is_sbool(v)) else (rv(v) if is_z3(v) else int(v))
    if d == "bool": return bv(v) if not isinstance(v, (bool, int, float)) else bool(v)
    return v


def astype(a, d):
    if d == a.dtype: return Arr(a.shape, a.fn, a.dtype, a.mask)
    if d == "float": return Arr(a.shape, lambda *i: cast_to(a.fn(*i), a.dtype, "float"), "float", a.mask)
    if d in ("int", "bool"): return Arr(a.shape, lambda *i: cast_to(a.fn(*i), a.dtype, d), d, a.mask)
    return Arr(a.shape, a.fn, d, a.mask)
def m_astype(eng, st, args, kw):
    a = nd(eng, st, args[0])
    return alloc(st, astype(a, dtype_arg(args[1] if len(args) > 1 else kw.get("dtype"), a.dtype)))


def ax(kw, args, k=1):
    v = kw.get("axis", args[k] if len(args) > k else None)
    return conc(v)
def m_sum(eng, st, args, kw):
    if isinstance(args[0], Opaque): return Opaque("sum")
    a = nd(eng, st, args[0])
    if a is None:
        if is_num(args[0]): return args[0]
        raise Unsupported("sum of %r" % (args[0],))
    axis = ax(kw, args)
    r = arr_sum(eng, st, a, axis)
    return alloc(st, r) if isinstance(r, Arr) else r
def m_tile(eng, st, args, kw):
    a = nd(eng, st, args[0])
    r = args[1]
    r = (r,) if not isinstance(r, tuple) else r
    if a is None or len(a.shape) != 1 or a.mask is not None or not 1 <= len(r) <= 2: raise Unsupported("tile")
    if conc(r[-1]) != 1: raise Unsupported("tile along the last axis")
    if len(r) == 1: return alloc(st, Arr(a.shape, a.fn, a.dtype))
    return alloc(st, Arr((r[0], a.n), lambda i, j: a.fn(j), a.dtype))
def m_average(eng, st, args, kw):
    a = nd(eng, st, args[0])
    w = kw.get("weights", args[2] if len(args) > 2 else None)
    if w is None: return m_mean(eng, st, args, kw)
    w = nd(eng, st, w)
    axis = ax(kw, args)
    if w is None or len(w.shape) != 1 or w.mask is not None or a.mask is not None: raise Unsupported("average")
    tot = arr_sum(eng, st, w, None)
    if len(a.shape) == 2 and axis == 1:
        p = Arr(a.shape, lambda i, j: ops.arith(eng, "*", a.fn(i, j), w.fn(j), st), "float")
    elif len(a.shape) == 2 and axis == 0:
        p = Arr(a.shape, lambda i, j: ops.arith(eng, "*", a.fn(i, j), w.fn(i), st), "float")
    elif len(a.shape) == 1:
        p = Arr(a.shape, lambda i: ops.arith(eng, "*", a.fn(i), w.fn(i), st), "float"); axis = None
    else: raise Unsupported("average")
    s = arr_sum(eng, st, p, axis)
    if isinstance(s, Arr): return ops.lift(eng, st, lambda x: ops.arith(eng, "/", x, tot, st), alloc(st, s), dtype="float")
    return ops.arith(eng, "/", s, tot, st)
def m_mean(eng, st, args, kw):
    a = nd(eng, st, args[0])
    axis = ax(kw, args)
    s = arr_sum(eng, st, a, axis)
    if isinstance(s, Arr):
        n = a.shape[axis]
        return ops.lift(eng, st, lambda x: ops.arith(eng, "/", x, n, st), alloc(st, s), dtype="float")
    n = ops.length(eng, a, st)
    for d in a.shape[1:]: n = ops.arith(eng, "*", n, d, st)
    return ops.arith(eng, "/", s, n, st)
def m_count_nonzero(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if a is None:
        return rv(bv(args[0])) if is_z3(args[0]) else int(bool(args[0]))
    def nz(x):
        if isinstance(x, Fl): return Or(x.nan, bv(x.r))
        return bv(x) if not isinstance(x, bool) else x
    b = Arr(a.shape, lambda *i: bz(nz(a.fn(*i))), "bool", a.mask)
    r = arr_sum(eng, st, b, ax(kw, args))
    return alloc(st, r) if isinstance(r, Arr) else r
def m_anyall(want):
    def m(eng, st, args, kw):
        a = nd(eng, st, args[0])
        if a is None: return eng.to_bool(args[0], st)
        if ax(kw, args) is not None: raise Unsupported("any/all axis")
        if len(a.shape) == 0: return eng.to_bool(a.fn(), st)
        if len(a.shape) == 1: return models._scan(eng, st, Arr(a.shape, a.fn, a.dtype, a.mask), want)
        ks = [fresh("q") for _ in a.shape]
        b = bz(eng.to_bool(a.fn(*ks), st))
        g = z3.And(*[z3.And(k >= 0, k < rv(d)) for k, d in zip(ks, a.shape)])
        if a.mask: g = z3.And(g, bz(a.mask(ks[0])))
        return z3.Exists(ks, z3.And(g, b)) if want else z3.ForAll(ks, z3.Implies(g, b))
    return m
def m_minmax(kind):
    def m(eng, st, args, kw):
        a = nd(eng, st, args[0])
        if a is None: raise Unsupported("np.%s" % kind)
        axis = ax(kw, args)
        if len(a.shape) == 2 and axis is not None and isinstance(conc(a.shape[axis]), int):
            n = conc(a.shape[axis])
            f = two(kind)
            def g(i):
                vs = [a.fn(q, i) if axis == 0 else a.fn(i, q) for q in range(n)]
                r = vs[0]
                for v in vs[1:]: r = f(eng, st, [r, v], {})
                return r
            return alloc(st, Arr((a.shape[1 - axis],), g, a.dtype))
        if len(a.shape) == 2 and axis is None and all(isinstance(conc(d), int) for d in a.shape):
            a = flat(a)
        return models.arr_minmax(eng, st, a, kind)
    return m
def m_argminmax(kind):
    def m(eng, st, args, kw):
        a = nd(eng, st, args[0])
        if len(a.shape) != 1 or a.mask is not None or ax(kw, args) is not None: raise Unsupported("argmax")
        if not eng.decide(rv(a.n) > 0, st): raise PyRaise("ValueError")
        p = fresh("arg" + kind)
        t = fresh("t")
        e, ep = rv(num_of(a.fn(t))), rv(num_of(a.fn(p)))
        st.assume(z3.And(p >= 0, p < rv(a.n)))
        st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < rv(a.n)), e <= ep if kind == "max" else e >= ep)))
        st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < p), e < ep if kind == "max" else e > ep)))
        return p
    return m


def flat(a, st=None):
    if len(a.shape) == 1: return a
    n, m = conc(a.shape[0]), conc(a.shape[1])
    if len(a.shape) == 2 and isinstance(n, int) and isinstance(m, int):
        return Arr((n * m,), lambda i: a.fn(conc(i) // m, conc(i) % m) if isinstance(conc(i), int) else a.fn(i / m, i % m), a.dtype)
    if len(a.shape) == 2 and isinstance(m, int):
        return Arr((z3.simplify(rv(n) * m),), lambda i: a.fn(rv(i) / m, rv(i) % m), a.dtype)
    if len(a.shape) == 2 and a.mask is None and st is not None:
        st.assume(grid_axiom(n, m))
        return Arr((rv(n) * rv(m),), lambda i: a.fn(QDIV(rv(i), rv(m)), QMOD(rv(i), rv(m))), a.dtype)
    raise Unsupported("flatten")
def m_ravel(eng, st, args, kw):
    if len(args) > 1 or kw: raise Unsupported("ravel order")
    return alloc(st, flat(nd(eng, st, args[0]), st))


def m_cumsum(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if a.mask is not None or len(a.shape) != 1: raise Unsupported("cumsum")
    n = conc(a.n)
    if isinstance(n, int):
        vs, r = [], 0
        for i in range(n):
            r = ops.arith(eng, "+", r, num_of(a.fn(i)), st); vs.append(r)
        return alloc(st, Arr((n,), lambda i: vs[conc(i)] if isinstance(conc(i), int) else ops.pick(eng, st, vs, i), num_dt(a.dtype)))
    return alloc(st, Arr(a.shape, lambda i: sums.ssum(eng, assume_in(st, i, a.n), lambda b: rv(num_of(a.fn(b))), 0, z3.simplify(rv(i) + 1)), num_dt(a.dtype)))


class Pc:
    def __init__(self, pc): self.pc = pc
def assume_in(st, i, n):
    return Pc(st.pc + [rv(i) >= 0, rv(i) < rv(n)])


def m_diff(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if a.mask is not None or len(a.shape) != 1: raise Unsupported("diff")
    n = conc(a.n)
    ln = max(n - 1, 0) if isinstance(n, int) else (z3.simplify(rv(n) - 1) if eng.entails(st.pc, rv(n) >= 1) else z3.If(rv(n) >= 1, rv(n) - 1, z3.IntVal(0)))
    return alloc(st, Arr((ln,), lambda i: ops.arith(eng, "-", a.fn(i + 1 if isinstance(conc(i), int) else rv(i) + 1), a.fn(i), st), a.dtype))


def m_dot(eng, st, args, kw):
    a, b = nd(eng, st, args[0]), nd(eng, st, args[1])
    if a is None or b is None: return eng.binop(ast.Mult(), args[0], args[1], st)
    if len(a.shape) == 1 and len(b.shape) == 1:
        p = ops.lift(eng, st, lambda x, y: ops.elem_op(eng, "*", num_of(x), num_of(y), st), alloc(st, a), alloc(st, b))
        return arr_sum(eng, st, eng.as_arr(p, st))
    if len(a.shape) == 2 and len(b.shape) == 1:
        def g(i):
            return arr_sum(eng, st, Arr((b.n,), lambda j: ops.arith(eng, "*", num_of(a.fn(i, j)), num_of(b.fn(j)), st), "float"))
        return alloc(st, Arr((a.shape[0],), g, "float"))
    if len(a.shape) == 1 and len(b.shape) == 2:
        def g(j):
            return arr_sum(eng, st, Arr((a.n,), lambda i: ops.arith(eng, "*", num_of(a.fn(i)), num_of(b.fn(i, j)), st), "float"))
        return alloc(st, Arr((b.shape[1],), g, "float"))
    raise Unsupported("dot")


def m_arange(eng, st, args, kw):
    args = [ops.scal(eng, st, x) for x in args]
    lo, hi, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    if conc(step) != 1: raise Unsupported("arange step")
    if all(isinstance(conc(x), int) for x in (lo, hi)): n = max(conc(hi) - conc(lo), 0)
    else:
        n = z3.simplify(rv(hi) - rv(lo))
        if n.sort() != INT: raise Unsupported("arange of floats")
        if not eng.entails(st.pc, n >= 0): n = z3.If(n >= 0, n, z3.IntVal(0))
    return alloc(st, Arr((conc(n),), lambda i: ops.arith(eng, "+", lo, i, st), "int"))


def m_where(eng, st, args, kw):
    if len(args) == 1:
        a = nd(eng, st, args[0])
        if len(a.shape) != 1: raise Unsupported("where 2d")
        m = (lambda i: bz(And(a.mask(i), bv(a.fn(i))))) if a.mask else (lambda i: bz(bv(a.fn(i))) if not isinstance(a.fn(i), bool) else z3.BoolVal(a.fn(i)))
        return (alloc(st, Arr(a.shape, lambda i: i, "int", m)),)
    vs = [alloc(st, nd(eng, st, v)) if nd(eng, st, v) is not None else v for v in args]
    if all(nd(eng, st, v) is None for v in vs): return ops.mite(eng, st, bz(bv(vs[0])), vs[1], vs[2])
    dts = [ops.dt_of(v) if nd(eng, st, v) is None else nd(eng, st, v).dtype for v in vs[1:]]
    dt = ops.promote(dts)
    def f(c, x, y):
        if dt == "float": x, y = ops.tofloat(x), ops.tofloat(y)
        return ops.mite(eng, st, bv(c) if not isinstance(c, bool) else c, x, y)
    return ops.lift(eng, st, f, *vs, dtype=dt)


def m_concat(eng, st, args, kw):
    if ax(kw, args) not in (None, 0): raise Unsupported("concatenate axis")
    it = eng.as_items(args[0], st)
    if it is None: raise Unsupported("concatenate of symbolic list")
    arrs = [nd(eng, st, x) for x in it]
    if not arrs: raise PyRaise("ValueError")
    arrs = [a if len(a.shape) else Arr((1,), lambda i, a=a: a.fn(), a.dtype) for a in arrs]
    r = ops.concat(eng, st, arrs)
    return alloc(st, Arr(r.shape, r.fn, r.dtype if r.dtype != "x" else "float", r.mask))
def m_append(eng, st, args, kw):
    a = [nd(eng, st, v) for v in args[:2]]
    a = [x if x is not None else Arr((1,), lambda i, v=v: v, ops.dt_of(v)) for x, v in zip(a, args)]
    a = [x if len(x.shape) else Arr((1,), lambda i, x=x: x.fn(), x.dtype) for x in a]
    r = ops.concat(eng, st, a)
    return alloc(st, Arr(r.shape, r.fn, r.dtype, r.mask))


def m_stack(axis):
    """column_stack / c_ / vstack of 1-d arrays"""
    def m(eng, st, args, kw):
        it = eng.as_items(args[0], st) if len(args) == 1 else list(args)
        arrs = [nd(eng, st, x) for x in it]
        if any(len(a.shape) != 1 or a.mask is not None for a in arrs): raise Unsupported("stack")
        n = arrs[0].n
        for a in arrs:
            if not ops._eqdim(eng, st, n, a.n): raise Unsupported("stack of different lengths")
        pk = lambda j, i: arrs[conc(j)].fn(i) if isinstance(conc(j), int) else ops.pick(eng, st, [a.fn(i) for a in arrs], j)
        dt = ops.promote([a.dtype for a in arrs])
        if axis == 1: return alloc(st, Arr((n, len(arrs)), lambda i, j: pk(j, i), dt))
        return alloc(st, Arr((len(arrs), n), lambda j, i: pk(j, i), dt))
    return m


def m_digitize(eng, st, args, kw):
    """number of bins <= x (right=False) for increasing bins: the contract numpy documents"""
    x, b = nd(eng, st, args[0]), nd(eng, st, args[1])
    right = args[2] if len(args) > 2 else kw.get("right", False)
    if not isinstance(right, bool): raise Unsupported("digitize right")
    return digit(eng, st, x, args[0], b, right)


def digit(eng, st, x, x0, b, right):
    if b.mask is not None:
        from . import sums
        b = sums.compact(eng, st, b)
    nb = b.n
    lt = (lambda p, q: z3.And(rr(p) < rr(q)))
    le = (lambda p, q: z3.And(rr(p) <= rr(q)))
    cmpb = lt if right else le                        # bins[d-1] <(=) x
    cmpa = le if right else lt                        # x <(=) bins[d]
    if x is None or len(x.shape) == 0:
        xv = x0 if x is None else x.fn()
        if isinstance(xv, Fl): raise Unsupported("digitize NaN")
        d = fresh("dig")
        st.assume(digax(d, rv(nb), lambda: xv, b, cmpb, cmpa))
        return d
    f = fresh_fun("dig", INT, INT)
    i = fresh("i")
    xe = x.fn(i)
    guard = z3.And(i >= 0, i < rv(x.n), bz(x.mask(i)) if x.mask else z3.BoolVal(True))
    if isinstance(xe, Fl): guard = z3.And(guard, bz(Not(xe.nan))); xe = xe.r
    if len(x.shape) != 1: raise Unsupported("digitize 2d")
    st.assume(z3.ForAll([i], z3.Implies(guard, digax(f(i), rv(nb), lambda: xe, b, cmpb, cmpa)), patterns=[f(i)]))
    return alloc(st, Arr(x.shape, lambda i: f(rv(i)), "int", x.mask))


def digax(d, nb, xv, b, cmpb, cmpa):
    c = [d >= 0, d <= nb]
    n = conc(nb)
    if isinstance(n, int):
        for k in range(n):
            c.append(z3.Implies(d > k, cmpb(b.fn(k), xv())))
            c.append(z3.Implies(d <= k, cmpa(xv(), b.fn(k))))
        return z3.And(*c)
    k = fresh("k")
    c.append(z3.Implies(d > 0, cmpb(b.fn(d - 1), xv())))
    c.append(z3.Implies(d < nb, cmpa(xv(), b.fn(d))))
    c.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < d), cmpb(b.fn(k), xv()))))
    c.append(z3.ForAll([k], z3.Implies(z3.And(k >= d, k < nb), cmpa(xv(), b.fn(k)))))
    return z3.And(*c)


def m_searchsorted(eng, st, args, kw):
    side = kw.get("side", args[2] if len(args) > 2 else "left")
    b, x = nd(eng, st, args[0]), nd(eng, st, args[1])
    return digit(eng, st, x, args[1], b, side == "left")


def m_isin(eng, st, args, kw):
    x = nd(eng, st, args[0])
    c = args[1]
    def f(v):
        # a NaN-able value is never in the list of codes; a NaN equals nothing
        if is_z3(c) and c.sort() == U:           # an unknown collection: membership is an uninterpreted predicate
            w, nan = (v.r, v.nan) if isinstance(v, Fl) else (v, False)
            w = rv(w)
            return And(Not(nan), uf("in_group_%s" % w.sort(), U, w.sort(), BOOL)(c, w))
        return ops.contains(eng, c, v, st)
    if x is None: return f(args[0])
    inv = kw.get("invert", False)
    return ops.lift(eng, st, lambda v: Not(f(v)) if inv else f(v), alloc(st, x), dtype="bool")


def m_argsort(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if len(a.shape) != 1: raise Unsupported("argsort 2d")
    if a.mask is not None:
        from . import sums
        a = sums.compact(eng, st, a)
    if isinstance(conc(a.n), int) and conc(a.n) <= 1: return alloc(st, Arr(a.shape, lambda i: i, "int"))
    return alloc(st, perm_sorted(eng, st, a))


def perm_sorted(eng, st, a, key=None):
    p, q = fresh_fun("perm", INT, INT), fresh_fun("perminv", INT, INT)
    i, j = fresh("i"), fresh("j")
    n = rv(a.n)
    g = lambda t: z3.And(t >= 0, t < n)
    st.assume(z3.ForAll([i], z3.Implies(g(i), z3.And(p(i) >= 0, p(i) < n, q(p(i)) == i)), patterns=[p(i)]))
    st.assume(z3.ForAll([i], z3.Implies(g(i), z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i)), patterns=[q(i)]))
    e = lambda t: rv(num_of(a.fn(t)))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), e(p(i)) <= e(p(j))), patterns=[z3.MultiPattern(p(i), p(j))]))
    st.ghost["perms"] = st.ghost.get("perms", ()) + ((p, q, n),)
    return Arr(a.shape, lambda t: p(rv(t)), "int")


def m_sort(eng, st, args, kw):
    a = nd(eng, st, args[0])
    p = perm_sorted(eng, st, a)
    return alloc(st, Arr(a.shape, lambda i: a.fn(p.fn(i)), a.dtype))


def m_unique(eng, st, args, kw):
    """sorted distinct values"""
    a = nd(eng, st, args[0])
    if len(a.shape) != 1: raise Unsupported("unique 2d")
    n = fresh("nuniq")
    e0 = a.fn(fresh("t"))
    if isinstance(e0, Fl): raise Unsupported("unique of NaN-able")
    if isinstance(e0, (str, tuple)) or not (is_z3(e0) or is_num(e0)): raise Unsupported("unique")
    sort = e0.sort() if is_z3(e0) else rv(e0).sort()
    if sort == BOOL: sort = INT
    f = fresh_fun("uniq", INT, sort)
    pos, wit = fresh_fun("upos", INT, INT), fresh_fun("uwit", INT, INT)
    i, j = fresh("i"), fresh("j")
    val = lambda t: (a.fn(t) if sort == U else rv(num_of(a.fn(t))))
    g = lambda t: z3.And(t >= 0, t < rv(a.n), bz(a.mask(t)) if a.mask else z3.BoolVal(True))
    st.assume(z3.And(n >= 0, n <= rv(a.n)))
    st.assume(z3.ForAll([i], z3.Implies(g(i), z3.And(pos(i) >= 0, pos(i) < n, f(pos(i)) == val(i)))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(g(wit(i)), val(wit(i)) == f(i), pos(wit(i)) == i)), patterns=[f(i)]))
    if sort != U:
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    else:
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), f(i) != f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    u = alloc(st, Arr((n,), lambda t: f(rv(t)), a.dtype))
    extra = []
    for k in ("return_index", "return_inverse", "return_counts"):
        if kw.get(k):
            if k == "return_inverse": extra.append(alloc(st, Arr(a.shape, lambda t: pos(rv(t)), "int", a.mask)))
            elif k == "return_counts":
                extra.append(alloc(st, Arr((n,), lambda t: sums.ssum(eng, st, lambda b: z3.If(val(b) == f(rv(t)), z3.IntVal(1), z3.IntVal(0)), 0, a.n, a.mask), "int")))
            else: raise Unsupported("return_index")
    return u if not extra else tuple([u] + extra)


def opaque_fn(name, n=1, pos=False):
    """uninterpreted function of the array contents: only identity of the argument matters"""
    def m(eng, st, args, kw):
        return fresh(name, REAL)
    return m


def m_repeat(eng, st, args, kw):
    v, n = args
    return alloc(st, Arr((n,), lambda i: v, ops.dt_of(v)))


def m_bool(v): return lambda eng, st, args, kw: v
def m_ident(eng, st, args, kw): return args[0]
def m_copy(eng, st, args, kw):
    a = nd(eng, st, args[0])
    return alloc(st, a)


def m_tolist(eng, st, args, kw):
    a = nd(eng, st, args[0])
    it = eng.as_items(args[0], st)
    if it is not None and len(a.shape) == 1: return st.alloc(HList(it))
    return alloc(st, Arr(a.shape, a.fn, a.dtype, a.mask, islist=True))


def m_prod(eng, st, args, kw):
    a = nd(eng, st, args[0])
    if len(a.shape) == 1 and isinstance(conc(a.n), int) and a.mask is None:
        r = 1
        for i in range(conc(a.n)): r = ops.arith(eng, "*", r, a.fn(i), st)
        return r
    return fresh("prod", REAL)


def m_reshape(eng, st, args, kw):
    a = nd(eng, st, args[0])
    sh = args[1:] if len(args) > 2 else (eng.as_items(args[1], st) or [args[1]])
    sh = [conc(x) for x in sh]
    if len(a.shape) == 1 and list(sh) == [-1, 1]: return alloc(st, Arr((a.n, 1), lambda i, j: a.fn(i), a.dtype, a.mask))
    if len(a.shape) == 1 and list(sh) == [-1]: return alloc(st, a)
    if len(sh) == 1 and sh[0] == -1: return alloc(st, flat(a))
    if len(sh) == 1 and isinstance(sh[0], tuple): sh = [conc(x) for x in sh[0]]
    if len(a.shape) == 1 and isinstance(conc(a.n), int) and conc(a.n) == 0 and 0 in [x for x in sh if isinstance(x, int)]: return alloc(st, Arr(tuple(sh), lambda *i: 0, a.dtype))
    raise Unsupported("reshape")


def p_shape(eng, st, o):
    a = eng.as_arr(o, st)
    if a.mask is not None: return (sums.count(eng, st, a),) + tuple(a.shape[1:])
    return tuple(conc(x) for x in a.shape)
def p_T(eng, st, o):
    a = eng.as_arr(o, st)
    if len(a.shape) == 1: return o
    if a.mask is not None: raise Unsupported("transpose of filtered array")
    return alloc(st, Arr((a.shape[1], a.shape[0]), lambda i, j: a.fn(j, i), a.dtype))
def p_size(eng, st, o):
    a = eng.as_arr(o, st)
    n = ops.length(eng, a, st)
    for d in a.shape[1:]: n = ops.arith(eng, "*", n, d, st)
    return n


class DType:
    def __init__(self, d): self.d = d
def p_dtype(eng, st, o): return Ext("numpy.dtype.%s" % eng.as_arr(o, st).dtype)


def install(eng):
    E, M = eng.ext, eng.methods
    for n, f in dict(log=elem(f_log), log10=elem(f_log10), exp=elem(f_exp), sqrt=elem(f_sqrt), floor=elem(f_floor), ceil=elem(f_ceil), rint=elem(f_round),
                     square=elem(f_square, None), sign=elem(f_sign), isnan=m_isnan, isinf=m_isinf, isfinite=m_isfinite,
                     absolute=elem(f_abs, None), abs=elem(f_abs, None), fabs=elem(f_abs, None), maximum=two("max"), minimum=two("min"),
                     zeros=m_full(0, "zeros"), ones=m_full(1, "ones"), empty=m_full(0, "empty"), full=m_full("fill", "full"),
                     zeros_like=m_like(0), ones_like=m_like(1), array=m_array, asarray=m_asarray, sum=m_sum, mean=m_mean, tile=m_tile, average=m_average,
                     count_nonzero=m_count_nonzero, any=m_anyall(True), all=m_anyall(False), max=m_minmax("max"), min=m_minmax("min"),
                     amax=m_minmax("max"), amin=m_minmax("min"), argmax=m_argminmax("max"), argmin=m_argminmax("min"),
                     cumsum=m_cumsum, diff=m_diff, dot=m_dot, arange=m_arange, where=m_where, concatenate=m_concat, append=m_append,
                     column_stack=m_stack(1), vstack=m_stack(0), digitize=m_digitize, searchsorted=m_searchsorted, isin=m_isin,
                     in1d=m_isin, argsort=m_argsort, sort=m_sort, unique=m_unique, prod=m_prod, ravel=m_ravel,
                     nonzero=m_where, repeat=m_repeat, copy=m_copy, ceil_=elem(f_ceil)).items():
        E["numpy." + n] = f
    E["math.log"] = elem(f_log); E["math.exp"] = elem(f_exp); E["math.sqrt"] = elem(f_sqrt)
    E["numpy.round"] = E["numpy.around"] = lambda eng, st, args, kw: (elem(f_round) if (args[1:] or [kw.get("decimals", 0)])[0] in (0, None)
                                                                       else elem(lambda x: uf("np_round", REAL, INT, REAL)(rr(x), rv((args[1:] or [kw.get("decimals")])[0]))))(eng, st, args, {})
    E["math.ceil"] = lambda eng, st, args, kw: models.to_int(f_ceil(args[0]))
    E["math.floor"] = lambda eng, st, args, kw: models.to_int(f_floor(args[0]))
    E["scipy.special.xlogy"] = m_xlogy
    E["sklearn.utils.check_array"] = m_check_array
    E["sklearn.utils.check_consistent_length"] = lambda eng, st, args, kw: None
    E["numpy.errstate"] = lambda eng, st, args, kw: Opaque("errstate")
    for n in ("median", "percentile", "quantile", "std", "var"):
        E["numpy." + n] = opaque_fn(n)
    for n in ("int64", "int32", "int"): E["numpy." + n] = lambda eng, st, args, kw: models.b_int(eng, st, args, kw)
    for n in ("float64", "float"): E["numpy." + n] = lambda eng, st, args, kw: models.b_float(eng, st, args, kw)
    E["numpy.asanyarray"] = m_asarray
    for n, f in dict(sum=m_sum, mean=m_mean, cumsum=m_cumsum, any=m_anyall(True), all=m_anyall(False), max=m_minmax("max"),
                     min=m_minmax("min"), astype=m_astype, copy=m_copy, ravel=m_ravel, flatten=m_ravel, tolist=m_tolist, dot=m_dot,
                     argmax=m_argminmax("max"), argmin=m_argminmax("min"), argsort=m_argsort, reshape=m_reshape, prod=m_prod,
                     round=lambda eng, st, args, kw: E["numpy.round"](eng, st, args, kw)).items():
        M[("ndarray", n)] = f
    models.PROPS[("ndarray", "shape")] = p_shape
    models.PROPS[("ndarray", "T")] = p_T
    models.PROPS[("ndarray", "size")] = p_size
    models.PROPS[("ndarray", "ndim")] = lambda eng, st, o: len(eng.as_arr(o, st).shape)
    models.PROPS[("ndarray", "dtype")] = p_dtype


# ------------------------------------------------------------------------------------------------ facts on ln / exp / sqrt
def special_facts(forms, pairs=True):
    """valid instances of the laws of ln, exp and sqrt at the terms occurring in the formulas"""
    lns, exps, sq = {}, {}, {}
    seen, todo = set(), list(forms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            nme = t.decl().name()
            if t.num_args() == 1 and _ground(t):
                if nme == "ln": lns[t.get_id()] = t
                elif nme == "exp": exps[t.get_id()] = t
                elif nme == "sqrt": sq[t.get_id()] = t
            todo.extend(t.children())
    out = []
    L = list(lns.values())
    for t in L:
        x = t.arg(0)
        out += [z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0),
                z3.Implies(x > 0, t <= x - 1)]
        if z3.is_app_of(x, z3.Z3_OP_DIV):
            a, b = x.arg(0), x.arg(1)
            out.append(z3.Implies(z3.And(a > 0, b > 0), t == LN(a) - LN(b)))
            out.append(z3.Implies(z3.And(a > 0, b > 0), a * t >= a - b))
            out.append(z3.Implies(z3.And(a > 0, b > 0), b * t <= a - b))
        if z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().name() == "exp": out.append(t == x.arg(0))
    if pairs and len(L) <= 12:
        for i, s in enumerate(L):
            for t in L[i + 1:]:
                x, y = s.arg(0), t.arg(0)
                out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (s < t), (x == y) == (s == t))))
                out.append(z3.Implies(z3.And(x > 0, y > 0, x * y == 1), s == -t))
    for t in exps.values():
        out.append(t > 0)
        x = t.arg(0)
        out.append(LN(t) == x)
    Eq = list(exps.values())
    for i, s in enumerate(Eq):
        for t in Eq[i + 1:]:
            out.append((s.arg(0) < t.arg(0)) == (s < t)); out.append((s.arg(0) == t.arg(0)) == (s == t))
            out.append(z3.Implies(s.arg(0) == -t.arg(0), s * t == 1))
    for t in sq.values():
        out.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
    return out


def _ground(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_var(x): return False
        todo.extend(x.children())
    return True
