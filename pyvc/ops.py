"""Operators, attribute access and indexing on symbolic values."""
import ast
from fractions import Fraction
import z3
from .values import *

OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMPN = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

uf_pow = z3.Function("py_pow", REAL, REAL, REAL)


def is_conc_num(v): return isinstance(v, (bool, int, float, Fraction))


def scal(eng, st, v):
    """unwrap 0-d arrays"""
    a = eng.as_arr(v, st)
    if a is not None and len(a.shape) == 0: return a.fn()
    return v


def fl_parts(v):
    if isinstance(v, Fl): return v.r, v.nan
    if isinstance(v, float) and v != v: return 0, True
    return v, False


def mkfl(r, nan):
    nan = conc(z3.simplify(nan)) if is_z3(nan) else nan
    return r if nan is False else Fl(r, nan)


def arith(eng, o, a, b, st):
    """scalar arithmetic"""
    if isinstance(a, Fl) or isinstance(b, Fl) or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        (ra, na), (rb, nb) = fl_parts(a), fl_parts(b)
        return mkfl(arith(eng, o, ra, rb, st), Or(na, nb))
    if is_conc_num(a) and is_conc_num(b):
        try:
            if o == "+": return a + b
            if o == "-": return a - b
            if o == "*": return a * b
            if o == "/": return a / b
            if o == "//": return a // b
            if o == "%": return a % b
            if o == "**": return a ** b
            if o == "&": return a & b
            if o == "|": return a | b
            if o == "^": return a ^ b
        except ZeroDivisionError:
            raise PyRaise("ZeroDivisionError")
    if o in "&|^":
        if (isinstance(a, bool) or is_sbool(a)) and (isinstance(b, bool) or is_sbool(b)):
            if o == "&": return And(a, b)
            if o == "|": return Or(a, b)
            return z3.Xor(bz(a), bz(b))
        raise Unsupported("bit op")
    for v in (a, b):
        if isinstance(v, float) and abs(v) == float("inf"): raise Unsupported("arithmetic with infinity")
    x, y = rv(a), rv(b)
    if o in ("+", "-", "*"):
        # identities keep terms small
        if o == "*":
            if is_conc_num(a) and a == 1 and not is_sbool(b): return b if not isinstance(a, float) else rr(b)
            if is_conc_num(b) and b == 1 and not is_sbool(a): return a if not isinstance(b, float) else rr(a)
            if (is_conc_num(a) and a == 0) or (is_conc_num(b) and b == 0):
                return 0
        if o == "+" and is_conc_num(a) and a == 0 and not is_sbool(b): return b if not isinstance(a, float) else rr(b)
        if o in "+-" and is_conc_num(b) and b == 0 and not is_sbool(a): return a if not isinstance(b, float) else rr(a)
        if x.sort() != y.sort():
            x, y = rr(x), rr(y)
        if o == "*":
            # products of indicator terms distribute into the ite
            for p, q in ((x, y), (y, x)):
                if z3.is_app_of(p, z3.Z3_OP_ITE) and is_ind(p):
                    return z3.If(p.arg(0), q, z3.IntVal(0) if q.sort() == INT else z3.RealVal(0))
        return {"+": x + y, "-": x - y, "*": x * y}[o] if True else None
    if o == "/":
        record_div(eng, st, y)
        return rr(x) / rr(y)
    if o in ("//", "%"):
        if x.sort() == INT and y.sort() == INT:
            if z3.is_int_value(y) and y.as_long() > 0:
                return x / y if o == "//" else x % y
            record_div(eng, st, y)
            if eng.entails(st.pc, y > 0):
                return x / y if o == "//" else x % y
            raise Unsupported("floor division by a divisor of unknown sign")
        q = z3.ToInt(rr(x) / rr(y))
        record_div(eng, st, y)
        return z3.ToReal(q) if o == "//" else rr(x) - z3.ToReal(q) * rr(y)
    if o == "**":
        if isinstance(b, int) and 0 <= b <= 4:
            r = rv(1)
            for _ in range(b): r = r * x if not (z3.is_int_value(r) and r.as_long() == 1) else x
            return r
        if isinstance(b, float) and b == 0.5:
            from .models import uf
            return uf("sqrt")(rr(x))
        if isinstance(b, int) and b < 0:
            record_div(eng, st, x)
            return rv(1.0) / rr(arith(eng, "**", a, -b, st))
        return uf_pow(rr(x), rr(y))
    raise Unsupported("operator %s" % o)


def is_ind(p):
    a, b = p.arg(1), p.arg(2)
    return z3.is_rational_value(a) and z3.is_rational_value(b) and str(a) in ("1", "1.0") and str(b) in ("0", "0.0") \
        or z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0


def record_div(eng, st, y):
    if eng.opts.get("divcheck") == "raise":         # Python scalar division
        if eng.decide(y == 0, st): raise PyRaise("ZeroDivisionError", "")
        return
    if eng.opts.get("divcheck") and not z3.is_rational_value(y) and not z3.is_int_value(y):
        st.ghost.setdefault("divs", ())
        st.ghost["divs"] = st.ghost["divs"] + ((len(st.pc), y),)


def cmp_scalar(eng, o, a, b, st):
    if o in ("==", "!="):
        r = eq_scalar(eng, a, b, st)
        return r if o == "==" else Not(r)
    if is_pv(a) or is_pv(b): return cmp_pv(eng, o, a, b, st)
    if a is None or b is None or isinstance(a, str) != isinstance(b, str):
        raise PyRaise("TypeError", "unorderable")
    if isinstance(a, str): return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    if isinstance(a, (Fl,)) or isinstance(b, (Fl,)) or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        (ra, na), (rb, nb) = fl_parts(a), fl_parts(b)
        return And(Not(na), Not(nb), cmp_scalar(eng, o, ra, rb, st))
    if is_conc_num(a) and is_conc_num(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    inf = float("inf")
    if isinstance(a, float) and abs(a) == inf: return (o in ("<", "<=")) == (a < 0)
    if isinstance(b, float) and abs(b) == inf: return (o in ("<", "<=")) == (b > 0)
    if not (is_num(a) and is_num(b)): raise Unsupported("compare %r %s %r" % (a, o, b))
    x, y = rv(a), rv(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]


def pv_isnum(v): return z3.Or(PV.is_PBool(v), PV.is_PInt(v), PV.is_PReal(v))
def pv_real(v):
    return z3.If(PV.is_PBool(v), z3.If(PV.pb(v), z3.RealVal(1), z3.RealVal(0)),
                 z3.If(PV.is_PInt(v), z3.ToReal(PV.pi(v)), PV.pr(v)))


def cmp_pv(eng, o, a, b, st):
    for v in (a, b):
        if is_pv(v):
            if not eng.decide(pv_isnum(v), st):
                raise PyRaise("TypeError", "unorderable")   # str/None/list against a number
        elif not is_num(v):
            raise PyRaise("TypeError", "unorderable")
    x = pv_real(a) if is_pv(a) else rr(a)
    y = pv_real(b) if is_pv(b) else rr(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]


def eq_scalar(eng, a, b, st):
    if is_pv(a) or is_pv(b):
        if not is_pv(a): a, b = b, a
        if is_pv(b): return z3.Or(a == b, z3.And(pv_isnum(a), pv_isnum(b), pv_real(a) == pv_real(b)))
        if b is None: return PV.is_PNone(a)
        if isinstance(b, str): return a == PV.PStr(z3.IntVal(str_id(b)))
        if is_num(b): return z3.And(pv_isnum(a), pv_real(a) == rr(b))
        if isinstance(b, (tuple, Ref)): raise Unsupported("dynamic value == container")
        return False
    if isinstance(a, (Fl,)) or isinstance(b, (Fl,)) or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        (ra, na), (rb, nb) = fl_parts(a), fl_parts(b)
        return And(Not(na), Not(nb), eq_scalar(eng, ra, rb, st))
    if is_num(a) and is_num(b):
        if is_conc_num(a) and is_conc_num(b): return a == b
        for u, v in ((a, b), (b, a)):
            if isinstance(u, float) and abs(u) == float("inf"): return False
        if is_sbool(a) and is_sbool(b): return a == b
        if is_sbool(a) and isinstance(b, (int, bool)) and b in (0, 1): return a if b else Not(a)
        if is_sbool(b) and isinstance(a, (int, bool)) and a in (0, 1): return b if a else Not(b)
        x, y = rv(a), rv(b)
        if x.sort() != y.sort(): x, y = rr(x), rr(y)
        return x == y
    if is_z3(a) and is_z3(b):
        if a.sort() == b.sort(): return a == b
        if U in (a.sort(), b.sort()): return u_of(a) == u_of(b)
        return False
    if is_z3(a) and a.sort() == U or is_z3(b) and b.sort() == U:
        return u_of(a) == u_of(b)
    if is_z3(a) or is_z3(b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str): return False
        raise Unsupported("== %r %r" % (a, b))
    if isinstance(a, Ref) and isinstance(b, Ref) and a == b: return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return And(*[eq_scalar(eng, x, y, st) for x, y in zip(a, b)])
    if isinstance(a, (Ref, Opaque, OpaqueStr)) or isinstance(b, (Ref, Opaque, OpaqueStr)):
        if a is None or b is None: return False
        ia, ib = eng.as_items(a, st), eng.as_items(b, st)
        if ia is not None and ib is not None and not isinstance(a, tuple) and not isinstance(b, tuple):
            if len(ia) != len(ib): return False
            return And(*[eq_scalar(eng, x, y, st) for x, y in zip(ia, ib)])
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, Ref) or isinstance(b, Ref): return False
        raise Unsupported("== %r %r" % (a, b))
    if isinstance(a, (Ext, ClassVal, FuncVal)) or isinstance(b, (Ext, ClassVal, FuncVal)): return a == b
    return a == b


# injection of reals/ints/strings into U
u_real = z3.Function("u_real", REAL, U)
u_str = z3.Function("u_str", INT, U)
u_none = z3.Const("u_none", U)

def u_of(v):
    if is_z3(v) and v.sort() == U: return v
    if v is None: return u_none
    if isinstance(v, str): return u_str(z3.IntVal(str_id(v)))
    if isinstance(v, Fl): return z3.If(bz(v.nan), z3.Const("u_nan", U), u_real(rr(v.r)))
    if isinstance(v, float) and v != v: return z3.Const("u_nan", U)
    return u_real(rr(v))


# ---------------------------------------------------------------------------------------------------- array lifting
def _eqdim(eng, st, a, b):
    x, y = conc(a), conc(b)
    if isinstance(x, int) and isinstance(y, int): return x == y
    x, y = rv(x), rv(y)
    if x.eq(y): return True
    return eng.entails(st.pc, x == y)


class Mask2:
    """two-dimensional filter: elements (i, j) with m(i, j), in row order"""
    def __init__(self, f): self.f = f
    def __call__(self, i, j): return self.f(i, j)


def same_mask(eng, st, a, b):
    if a.mask is None and b.mask is None: return True
    if a.mask is b.mask: return True
    if isinstance(a.mask, Mask2) or isinstance(b.mask, Mask2):
        if not (isinstance(a.mask, Mask2) and isinstance(b.mask, Mask2)) or len(a.shape) != len(b.shape): return False
        k, l = fresh("km"), fresh("lm")
        ma, mb = bz(a.mask(k, l)), bz(b.mask(k, l))
        return z3.simplify(ma).eq(z3.simplify(mb)) or eng.entails(st.pc + [k >= 0, k < rv(a.n), l >= 0, l < rv(a.shape[1])], ma == mb)
    k = fresh("km")
    ma = z3.BoolVal(True) if a.mask is None else bz(a.mask(k))
    mb = z3.BoolVal(True) if b.mask is None else bz(b.mask(k))
    if z3.simplify(ma).eq(z3.simplify(mb)): return True
    return eng.entails(st.pc + [k >= 0, k < rv(a.n)], ma == mb)


def lift(eng, st, f, *vals, dtype=None):
    """element-wise application with broadcasting"""
    arrs = [eng.as_arr(v, st) for v in vals]
    vals = [to_nd(eng, st, v) if a is None and isinstance(v, (Ref, tuple)) else (a if a is not None else v)
            for v, a in zip(vals, arrs)]
    arrs = [v for v in vals if isinstance(v, Arr)]
    if not arrs: return f(*vals)
    nd = max(len(a.shape) for a in arrs)
    shape = [1] * nd
    for a in arrs:
        off = nd - len(a.shape)
        for i, d in enumerate(a.shape):
            j = i + off
            d1 = conc(d)
            if isinstance(d1, int) and d1 == 1 and a.mask is None: continue
            if isinstance(conc(shape[j]), int) and conc(shape[j]) == 1: shape[j] = d
            elif not _eqdim(eng, st, shape[j], d):
                raise PyRaise("ValueError", "broadcast") if isinstance(d1, int) and isinstance(conc(shape[j]), int) \
                    else Unsupported("broadcast of unequal lengths %s %s" % (shape[j], d))
    mask = None
    masked = [a for a in arrs if a.mask is not None]
    if masked:
        for a in arrs:
            if len(a.shape) == nd and not (isinstance(conc(a.n), int) and conc(a.n) == 1) and \
                    not same_mask(eng, st, masked[0], a):
                raise Unsupported("operation on differently masked arrays")
        mask = masked[0].mask
    def fn(*idx):
        ev = []
        for v in vals:
            if isinstance(v, Arr):
                off = nd - len(v.shape)
                ii = []
                for i, d in enumerate(v.shape):
                    d1 = conc(d)
                    ii.append(0 if isinstance(d1, int) and d1 == 1 and v.mask is None else idx[i + off])
                ev.append(v.fn(*ii))
            else: ev.append(v)
        return f(*ev)
    if dtype is None:
        dtype = _dt(eng, st, fn, nd)
    return st.alloc(HArr(Arr(shape, fn, dtype, mask)))


def _dt(eng, st, fn, nd):
    v = fn(*[fresh("dt") for _ in range(nd)])
    return dt_of(v)


def dt_of(v):
    if isinstance(v, bool) or is_sbool(v): return "bool"
    if isinstance(v, int) or (is_z3(v) and v.sort() == INT): return "int"
    if isinstance(v, (float, Fraction, Fl)) or (is_z3(v) and v.sort() == REAL): return "float"
    return "obj"


def to_nd(eng, st, v):
    """numpy array from list/tuple"""
    a = eng.as_arr(v, st)
    if a is not None: return a if not a.islist else Arr(a.shape, a.fn, a.dtype, a.mask)
    items = eng.as_items(v, st)
    if items is None: raise Unsupported("array from %r" % (v,))
    sub = [eng.as_arr(x, st) if not isinstance(x, (tuple,)) else None for x in items]
    sub = [to_nd(eng, st, x) if s is None and (isinstance(x, tuple) or (isinstance(x, Ref) and isinstance(st.get(x), HList)))
           else s for x, s in zip(items, sub)]
    if items and all(s is not None for s in sub):
        sh = sub[0].shape
        for s in sub:
            if len(s.shape) != len(sh) or s.mask is not None: raise Unsupported("ragged array")
            if not all(_eqdim(eng, st, p, q) for p, q in zip(sh, s.shape)): raise Unsupported("ragged array")
        n = len(sub)
        def fn(i, *r):
            i = conc(i)
            if isinstance(i, int): return sub[i].fn(*r)
            return pick(eng, st, [s.fn(*r) for s in sub], i)
        return Arr((n,) + sh, fn, promote([s.dtype for s in sub]))
    if any(s is not None for s in sub): raise Unsupported("ragged array")
    dts = [dt_of(x) for x in items]
    dt = promote(dts) if items else "float"
    if dt == "float": items = [tofloat(x) for x in items]
    n = len(items)
    def fn(i):
        i = conc(i)
        if isinstance(i, int) and (items or i == 0): return items[i] if items else 0.0
        return pick(eng, st, items, i)
    return Arr((n,), fn, dt)


def tofloat(x):
    if isinstance(x, (bool, int)): return float(x)
    if is_z3(x) and (x.sort() == INT or z3.is_bool(x)): return rr(x)
    return x


def promote(dts):
    s = set(dts)
    if len(s) == 1: return next(iter(s))
    if s <= {"bool", "int"}: return "int"
    if s <= {"bool", "int", "float", "mixed"}: return "float"
    return "obj"


def pick(eng, st, vals, i):
    if not vals: return 0.0           # element of an empty sequence: never read
    if len(vals) > 1 and all(isinstance(v, str) or is_z3(v) and v.sort() == U for v in vals): vals = [u_of(v) for v in vals]
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = eng.merge_vals([vals[k], r], [i == k, z3.BoolVal(True)], [st, st])
    return r


# ---------------------------------------------------------------------------------------------------- operators
def unop(eng, op, v, st):
    touch(v)
    a = eng.as_arr(v, st)
    if a is not None:
        return lift(eng, st, lambda x: unop(eng, op, x, st), v)
    if isinstance(op, ast.USub):
        if isinstance(v, Fl): return Fl(unop(eng, op, v.r, st), v.nan)
        if is_conc_num(v): return -v
        if is_num(v): return -rv(v)
    if isinstance(op, ast.UAdd): return v
    if isinstance(op, ast.Invert):
        if isinstance(v, bool): return not v
        if is_sbool(v): return Not(v)
        if isinstance(v, int): return ~v
    if is_pv(v) and isinstance(op, ast.USub):
        if not eng.decide(pv_isnum(v), st): raise PyRaise("TypeError")
        return -pv_real(v)
    from . import models
    h = models.special_unop(eng, op, v, st)
    if h is not NotImplemented: return h
    raise Unsupported("unary %s %r" % (type(op).__name__, v))


def binop(eng, op, a, b, st):
    touch(a, b)
    o = OPN[type(op)]
    from . import models
    h = models.special_binop(eng, o, a, b, st)
    if h is not NotImplemented: return h
    if o == "+":
        if isinstance(a, PyVal): a = st.alloc(HList(a.iter(eng, st)))
        if isinstance(b, PyVal): b = st.alloc(HList(b.iter(eng, st)))
    if o == "+" and isinstance(a, Ref) and isinstance(st.get(a), HInst) and (st.get(a).cls, "__add__") in eng.methods: return eng.methods[(st.get(a).cls, "__add__")](eng, st, [a, b], {})
    a, b = scal(eng, st, a), scal(eng, st, b)
    if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)): return Opaque("op")
    if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
        if o == "+" and isinstance(a, str) and isinstance(b, str): return a + b
        if o == "*" and isinstance(a, str) and isinstance(b, int): return a * b
        if o == "%": return OpaqueStr()
        if o == "+" and isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)): return OpaqueStr()
        raise PyRaise("TypeError")
    la, lb = is_list(eng, a, st), is_list(eng, b, st)
    if (la or lb) and not (is_ndarray(eng, a, st) or is_ndarray(eng, b, st)):
        if o == "+" and la and lb: return list_concat(eng, st, a, b)
        if o == "+" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if o == "*" and (la or isinstance(a, tuple)):
            it, m = eng.as_items(a, st), conc(b)
            if it is not None and isinstance(m, int):
                return st.alloc(HList(it * m)) if la else a * m
            if it is not None and len(it) == 1 and is_z3(m):
                v = it[0]
                n = z3.If(m > 0, m, z3.IntVal(0))
                if eng.entails(st.pc, m >= 0): n = m
                if isinstance(v, Ref):
                    raise Unsupported("list of references times n")
                return st.alloc(HArr(Arr((n,), lambda i: v, dt_of(v), islist=True)))
        if o == "*" and (lb or isinstance(b, tuple)): return binop(eng, op, b, a, st)
        raise Unsupported("list operator %s" % o)
    if isinstance(a, tuple) and isinstance(b, tuple) and o == "+": return a + b
    if isinstance(a, tuple) and isinstance(conc(b), int) and o == "*": return a * conc(b)
    if isinstance(a, Ref) and isinstance(st.get(a), HSet) and isinstance(b, Ref):
        raise Unsupported("set operator")
    if eng.as_arr(a, st) is not None or eng.as_arr(b, st) is not None:
        if o == "@": raise Unsupported("matmul")
        return lift(eng, st, lambda x, y: elem_op(eng, o, x, y, st), a, b)
    if is_pv(a) or is_pv(b):
        for v in (a, b):
            if is_pv(v) and not eng.decide(pv_isnum(v), st): raise PyRaise("TypeError")
        return arith(eng, o, pv_real(a) if is_pv(a) else a, pv_real(b) if is_pv(b) else b, st)
    if a is None or b is None: raise PyRaise("TypeError", "NoneType operand")
    return arith(eng, o, a, b, st)


def elem_op(eng, o, x, y, st):
    if o == "+" and (isinstance(x, (str, OpaqueStr)) or isinstance(y, (str, OpaqueStr))): return OpaqueStr()
    if isinstance(x, bool) or is_sbool(x):
        if o == "*" and (isinstance(y, bool) or is_sbool(y)): return And(x, y)
        if o == "+" and (isinstance(y, bool) or is_sbool(y)): return Or(x, y)
    return arith(eng, o, x, y, st)


def is_list(eng, v, st):
    if isinstance(v, Arr): return v.islist
    if isinstance(v, Ref):
        r = st.get(v)
        return isinstance(r, HList) or (isinstance(r, HArr) and r.arr.islist)
    return False


def is_ndarray(eng, v, st):
    a = eng.as_arr(v, st)
    return a is not None and not a.islist


def list_concat(eng, st, a, b):
    ia, ib = eng.as_items(a, st), eng.as_items(b, st)
    if ia is not None and ib is not None: return st.alloc(HList(ia + ib))
    x = eng.as_arr(a, st) or to_nd_list(eng, st, ia)
    y = eng.as_arr(b, st) or to_nd_list(eng, st, ib)
    return st.alloc(HArr(concat(eng, st, [x, y], islist=True)))


def to_nd_list(eng, st, items):
    return Arr((len(items),), lambda i: items[i] if isinstance(conc(i), int) else pick(eng, st, items, i),
               promote([dt_of(x) for x in items]) if items else "obj", islist=True)


def concat(eng, st, arrs, islist=False):
    arrs = [a for a in arrs if not (isinstance(conc(a.n), int) and conc(a.n) == 0)] or arrs[:1]
    if len(arrs) == 1:
        a = arrs[0]
        return a if a.islist == islist or a.dtype == "set" or len(a.shape) != 1 else Arr(a.shape, a.fn, a.dtype, a.mask, islist=islist, meta=a.meta)
    filtered = any(a.mask is not None for a in arrs)
    dt = promote([a.dtype for a in arrs])
    off = [0]
    for a in arrs: off.append(conc(rv(off[-1]) + rv(a.n)) if not (isinstance(off[-1], int) and isinstance(conc(a.n), int))
                              else off[-1] + conc(a.n))
    def fn(i, *r):
        i = conc(i)
        if isinstance(i, int) and all(isinstance(o, int) for o in off):
            for k, a in enumerate(arrs):
                if i < off[k + 1]: return cast_elem(a.fn(i - off[k], *r), a.dtype, dt)
            raise PyRaise("IndexError")
        vals, conds = [], []
        for k, a in enumerate(arrs):
            j = conc(z3.simplify(rv(i) - rv(off[k])))
            an = conc(a.n)
            if isinstance(j, int) and (j < 0 or isinstance(an, int) and j >= an): continue
            vals.append(cast_elem(a.fn(j, *r), a.dtype, dt) if not (isinstance(an, int) and an == 1)
                        else cast_elem(a.fn(0, *r), a.dtype, dt))
            conds.append(rv(i) < rv(off[k + 1]))
        if not vals: raise PyRaise("IndexError")
        r_ = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r_ = eng.merge_vals([vals[k], r_], [conds[k], z3.BoolVal(True)], [st, st])
        return r_
    tot = off[-1]
    if is_z3(tot): tot = conc(z3.simplify(tot))
    def mask(i):
        r = z3.BoolVal(True) if arrs[-1].mask is None else bz(arrs[-1].mask(z3.simplify(rv(i) - rv(off[-2]))))
        for k in range(len(arrs) - 2, -1, -1):
            a = arrs[k]
            r = z3.If(rv(i) < rv(off[k + 1]), z3.BoolVal(True) if a.mask is None else bz(a.mask(z3.simplify(rv(i) - rv(off[k])))), r)
        return z3.simplify(r)
    return Arr((tot,) + tuple(arrs[0].shape[1:]), fn, dt, mask if filtered else None, islist=islist)


def cast_elem(v, src, dst):
    if src == dst: return v
    if dst == "float": return tofloat(v)
    if dst == "int" and (isinstance(v, bool) or is_sbool(v)): return rv(v) if is_z3(v) else int(v)
    return v


def compare(eng, op, a, b, st):
    if not isinstance(op, (ast.Is, ast.IsNot)): touch(a, b)
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = is_(eng, a, b, st)
        return r if isinstance(op, ast.Is) else Not(r)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(eng, b, a, st)
        return r if isinstance(op, ast.In) else Not(r)
    o = CMPN[type(op)]
    from . import models
    h = models.special_compare(eng, o, a, b, st)
    if h is not NotImplemented: return h
    if o == "==" and isinstance(a, Ref) and isinstance(st.get(a), HInst) and (st.get(a).cls, "__eq__") in eng.methods:
        return eng.methods[(st.get(a).cls, "__eq__")](eng, st, [a, b], {})
    a, b = scal(eng, st, a), scal(eng, st, b)
    if is_ndarray(eng, a, st) or is_ndarray(eng, b, st):
        return lift(eng, st, lambda x, y: cmp_scalar(eng, o, x, y, st), a, b, dtype="bool")
    return cmp_scalar(eng, o, a, b, st)


def is_(eng, a, b, st):
    if a is b: return True
    if is_pv(a) or is_pv(b):
        if not is_pv(a): a, b = b, a
        if b is None: return PV.is_PNone(a)
        if isinstance(b, bool): return z3.And(PV.is_PBool(a), PV.pb(a) == b)
        if is_pv(b): return a == b
        return False
    if a is None or b is None: return False
    if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if is_sbool(a) or is_sbool(b): return eq_scalar(eng, a, b, st) if (isinstance(a, bool) or is_sbool(a)) and (isinstance(b, bool) or is_sbool(b)) else False
    if isinstance(a, (Ext, ClassVal)) and isinstance(b, (Ext, ClassVal)): return same_cls(a, b)
    if type(a) is not type(b): return False
    raise Unsupported("is %r %r" % (a, b))


def same_cls(a, b):
    if isinstance(a, Ext) and isinstance(b, Ext): return a.name.split(".")[-1] == b.name.split(".")[-1]
    return a is b


def contains(eng, cont, x, st):
    if isinstance(cont, str):
        if isinstance(x, str): return x in cont
        raise Unsupported("in str")
    if isinstance(cont, Ref) and isinstance(st.get(cont), HDict):
        rec = st.get(cont)
        if not is_z3(x) and not rec.fams:
            try:
                return eng.hashkey(x) in rec.items
            except Unsupported:
                pass
        if rec.fams: raise Unsupported("in symbolic dict")
        return Or(*[eq_scalar(eng, x, k, st) for k in rec.items])
    if isinstance(cont, Ref) and isinstance(st.get(cont), HInst) and (st.get(cont).cls, "__contains__") in eng.methods:
        return eng.methods[(st.get(cont).cls, "__contains__")](eng, st, [cont, x], {})
    items = eng.as_items(cont, st)
    if items is not None:
        if is_pv(x) or is_z3(x) or any(is_z3(i) for i in items) or isinstance(x, Fl):
            return Or(*[eq_scalar(eng, i, x, st) for i in items])
        for i in items:
            r = eq_scalar(eng, i, x, st)
            if not isinstance(r, bool): return Or(*[eq_scalar(eng, i, x, st) for i in items])
            if r: return True
        return False
    a = eng.as_arr(cont, st)
    if a is not None and len(a.shape) == 1:
        k = fresh("in")
        g = And(k >= 0, k < rv(a.n), a.mask(k) if a.mask else True)
        return z3.Exists([k], bz(And(g, eq_scalar(eng, a.fn(k), x, st))))
    if isinstance(cont, Rng) and cont.step == 1:
        return And(cmp_scalar(eng, ">=", x, cont.lo, st), cmp_scalar(eng, "<", x, cont.hi, st))
    if is_pv(cont):
        eng_container(eng, cont, st)
        k = fresh("in")
        i = PV.pid(cont)
        return z3.Exists([k], bz(And(k >= 0, k < plen(i), eq_scalar(eng, pelem(i, k), x, st))))
    raise Unsupported("in %r" % (cont,))


def eng_container(eng, v, st):
    """v (dynamic) must be an iterable container on this path"""
    isc = z3.And(PV.is_PObj(v), z3.Or(*[PV.pkind(v) == kind_id(k) for k in ("list", "tuple", "dict", "numpy.ndarray", "set")]))
    if not eng.decide(isc, st):
        raise PyRaise("TypeError", "not iterable")
    st.assume(plen(PV.pid(v)) >= 0)


# ---------------------------------------------------------------------------------------------------- length, iteration
def length(eng, v, st):
    touch(v)
    from . import sums, models
    if isinstance(v, (str, tuple)): return len(v)
    if isinstance(v, PyVal): return v.length(eng, st)
    if isinstance(v, Ref):
        r = st.get(v)
        if isinstance(r, HList): return len(r.items)
        if isinstance(r, HSet):
            eqs = [[eq_scalar(eng, x, y, st) for y in r.items[:i]] for i, x in enumerate(r.items)]
            if all(e is False for es in eqs for e in es): return len(r.items)
            return conc(z3.simplify(z3.Sum(*[z3.If(bz(Or(*es)), z3.IntVal(0), z3.IntVal(1)) if es else z3.IntVal(1) for es in eqs])))
        if isinstance(r, HArr) and r.arr.dtype == "set": return set_size(eng, st, r.arr)
        if isinstance(r, HDict):
            if r.fams: raise Unsupported("len of symbolic dict")
            return len(r.items)
        if isinstance(r, HInst) and isinstance(r.cls, ClassVal):
            m = eng.class_attr(r.cls, "__len__")
            if m: return eng.call(BoundMethod(v, m), [], {}, st)
            raise PyRaise("TypeError", "no len")
        if isinstance(r, HInst) and (r.cls, "__len__") in eng.methods: return eng.methods[(r.cls, "__len__")](eng, st, [v], {})
    a = eng.as_arr(v, st)
    if a is not None:
        if not a.shape: raise PyRaise("TypeError", "len of unsized object")
        if a.mask is None: return conc(a.n)
        return sums.count(eng, st, a)
    if isinstance(v, Rng):
        if v.step == 1:
            n = rv(v.hi) - rv(v.lo)
            n = z3.simplify(n)
            return conc(z3.If(n > 0, n, z3.IntVal(0)))
    if is_pv(v):
        isc = z3.And(PV.is_PObj(v), z3.Or(*[PV.pkind(v) == kind_id(k) for k in ("list", "tuple", "dict", "numpy.ndarray", "set")]))
        if not eng.decide(isc, st): raise PyRaise("TypeError", "no len")
        st.assume(plen(PV.pid(v)) >= 0)
        return plen(PV.pid(v))
    if is_z3(v) and v.sort() == U and ("U", "__len__") in eng.methods: return eng.methods[("U", "__len__")](eng, st, [v], {})
    if v is None or is_num(v): raise PyRaise("TypeError", "no len")
    h = models.special_len(eng, v, st)
    if h is not NotImplemented: return h
    raise Unsupported("len of %r" % (v,))


def set_size(eng, st, a):
    """number of distinct elements: known to be zero, one or more"""
    N, i, j = fresh("setsize"), fresh("i"), fresh("j")
    g = lambda t: z3.And(t >= 0, t < rv(a.n), bz(a.mask(t)) if a.mask else z3.BoolVal(True))
    st.assume(z3.And(N >= 0, N <= rv(a.n), (N >= 1) == z3.Exists([i], g(i)),
                     (N >= 2) == z3.Exists([i, j], z3.And(g(i), g(j), z3.Not(bz(eq_scalar(eng, a.fn(i), a.fn(j), st)))))))
    return N


class SymIter:
    """symbolic iteration: n elements, val(k) for parent index k, optional mask"""
    def __init__(self, n, val, mask=None): self.n, self.val, self.mask = n, val, mask


def flat_nested(st, a):
    """the list of a double comprehension whose inner length is the same throughout"""
    from .sums import has
    k = fresh("k")
    e = a.fn(k)
    if a.mask is not None or not isinstance(e, Arr) or len(e.shape) != 1 or e.mask is not None or e.dtype == "nested" or is_z3(e.n) and has(e.n, k): raise Unsupported("iteration over a ragged double comprehension")
    w = rv(e.n)
    st.assume(grid_axiom(a.n, w))
    st.assume(z3.Implies(z3.And(rv(a.n) >= 0, w >= 0), rv(a.n) * w >= 0))
    return Arr((rv(a.n) * w,), lambda q: a.fn(QDIV(rv(q), w)).fn(QMOD(rv(q), w)), e.dtype, islist=True)


def iter_of(eng, v, st):
    touch(v)
    if isinstance(v, SymIter): return v
    if isinstance(v, PyVal): return v.iter(eng, st)
    items = eng.as_items(v, st)
    if items is not None: return items
    if isinstance(v, Rng):
        lo, hi, s = v.lo, v.hi, conc(v.step)
        if s == 1:
            n = z3.simplify(rv(hi) - rv(lo))
            n = n if eng.entails(st.pc, n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
            return SymIter(n, lambda k: conc(z3.simplify(rv(lo) + k)) if not same_zero(lo) else k)
        if s == -1:
            n = z3.simplify(rv(lo) - rv(hi))
            n = n if eng.entails(st.pc, n >= 0) else z3.If(n > 0, n, z3.IntVal(0))
            return SymIter(n, lambda k: z3.simplify(rv(lo) - k))
        raise Unsupported("range with symbolic step")
    a = eng.as_arr(v, st)
    if a is not None:
        if a.dtype == "nested": a = flat_nested(st, a)
        if len(a.shape) == 1: return SymIter(rv(a.n), lambda k: a.fn(k), a.mask)
        return SymIter(rv(a.n), lambda k: Arr(a.shape[1:], lambda *r: a.fn(k, *r), a.dtype), a.mask)
    if is_pv(v):
        eng_container(eng, v, st)
        i = PV.pid(v)
        return SymIter(plen(i), lambda k: pelem(i, k))
    if isinstance(v, Ref) and isinstance(st.get(v), HInst) and (st.get(v).cls, "__iter__") in eng.methods: return eng.methods[(st.get(v).cls, "__iter__")](eng, st, [v], {})
    if v is None or is_num(v): raise PyRaise("TypeError", "not iterable")
    from . import models
    h = models.special_iter(eng, v, st)
    if h is not NotImplemented: return h
    raise Unsupported("iteration over %r" % (v,))


def same_zero(x): return isinstance(conc(x), int) and conc(x) == 0


# ---------------------------------------------------------------------------------------------------- attributes
def getattr_(eng, o, name, st):
    touch(o)
    from . import models
    if isinstance(o, ModVal):
        try:
            return o.mod.lookup(name)
        except KeyError:
            return ModVal(eng.module(o.mod.name + "." + name))
    if isinstance(o, PyVal): return o.getattr(eng, st, name)
    if isinstance(o, Ext):
        full = o.name + "." + name
        c = getattr(eng, "consts", {}).get(full)
        if c is not None: return c
        if full in models.CONSTS: return models.CONSTS[full]
        return Ext(full)
    if isinstance(o, Opaque): return Opaque(o.name + "." + name)
    if isinstance(o, SuperVal):
        mro = eng.mro(st.get(o.self_).cls)
        after = mro[mro.index(o.cls) + 1:]
        for c in after:
            if isinstance(c, ClassVal):
                for n in c.node.body:
                    if isinstance(n, ast.FunctionDef) and n.name == name:
                        return BoundMethod(o.self_, eng.class_attr(c, name))
        if name == "__init__": return lambda e, s, a, k: None
        raise Unsupported("super().%s" % name)
    if isinstance(o, ClassVal):
        if name == "__name__": return o.name
        v = eng.class_attr(o, name)
        if v is None: raise PyRaise("AttributeError", name)
        if isinstance(v, FuncVal) and v.kind == "classmethod": return BoundMethod(o, v)
        return v
    if isinstance(o, Ref):
        r = st.get(o)
        if isinstance(r, HInst):
            if name in r.attrs:
                v = r.attrs[name]
                if isinstance(v, Poison): raise Unsupported("attribute %s: %s" % (name, v.why))
                return v
            if name == "__class__": return r.cls
            if isinstance(r.cls, ClassVal):
                v = eng.class_attr(r.cls, name)
                if isinstance(v, FuncVal):
                    if v.kind == "property": return eng.call(v, [o], {}, st)
                    if v.kind == "staticmethod": return v
                    if v.kind == "classmethod": return BoundMethod(r.cls, v)
                    return BoundMethod(o, v)
                if v is not None: return v
                m = models.inst_method(eng, o, r, name, st)
                if m is not None: return m
                if "!partial" in r.attrs: raise Unsupported("attribute %s is not part of the state the contract describes" % name)
                raise PyRaise("AttributeError", name)
            m = eng.methods.get((r.cls, name))
            if m is not None: return bind_py(m, o)
            m = eng.methods.get((r.cls, "*"))
            if m is not None: return m(eng, o, name, st)
            raise Unsupported("attribute %s of %s" % (name, r.cls))
        kind = {"HList": "list", "HDict": "dict", "HSet": "set", "HArr": "ndarray", "HAcc": "list", "HDictAcc": "dict", "HFam": "list"}[type(r).__name__]
        if kind == "ndarray" and r.arr.islist: kind = "set" if r.arr.dtype == "set" else "list"
        if kind == "list" and type(r).__name__ == "HAcc" and (isinstance(r.base, HSet) or isinstance(r.base, HArr) and r.base.arr.dtype == "set"): kind = "set"
        m = eng.methods.get((kind, name))
        if m is not None: return bind_py(m, o)
        p = models.PROPS.get((kind, name))
        if p is not None: return p(eng, st, o)
        raise Unsupported("attribute %s of %s" % (name, kind))
    if isinstance(o, Arr):
        kind = "list" if o.islist else "ndarray"
        m = eng.methods.get((kind, name))
        if m is not None: return bind_py(m, o)
        p = models.PROPS.get((kind, name))
        if p is not None: return p(eng, st, o)
        raise Unsupported("attribute %s of %s" % (name, kind))
    if isinstance(o, (str, OpaqueStr)):
        m = eng.methods.get(("str", name))
        if m is not None: return bind_py(m, o)
        raise Unsupported("str.%s" % name)
    if isinstance(o, tuple):
        m = eng.methods.get(("tuple", name))
        if m is not None: return bind_py(m, o)
        raise Unsupported("tuple.%s" % name)
    if is_pv(o): return models.pv_attr(eng, o, name, st)
    if o is None: raise PyRaise("AttributeError", name)
    if is_z3(o) and o.sort() == U and ("U", name) in eng.methods: return eng.methods[("U", name)](eng, o, name, st)
    if is_num(o) or isinstance(o, Fl):
        m = eng.methods.get(("num", name))
        if m is not None: return bind_py(m, o)
        p = models.PROPS.get(("num", name))
        if p is not None: return p(eng, st, o)
    h = models.special_attr(eng, o, name, st)
    if h is not NotImplemented: return h
    raise Unsupported("attribute %s of %r" % (name, o))


def bind_py(m, o):
    return lambda eng, st, args, kwargs: m(eng, st, [o] + list(args), kwargs)


# ---------------------------------------------------------------------------------------------------- indexing
def norm_index(eng, st, i, n, inb=True):
    """python index normalisation; raises IndexError path when it can be out of bounds"""
    i = conc(i)
    n = conc(n)
    if isinstance(i, bool): i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: raise PyRaise("IndexError")
        return i if i >= 0 else i + n
    if isinstance(i, int) and i < 0:
        if inb and not eng.decide(rv(n) >= -i, st): raise PyRaise("IndexError")
        return z3.simplify(rv(n) + i)
    zi, zn = rv(i), rv(n)
    if zi.sort() != INT: raise PyRaise("IndexError", "float index")
    if isinstance(i, int):
        if inb and not eng.decide(zi < zn, st): raise PyRaise("IndexError")
        return i
    if eng.entails(st.pc, zi >= 0):
        if inb and not eng.entails(st.pc, zi < zn) and not eng.decide(zi < zn, st): raise PyRaise("IndexError")
        return i
    if eng.entails(st.pc, zi < 0):
        if inb and not eng.decide(zi >= -zn, st): raise PyRaise("IndexError")
        return z3.simplify(zi + zn)
    if inb and not eng.decide(z3.And(zi >= -zn, zi < zn), st): raise PyRaise("IndexError")
    return z3.If(zi < 0, zi + zn, zi)


def slice_bounds(eng, st, s, n):
    """(start, length) for step None/1/-1(only full)"""
    step = conc(s.step) if s.step is not None else 1
    n = conc(n)
    def clamp(v, default):
        if v is None: return default
        v = conc(v)
        if is_pv(v): raise Unsupported("slice")
        if isinstance(v, int) and isinstance(n, int):
            if v < 0: v = max(0, v + n)
            return min(v, n)
        zv, zn = rv(v), rv(n)
        if isinstance(v, int):
            if v == 0: return 0
            if v < 0:
                t = zn + v
                return z3.simplify(t) if eng.entails(st.pc, t >= 0) else z3.If(t >= 0, t, z3.IntVal(0))
            return v if eng.entails(st.pc, zv <= zn) else z3.If(zv <= zn, zv, zn)
        if eng.entails(st.pc, z3.And(zv >= 0, zv <= zn)): return v
        t = z3.If(zv < 0, zv + zn, zv)
        return z3.If(t < 0, z3.IntVal(0), z3.If(t > zn, zn, t))
    if step == 1:
        lo, hi = clamp(s.lo, 0), clamp(s.hi, n)
        if isinstance(lo, int) and isinstance(hi, int): return lo, max(0, hi - lo), 1
        d = z3.simplify(rv(hi) - rv(lo))
        ln = d if eng.entails(st.pc, d >= 0) else z3.If(d >= 0, d, z3.IntVal(0))
        return lo, conc(ln), 1
    if step == -1 and s.lo is None and s.hi is None:
        return (n - 1 if isinstance(n, int) else z3.simplify(rv(n) - 1)), n, -1
    raise Unsupported("slice step")


def slice_arr(eng, st, a, s, axis=0):
    if a.mask is not None:
        if s.lo is None and s.hi is None and s.step is None: return a
        raise Unsupported("slice of a filtered sequence")
    lo, ln, step = slice_bounds(eng, st, s, a.shape[axis])
    if step == 1 and isinstance(lo, int) and lo == 0 and same_len(ln, a.shape[axis]): return a
    sh = list(a.shape); sh[axis] = ln
    def fn(*idx):
        idx = list(idx)
        i = conc(idx[axis])
        if step == 1:
            idx[axis] = i + lo if isinstance(i, int) and isinstance(lo, int) else conc(z3.simplify(rv(i) + rv(lo)))
        else:
            idx[axis] = lo - i if isinstance(i, int) and isinstance(lo, int) else conc(z3.simplify(rv(lo) - rv(i)))
        return a.fn(*idx)
    return Arr(sh, fn, a.dtype, islist=a.islist)


def same_len(a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) or isinstance(b, int): return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
    return z3.simplify(a).eq(z3.simplify(b))


def getitem(eng, o, k, st):
    touch(o, k)
    if isinstance(o, PyVal): return o.getitem(eng, st, k)
    from . import models
    h = models.special_getitem(eng, o, k, st)
    if h is not NotImplemented: return h
    if is_z3(o) and o.sort() == U and ("U", "__getitem__") in eng.methods: return eng.methods[("U", "__getitem__")](eng, st, [o, k], {})
    if isinstance(o, (str, tuple)):
        if isinstance(k, SliceVal):
            lo, hi, s = conc(k.lo), conc(k.hi), conc(k.step)
            return o[slice(lo, hi, s)]
        i = conc(k)
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(o, tuple):
            j = norm_index(eng, st, k, len(o))
            return pick(eng, st, list(o), j)
        raise Unsupported("string index")
    if isinstance(o, Ref):
        r = st.get(o)
        if isinstance(r, HDict):
            if not r.fams:
                if is_z3(conc(k)):
                    for kk in r.items:
                        if eng.decide(eq_scalar(eng, k, kk, st), st): return r.items[kk]
                    raise PyRaise("KeyError")
                if isinstance(k, tuple) and any(is_z3(conc(x)) for x in k):
                    for kk in r.items:
                        if not isinstance(kk, tuple) or len(kk) != len(k): continue
                        if all(eng.decide(eq_scalar(eng, x, y, st), st) for x, y in zip(k, kk)): return r.items[kk]
                    raise PyRaise("KeyError")
                key = eng.hashkey(k)
                if key in r.items:
                    v = r.items[key]
                    return v
                raise PyRaise("KeyError", str(key))
            for f in reversed(r.fams):
                g = f.guard(k)
                if g is None: continue
                if eng.entails(st.pc, bz(g)): return f.value(k)
                if eng.entails(st.pc, z3.Not(bz(g))): continue
                if eng.decide(bz(g), st): return f.value(k)
            try:
                key = eng.hashkey(k)
                if key in r.items: return r.items[key]
            except Unsupported:
                raise Unsupported("symbolic dict lookup")
            raise PyRaise("KeyError")
        if isinstance(r, HList):
            if isinstance(k, SliceVal):
                lo, hi, s = conc(k.lo), conc(k.hi), conc(k.step)
                if all(x is None or isinstance(x, int) for x in (lo, hi, s)):
                    return st.alloc(HList(r.items[slice(lo, hi, s)]))
                return st.alloc(HArr(slice_arr(eng, st, to_nd_list(eng, st, list(r.items)), k)))
            j = norm_index(eng, st, scal(eng, st, k), len(r.items))
            if isinstance(j, int): return r.items[j]
            return pick(eng, st, list(r.items), j)
        if isinstance(r, HArr):
            return arr_get(eng, st, r.arr, k, o)
        if isinstance(r, HInst) and isinstance(r.cls, ClassVal):
            m = eng.class_attr(r.cls, "__getitem__")
            if m: return eng.call(BoundMethod(o, m), [k], {}, st)
        if isinstance(r, HInst) and (r.cls, "__getitem__") in eng.methods:
            return eng.methods[(r.cls, "__getitem__")](eng, st, [o, k], {})
        raise Unsupported("getitem on %r" % (r,))
    if isinstance(o, Arr): return arr_get(eng, st, o, k, None)
    if is_pv(o): return models.pv_getitem(eng, o, k, st)
    if isinstance(o, Opaque): return Opaque(o.name + "[]")
    raise Unsupported("getitem on %r" % (o,))


def arr_get(eng, st, a, k, ref):
    if k is Ellipsis: return ref if ref is not None else a
    if isinstance(k, tuple):
        if len(k) > len(a.shape) and not any(x is None for x in k): raise PyRaise("IndexError")
        if any(x is None for x in k): raise Unsupported("newaxis")
        if a.mask is not None: raise Unsupported("index of filtered 2-d array")
        fixed = {}
        b = a
        # slices first, then integers
        for ax, x in enumerate(k):
            if isinstance(x, SliceVal): b = slice_arr(eng, st, b, x, ax)
        maskax = None
        for ax, x in enumerate(k):
            if isinstance(x, SliceVal): continue
            xa = eng.as_arr(x, st)
            if xa is not None and len(xa.shape) == 0: x = xa.fn(); xa = None
            if xa is None and not isinstance(x, (Ref, tuple)):
                fixed[ax] = norm_index(eng, st, x, a.shape[ax])
            elif xa is not None and xa.dtype == "int" and len(xa.shape) == 1:
                fixed[ax] = ("idx", xa)
            elif xa is not None and xa.dtype == "bool" and len(xa.shape) == 1 and ax == 0:
                maskax = xa
            else: raise Unsupported("fancy indexing")
        if maskax is not None:
            if fixed and any(isinstance(v, tuple) for v in fixed.values()): raise Unsupported("fancy indexing")
            rest = [ax for ax in range(len(a.shape)) if ax not in fixed]
            bb = b
            def fnm(*idx):
                full, it = [], iter(idx)
                for ax in range(len(bb.shape)):
                    full.append(fixed[ax] if ax in fixed else next(it))
                return bb.fn(*full)
            return st.alloc(HArr(Arr([bb.shape[ax] for ax in rest], fnm, a.dtype, lambda i: maskax.fn(i))))
        arrs = [v[1] for v in fixed.values() if isinstance(v, tuple)]
        if arrs:
            if len(arrs) != len(fixed): raise Unsupported("mixed fancy indexing")
            if len(fixed) == len(a.shape):
                n = arrs[0].n
                axs = sorted(fixed)
                return st.alloc(HArr(Arr((n,), lambda i: b.fn(*[wrap(fixed[ax][1].fn(i), a.shape[ax]) for ax in axs]),
                                         a.dtype, arrs[0].mask)))
            if len(arrs) == 1:
                ax0 = next(iter(fixed))
                sh = list(b.shape); sh[ax0] = arrs[0].n
                def fnx(*idx):
                    idx = list(idx); idx[ax0] = wrap(arrs[0].fn(idx[ax0]), a.shape[ax0]); return b.fn(*idx)
                return st.alloc(HArr(Arr(sh, fnx, a.dtype)))
            raise Unsupported("fancy indexing")
        rest = [ax for ax in range(len(a.shape)) if ax not in fixed]
        def fn(*idx):
            full, it = [], iter(idx)
            for ax in range(len(a.shape)):
                full.append(fixed[ax] if ax in fixed else next(it))
            return b.fn(*full)
        if not rest: return fn()
        return st.alloc(HArr(Arr([b.shape[ax] for ax in rest], fn, a.dtype), view=True))
    if isinstance(k, SliceVal):
        b = slice_arr(eng, st, a, k)
        if b is a and ref is not None and not a.islist: return ref
        return st.alloc(HArr(b, view=None if a.islist else True))
    ka = eng.as_arr(k, st)
    if ka is None and isinstance(k, Ref) and isinstance(st.get(k), HList): ka = to_nd(eng, st, k)
    if ka is not None and len(ka.shape) == 0: k = ka.fn(); ka = None
    if ka is not None and ka.shape:
        if a.islist: raise PyRaise("TypeError", "list index")
        if ka.dtype == "bool":
            return st.alloc(HArr(mask_select(eng, st, a, ka)))
        if ka.dtype == "int" or (isinstance(conc(ka.n), int) and conc(ka.n) == 0):
            if len(ka.shape) != 1: raise Unsupported("2-d fancy index")
            if a.mask is not None:
                from . import sums
                a = sums.compact(eng, st, a)
            # bounds must hold for every index
            j = fresh("fi")
            iv = ka.fn(j)
            ok = z3.And(rv(iv) >= -rv(a.n), rv(iv) < rv(a.n))
            guard = z3.And(j >= 0, j < rv(ka.n), bz(ka.mask(j) if ka.mask else True))
            if not eng.entails(st.pc + [guard], ok):
                st.ghost["maybe_oob"] = True
                st.assume(z3.ForAll([j], z3.Implies(guard, ok)))
            nonneg = eng.entails(st.pc + [guard], rv(iv) >= 0)
            def fn(i, *r):
                w = ka.fn(i)
                return a.fn(w if nonneg else wrap(w, a.n), *r)
            return st.alloc(HArr(Arr((ka.n,) + a.shape[1:], fn, a.dtype, ka.mask)))
        raise Unsupported("index array of dtype %s" % ka.dtype)
    if a.mask is not None:
        return filt_get(eng, st, a, k)
    j = norm_index(eng, st, k, a.n)
    if len(a.shape) == 1: return a.fn(j)
    return st.alloc(HArr(Arr(a.shape[1:], lambda *r: a.fn(j, *r), a.dtype), view=True))


def filt_get(eng, st, a, k):
    from . import sums
    return sums.filtered_element(eng, st, a, k)


def wrap(i, n):
    i = conc(i)
    if isinstance(i, int):
        return i if i >= 0 else (i + n if isinstance(conc(n), int) else z3.simplify(rv(n) + i))
    return z3.If(i < 0, i + rv(n), i)


def mask_select(eng, st, a, m):
    """a[m] for boolean m"""
    if len(m.shape) == 2 and len(a.shape) == 2 and a.mask is None and m.mask is None:
        if not all(_eqdim(eng, st, x, y) for x, y in zip(a.shape, m.shape)): raise Unsupported("mask of different shape")
        return Arr(a.shape, a.fn, a.dtype, Mask2(lambda i, j: bz(m.fn(i, j))))
    if len(m.shape) != 1: raise Unsupported("2-d mask")
    if not _eqdim(eng, st, a.n, m.n):
        raise Unsupported("mask of different length")
    if a.mask is None and m.mask is None:
        cn = conc(a.n)
        if isinstance(cn, int):
            ms = [conc(z3.simplify(bz(m.fn(i)))) for i in range(cn)]
            if all(isinstance(x, bool) for x in ms):
                ix = [i for i in range(cn) if ms[i]]
                if len(a.shape) == 1:
                    vs = [a.fn(i) for i in ix]
                    return Arr((len(ix),), lambda i: vs[i] if isinstance(conc(i), int) else pick(eng, st, vs, i), a.dtype)
                return Arr((len(ix),) + a.shape[1:], lambda i, *r: a.fn(ix[conc(i)], *r) if isinstance(conc(i), int)
                           else pick(eng, st, [a.fn(q, *r) for q in ix], i), a.dtype)
        k = fresh("all")
        if eng.entails(st.pc + [k >= 0, k < rv(a.n)], bz(m.fn(k)), timeout=300): return Arr(a.shape, a.fn, a.dtype)
        return Arr(a.shape, a.fn, a.dtype, lambda i: bz(m.fn(i)))
    if not same_mask(eng, st, a, m): raise Unsupported("mask over a different domain")
    pm = a.mask
    return Arr(a.shape, a.fn, a.dtype, lambda i: bz(And(pm(i), m.fn(i))))


def store_cast(a, v):
    if a.dtype == "int":
        if isinstance(v, float): return int(v)
        if is_z3(v) and v.sort() == REAL: return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isinstance(v, bool): return int(v)
        if is_sbool(v): return rv(v)
        if isinstance(v, Fl): raise Unsupported("NaN stored in an int array")
    if a.dtype == "float": return tofloat(v)
    if a.dtype == "bool":
        if is_num(v): return bv(v)
    return v


def setitem(eng, o, k, v, st):
    if isinstance(o, PyVal): return o.setitem(eng, st, k, v)
    from . import models
    h = models.special_setitem(eng, o, k, v, st)
    if h is not NotImplemented: return
    if not isinstance(o, Ref): raise Unsupported("store into %r" % (o,))
    r = st.get(o)
    from .loops import HDictAcc
    if isinstance(r, HDictAcc):
        from . import loops
        return loops.dict_symbolic_store(eng, o, k, v, st)
    if isinstance(r, HDict):
        if r.fams:
            from . import loops
            if st.ghost.get("binders", ()): return loops.dict_symbolic_store(eng, o, k, v, st)
            if isinstance(v, Ref): raise Unsupported("store into symbolic dict")
            st.put(o, HDict(r.items, tuple(r.fams) + (loops.DFam((), z3.BoolVal(True), k if isinstance(k, tuple) else (k,), v),)))
            return
        d = dict(r.items)
        try:
            key = eng.hashkey(k)
        except Unsupported:
            from . import loops
            return loops.dict_symbolic_store(eng, o, k, v, st)
        d[key] = v
        st.put(o, HDict(d))
        return
    if isinstance(r, HList):
        j = conc(norm_index(eng, st, k, len(r.items)))
        items = list(r.items)
        if isinstance(j, int): items[j] = v
        else:
            items = [eng.merge_vals([v, x], [j == q, z3.BoolVal(True)], [st, st]) for q, x in enumerate(items)]
        st.put(o, HList(items))
        return
    if isinstance(r, HArr):
        if r.view is not None: raise Unsupported("store into a view")
        st.put(o, HArr(arr_set(eng, st, r.arr, k, v)))
        return
    if isinstance(r, HInst) and isinstance(r.cls, ClassVal):
        m = eng.class_attr(r.cls, "__setitem__")
        if m: return eng.call(BoundMethod(o, m), [k, v], {}, st)
    if isinstance(r, HInst) and (r.cls, "__setitem__") in eng.methods:
        return eng.methods[(r.cls, "__setitem__")](eng, st, [o, k, v], {})
    raise Unsupported("store into %r" % (r,))


def mite(eng, st, c, x, y):
    c = conc(z3.simplify(c)) if is_z3(c) else c
    if c is True: return x
    if c is False: return y
    if is_z3(x) and x.sort() == U or is_z3(y) and y.sort() == U: x, y = u_of(x), u_of(y)
    elif isinstance(x, PyVal) or isinstance(y, PyVal): return eng.merge_vals([x, y], [c, z3.BoolVal(True)], [st, st])
    elif dt_of(x) == "obj" or dt_of(y) == "obj":
        try:
            return eng.merge_vals([x, y], [c, z3.BoolVal(True)], [st, st])
        except Exception:
            x, y = u_of(x), u_of(y)
    return eng.merge_vals([x, y], [c, z3.BoolVal(True)], [st, st])


def arr_set(eng, st, a, k, v):
    va = eng.as_arr(v, st)
    if va is None and isinstance(v, (tuple,)) or (isinstance(v, Ref) and isinstance(st.get(v), HList)):
        va = to_nd(eng, st, v)
    if va is not None and len(va.shape) == 0: v = va.fn(); va = None
    if isinstance(k, tuple):
        if a.mask is not None: raise Unsupported("store into filtered array")
        conds = []
        sl = []
        for ax, x in enumerate(k):
            if isinstance(x, SliceVal):
                sl.append((ax, slice_bounds(eng, st, x, a.shape[ax])))
                conds.append(None)
            else:
                xa = eng.as_arr(x, st)
                if xa is not None and xa.shape:
                    if ax == 0 and xa.dtype == "bool" and len(xa.shape) == 1:
                        conds.append(("mask", xa)); continue
                    raise Unsupported("fancy store")
                conds.append(norm_index(eng, st, x if xa is None else xa.fn(), a.shape[ax]))
        for ax in range(len(k), len(a.shape)):
            sl.append((ax, (0, a.shape[ax], 1))); conds.append(None)
        mv = None
        if any(isinstance(c, tuple) for c in conds) and va is not None:
            m0 = conds[0][1]
            dom = Arr((a.shape[0],), None, None, lambda i: bz(m0.fn(i)))
            if sl or len(va.shape) != 1 or va.mask is None or not _eqdim(eng, st, va.n, a.shape[0]) or not same_mask(eng, st, dom, va):
                raise Unsupported("masked 2-d array store")
            mv = va; va = None
        def fn(*idx):
            c = True
            for ax, x in enumerate(conds):
                if x is None: continue
                if isinstance(x, tuple): c = And(c, bz(x[1].fn(idx[ax])))
                else: c = And(c, _ieq(idx[ax], x))
            vi = []
            for ax, (lo, ln, step) in sl:
                if step != 1: raise Unsupported("store step")
                if not (isinstance(lo, int) and lo == 0 and same_len(ln, a.shape[ax])):
                    c = And(c, rv(idx[ax]) >= rv(lo), rv(idx[ax]) < rv(lo) + rv(ln))
                vi.append(idx[ax] if isinstance(lo, int) and lo == 0 else conc(z3.simplify(rv(idx[ax]) - rv(lo))))
            if c is False: return a.fn(*idx)
            x = va.fn(*vi[len(vi) - len(va.shape):]) if va is not None else mv.fn(idx[0]) if mv is not None else v
            return mite(eng, st, c, store_cast(a, x), a.fn(*idx)) if c is not True else store_cast(a, x)
        return a.like(fn)
    if isinstance(k, SliceVal):
        if a.mask is not None: raise Unsupported("slice store in filtered array")
        lo, ln, step = slice_bounds(eng, st, k, a.n)
        if step != 1: raise Unsupported("store step")
        if va is not None and not (isinstance(conc(va.n), int) and conc(va.n) == 1) and not _eqdim(eng, st, va.n, ln):
            if a.islist: raise Unsupported("list slice store")
            raise Unsupported("slice store of unequal length")
        def fn(i, *r):
            c = And(rv(i) >= rv(lo), rv(i) < rv(lo) + rv(ln))
            c = conc(z3.simplify(c)) if is_z3(c) else c
            if c is False: return a.fn(i, *r)
            j = conc(z3.simplify(rv(i) - rv(lo)))
            x = va.fn(j, *r) if va is not None else v
            return mite(eng, st, c, store_cast(a, x), a.fn(i, *r))
        return a.like(fn)
    ka = eng.as_arr(k, st)
    if ka is not None and len(ka.shape) == 0: k = ka.fn(); ka = None
    if ka is not None and ka.dtype == "bool" and len(ka.shape) == 2:
        if len(a.shape) != 2 or a.mask is not None or ka.mask is not None or not all(_eqdim(eng, st, x, y) for x, y in zip(a.shape, ka.shape)):
            raise Unsupported("2-d mask store")
        if va is None: return a.like(lambda i, j: mite(eng, st, bz(ka.fn(i, j)), store_cast(a, v), a.fn(i, j)))
        if not same_mask(eng, st, Arr(a.shape, None, None, Mask2(lambda i, j: bz(ka.fn(i, j)))), va): raise Unsupported("2-d mask store over other domain")
        return a.like(lambda i, j: mite(eng, st, bz(ka.fn(i, j)), store_cast(a, va.fn(i, j)), a.fn(i, j)))
    if ka is not None and ka.dtype == "bool":
        if not _eqdim(eng, st, a.n, ka.n): raise Unsupported("mask store of other length")
        if not same_mask(eng, st, a, Arr(a.shape, None, None, ka.mask)): raise Unsupported("mask store over other domain")
        m = ka.fn
        if va is None:
            return a.like(lambda i, *r: mite(eng, st, bz(m(i)), store_cast(a, v), a.fn(i, *r)))
        # value array must be indexed by the same filtered domain
        if va.mask is None and not (isinstance(conc(va.n), int) and conc(va.n) == 1):
            raise Unsupported("mask store of unfiltered array")
        if va.mask is not None:
            dom = Arr(a.shape, None, None, (lambda i: bz(And(a.mask(i), m(i)))) if a.mask else (lambda i: bz(m(i))))
            if not _eqdim(eng, st, va.n, a.n) or not same_mask(eng, st, dom, va):
                raise Unsupported("mask store over other domain")
            return a.like(lambda i, *r: mite(eng, st, bz(m(i)), store_cast(a, va.fn(i, *r)), a.fn(i, *r)))
        return a.like(lambda i, *r: mite(eng, st, bz(m(i)), store_cast(a, va.fn(0)), a.fn(i, *r)))
    if ka is not None and ka.dtype == "int" and len(ka.shape) == 1:
        if va is not None: raise Unsupported("fancy store of array")
        q = fresh("q")
        ident = is_z3(ka.fn(q)) and ka.fn(q).eq(q)
        def hit(i):
            if ident: return z3.And(rv(i) >= 0, rv(i) < rv(ka.n), bz(ka.mask(rv(i)) if ka.mask else True))
            j = fresh("hit")
            return z3.Exists([j], bz(And(j >= 0, j < rv(ka.n), ka.mask(j) if ka.mask else True, rv(wrap(ka.fn(j), a.n)) == rv(i))))
        return a.like(lambda i, *r: mite(eng, st, hit(i), store_cast(a, v), a.fn(i, *r)))
    if a.mask is not None: raise Unsupported("store into filtered array")
    j = norm_index(eng, st, k, a.n)
    if va is not None and a.dtype == "obj" and len(a.shape) == 1: va = None  # the element is the array or list itself
    return a.like(lambda i, *r: mite(eng, st, _ieq(i, j), store_cast(a, va.fn(*r) if va is not None else v), a.fn(i, *r)))


def _ieq(i, j):
    i, j = conc(i), conc(j)
    if isinstance(i, int) and isinstance(j, int): return i == j
    return rv(i) == rv(j)
