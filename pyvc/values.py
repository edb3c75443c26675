"""Value domain of the verifier.

Concrete Python values stand for themselves.  Symbolic scalars are z3 expressions (Int, Real, Bool, the uninterpreted
sort U of opaque data values, or the datatype PV of dynamically typed parameters).  Mutable objects live in the state's
heap and are denoted by Ref.
"""
import itertools
from fractions import Fraction
import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
U = z3.DeclareSort("U")            # opaque data values (categories, object cells)

_pv = z3.Datatype("PV")
_pv.declare("PNone")
_pv.declare("PBool", ("pb", BOOL))
_pv.declare("PInt", ("pi", INT))
_pv.declare("PReal", ("pr", REAL))
_pv.declare("PStr", ("ps", INT))
_pv.declare("PObj", ("pkind", INT), ("pid", INT))
PV = _pv.create()

plen = z3.Function("plen", INT, INT)              # length of a PObj container by id
pelem = z3.Function("pelem", INT, INT, PV)        # element i (key i of a dict)
pval = z3.Function("pval", INT, INT, PV)          # value i of a dict
pnan = z3.Function("pnan", INT, BOOL)
pattr = z3.Function("pattr", INT, INT, PV)        # attribute (object id, interned name)
phas = z3.Function("phas", INT, INT, BOOL)        # hasattr

KINDS = {}
def kind_id(name):
    return KINDS.setdefault(name, len(KINDS))
for _k in ("list", "tuple", "dict", "numpy.ndarray", "pandas.DataFrame", "pandas.Series", "set", "object"):
    kind_id(_k)

STRS = {}
def str_id(s):
    return STRS.setdefault(s, len(STRS) + 1)


class Unsupported(Exception):
    """A construct outside the verifier's reach: the obligation is undecided."""


class PyRaise(Exception):
    def __init__(self, etype, msg=None, value=None):
        Exception.__init__(self, etype, msg)
        self.etype, self.msg, self.value = etype, msg, value


class Infeasible(Exception):
    pass


QDIV, QMOD = z3.Function("qdiv", INT, INT, INT), z3.Function("qmod", INT, INT, INT)      # row and column of a position in a table flattened row by row (position, row length)
def grid_axiom(rows, width):
    q, n, w = fresh("q"), rv(rows), rv(width)
    d, m = QDIV(q, w), QMOD(q, w)
    b = z3.Implies(z3.And(q >= 0, q < n * w), z3.And(d >= 0, d < n, m >= 0, m < w, q == d * w + m))
    return z3.ForAll([q], b, patterns=[d, m])


_fresh = itertools.count()
def fresh(prefix, sort=INT):
    return z3.Const("%s!%d" % (prefix, next(_fresh)), sort)
def fresh_fun(prefix, *sorts):
    return z3.Function("%s!%d" % (prefix, next(_fresh)), *sorts)


class Ref:
    __slots__ = ("id",)
    def __init__(self, i): self.id = i
    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id
    def __hash__(self): return hash(("Ref", self.id))
    def __repr__(self): return "Ref(%d)" % self.id


class PyVal:
    """a value with its own behaviour: immutable records and elements of lists under contract"""
    def getattr(self, eng, st, name): raise Unsupported("attribute %s of %r" % (name, self))
    def setattr(self, eng, st, name, v): raise Unsupported("store into %r" % (self,))
    def getitem(self, eng, st, k): raise Unsupported("item of %r" % (self,))
    def setitem(self, eng, st, k, v): raise Unsupported("store into %r" % (self,))
    def iter(self, eng, st): raise Unsupported("iteration over %r" % (self,))
    def length(self, eng, st): raise Unsupported("length of %r" % (self,))
    def same(self, o): return self is o
    def subst(self, sub, f): return self
    def merge(self, vals, merge): return None


class Rec(PyVal):
    """an object made in a comprehension: class and attributes; not mutable"""
    def __init__(self, cls, attrs): self.cls, self.attrs = cls, dict(attrs)
    def getattr(self, eng, st, name):
        if name in self.attrs: return self.attrs[name]
        raise Unsupported("attribute %s of a record" % name)
    def same(self, o): return self is o
    def subst(self, sub, f): return Rec(self.cls, {k: f(v, sub) for k, v in self.attrs.items()})
    def merge(self, vals, merge):
        if not all(isinstance(v, Rec) and v.cls is self.cls and set(v.attrs) == set(self.attrs) for v in vals): return None
        return Rec(self.cls, {k: merge([v.attrs[k] for v in vals]) for k in self.attrs})
    def __repr__(self): return "Rec(%r)" % (self.attrs,)


class Poison:
    """Value unknown to the verifier; reading it is unsupported."""
    def __init__(self, why=""): self.why = why
    def __repr__(self): return "Poison(%s)" % self.why


class OpaqueStr:
    """A string whose contents do not matter (messages)."""
    def __repr__(self): return "OpaqueStr"


class Opaque:
    """A value about which nothing is known; calls and attributes give Opaque, branching is unsupported unless havoc."""
    def __init__(self, name="opaque"): self.name = name
    def __repr__(self): return "Opaque(%s)" % self.name


class Data(Opaque):
    """User data that must not be touched yet: any use ends the path with the marker exception __DATA__."""
    def __repr__(self): return "Data(%s)" % self.name


def touch(*vs):
    for v in vs:
        if isinstance(v, Data): raise PyRaise("__DATA__", v.name)


class FuncVal:
    def __init__(self, node, module, qual, closure=None, cls=None, kind="func", defaults=None):
        self.node, self.module, self.qual, self.closure, self.cls, self.kind = node, module, qual, closure, cls, kind
        self.defaults = defaults
    def __repr__(self): return "<func %s>" % self.qual


class ClassVal:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.name = node.name
        self.cache = {}
    def __repr__(self): return "<class %s>" % self.qual


class BoundMethod:
    def __init__(self, self_, func): self.self_, self.func = self_, func
    def __repr__(self): return "<bound %r>" % (self.func,)


class SuperVal:
    def __init__(self, self_, cls): self.self_, self.cls = self_, cls


class Ext:
    """A dotted name outside /repo (numpy.sum, pandas.DataFrame, ...)."""
    def __init__(self, name): self.name = name
    def __repr__(self): return "Ext(%s)" % self.name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(("Ext", self.name))


class ModVal:
    def __init__(self, mod): self.mod = mod
    def __repr__(self): return "<module %s>" % self.mod.name


class ExcVal:
    def __init__(self, etype, args=()): self.etype, self.args = etype, args
    def __repr__(self): return "ExcVal(%s)" % self.etype


class Fl:
    """A float that may be NaN: real part r, nan condition."""
    __slots__ = ("r", "nan")
    def __init__(self, r, nan): self.r, self.nan = r, nan
    def __repr__(self): return "Fl(%s,nan=%s)" % (self.r, self.nan)


class Rng:
    """range object with possibly symbolic bounds."""
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
    def __repr__(self): return "Rng(%s,%s,%s)" % (self.lo, self.hi, self.step)


class SliceVal:
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step


class Arr:
    """n-d array or symbolic-length list: shape, element function, dtype; optional mask makes it the subsequence of
    the parent index range on which mask holds (indexed by parent position)."""
    __slots__ = ("shape", "fn", "dtype", "mask", "tag", "islist", "sorted_", "meta")
    def __init__(self, shape, fn, dtype, mask=None, islist=False, meta=None):
        self.shape, self.fn, self.dtype, self.mask, self.islist = tuple(shape), fn, dtype, mask, islist
        self.meta = meta or {}
    @property
    def n(self): return self.shape[0]
    def __repr__(self):
        return "Arr(shape=%s,dtype=%s%s)" % (self.shape, self.dtype, ",masked" if self.mask else "")
    def like(self, fn, dtype=None):
        return Arr(self.shape, fn, dtype or self.dtype, self.mask, self.islist)


# ---- heap records (immutable) --------------------------------------------------------------------------------
class HList:
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return "HList%r" % (self.items,)


class HDict:
    """concretely keyed dict (insertion ordered) ; fams: symbolic-key families [(nkeys, guard fn, value fn)]"""
    __slots__ = ("items", "fams")
    def __init__(self, items, fams=()): self.items, self.fams = dict(items), tuple(fams)
    def __repr__(self): return "HDict%r" % (self.items,)


class HSet:
    __slots__ = ("items",)
    def __init__(self, items): self.items = tuple(items)


class HInst:
    __slots__ = ("cls", "attrs")
    def __init__(self, cls, attrs): self.cls, self.attrs = cls, dict(attrs)
    def __repr__(self): return "HInst(%s)" % (self.cls,)


class HArr:
    __slots__ = ("arr", "view")
    def __init__(self, arr, view=None): self.arr, self.view = arr, view
    def __repr__(self): return "HArr(%r)" % (self.arr,)


def is_z3(v): return isinstance(v, z3.ExprRef)
def is_num(v): return (isinstance(v, (int, float, Fraction)) or (is_z3(v) and (z3.is_arith(v) or z3.is_bool(v))))
def is_sbool(v): return is_z3(v) and z3.is_bool(v)
def is_pv(v): return is_z3(v) and v.sort() == PV

def conc(v):
    """z3 literal -> python value when it is one."""
    if is_z3(v):
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_int_value(v): return v.as_long()
    return v

# opt-in (contracts that only compare infinities): +-inf as two real constants about which nothing is known
# unless the contract assumes that data lie strictly between them
INF_OK = [False]
PINF, NINF = z3.Real("+inf"), z3.Real("-inf")


def infconst(v): return isinstance(v, float) and abs(v) == float("inf") and not INF_OK[0]


def rv(v):
    """python number -> z3 arithmetic term (bool -> 0/1)."""
    if is_z3(v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, float):
        if v in (float("inf"), float("-inf")) and INF_OK[0]: return PINF if v > 0 else NINF
        if v != v or v in (float("inf"), float("-inf")): raise Unsupported("non-finite constant")
        return z3.RealVal(Fraction(repr(v)))
    if isinstance(v, Fl):
        if v.nan is False: return rv(v.r)
    raise Unsupported("not a number: %r" % (v,))

def rr(v):
    v = rv(v)
    return z3.ToReal(v) if v.sort() == INT else v

def bv(v):
    if is_z3(v):
        if z3.is_bool(v): return v
        if z3.is_arith(v): return v != 0
        raise Unsupported("bool of %s" % v.sort())
    if isinstance(v, (bool, int, float)): return z3.BoolVal(bool(v))
    raise Unsupported("bool of %r" % (v,))

def And(*xs):
    out = []
    for x in xs:
        if x is True or (is_z3(x) and z3.is_true(x)): continue
        if x is False or (is_z3(x) and z3.is_false(x)): return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def Or(*xs):
    out = []
    for x in xs:
        if x is False or (is_z3(x) and z3.is_false(x)): continue
        if x is True or (is_z3(x) and z3.is_true(x)): return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
