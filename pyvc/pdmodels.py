"""Contracts assumed on the few pandas operations the verified functions use: a frame is a record of its columns."""
import z3
from .values import *
from . import ops, models, npmodels


def mk_frame(eng, st, cols, rows=()):
    return st.alloc(HInst("DataFrame", {"cols": dict(cols), "rows": tuple(rows), "index": None}))


def m_frame(eng, st, args, kw):
    d = args[0] if args else kw.get("data")
    cols = {}
    names = kw.get("columns")
    if d is not None:
        r = st.get(d) if isinstance(d, Ref) else None
        if isinstance(r, HDict) and not r.fams: cols = dict(r.items)
        else:
            its = eng.as_items(d, st)
            if its is not None and names is None: raise Unsupported("DataFrame from rows")
            a = npmodels.nd(eng, st, d)
            nm = eng.as_items(names, st) if names is not None else None
            if a is None or len(a.shape) != 2 or nm is None: raise Unsupported("DataFrame")
            for j, c in enumerate(nm): cols[c] = npmodels.alloc(st, Arr((a.shape[0],), lambda i, j=j: a.fn(i, j), a.dtype))
    elif names is not None: raise Unsupported("empty DataFrame with columns")
    # columns are snapshots: later writes to the arrays do not change the frame
    out = {}
    for k, v in cols.items():
        a = eng.as_arr(v, st)
        out[k] = st.alloc(HArr(Arr(a.shape, a.fn, a.dtype, a.mask))) if a is not None and not a.islist else v
    return mk_frame(eng, st, out)


def f_getitem(eng, st, args, kw):
    o, k = args
    r = st.get(o)
    if isinstance(k, str):
        if k not in r.attrs["cols"]: raise PyRaise("KeyError", k)
        return r.attrs["cols"][k]
    raise Unsupported("frame[%r]" % (k,))


def f_setitem(eng, st, args, kw):
    o, k, v = args
    r = st.get(o)
    if not isinstance(k, str): raise Unsupported("frame[...] = ")
    at = dict(r.attrs); at["cols"] = dict(at["cols"]); at["cols"][k] = v
    st.put(o, HInst(r.cls, at))


def f_attr(eng, o, name, st):
    r = st.get(o)
    if name in ("loc", "iloc", "at"): return st.alloc(HInst("FrameLoc", {"frame": o, "kind": name}))
    if name == "columns": return st.alloc(HList(list(r.attrs["cols"])))
    if name in r.attrs["cols"]: return r.attrs["cols"][name]
    if name in ("rename", "reset_index"): return lambda eng, st, a, k: None if k.get("inplace") else o
    if name == "values": raise Unsupported("frame.values")
    raise Unsupported("DataFrame.%s" % name)


def l_setitem(eng, st, args, kw):
    o, k, v = args
    fr = st.get(o).attrs["frame"]
    r = st.get(fr)
    it = eng.as_items(v, st)
    if not isinstance(k, str) or it is None: raise Unsupported("frame.loc[...] = ")
    if len(it) != len(r.attrs["cols"]): raise PyRaise("ValueError", "cannot set a row with mismatched columns")
    at = dict(r.attrs); at["rows"] = at["rows"] + ((k, tuple(it)),)
    st.put(fr, HInst(r.cls, at))


def m_series(eng, st, args, kw):
    a = npmodels.nd(eng, st, args[0])
    if a is None or len(a.shape) != 1: raise Unsupported("Series")
    return args[0] if isinstance(args[0], Ref) and not a.islist else npmodels.alloc(st, Arr(a.shape, a.fn, a.dtype, a.mask))


def m_issubdtype(eng, st, args, kw):
    d, k = args
    d = d.name.split(".")[-1] if isinstance(d, Ext) else None
    k = k.name.split(".")[-1] if isinstance(k, Ext) else None
    if d not in ("int", "float", "bool", "obj") or k is None: raise Unsupported("issubdtype")
    tab = {"number": ("int", "float"), "integer": ("int",), "floating": ("float",), "bool_": ("bool",), "object_": ("obj",)}
    if k not in tab: raise Unsupported("issubdtype %s" % k)
    return d in tab[k]


def p_values(eng, st, o): return o


def install(eng):
    eng.ext["pandas.Series"] = m_series
    eng.ext["pandas.isnull"] = eng.ext["pandas.isna"] = npmodels.m_isnan
    eng.ext["numpy.issubdtype"] = m_issubdtype
    eng.methods[("ndarray", "isin")] = npmodels.m_isin
    for n in ("isnull", "isna"): eng.methods[("ndarray", n)] = npmodels.m_isnan
    eng.methods[("ndarray", "to_numpy")] = lambda eng, st, args, kw: args[0]
    models.PROPS[("ndarray", "values")] = p_values
    eng.ext["pandas.DataFrame"] = m_frame
    eng.methods[("DataFrame", "__getitem__")] = f_getitem
    eng.methods[("DataFrame", "__setitem__")] = f_setitem
    eng.methods[("DataFrame", "*")] = f_attr
    eng.methods[("FrameLoc", "__setitem__")] = l_setitem


def frame(st, ref):
    r = st.get(ref)
    assert r.cls == "DataFrame", r.cls
    return r.attrs["cols"], dict(r.attrs["rows"])
