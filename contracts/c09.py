"""C09  Out-of-domain parameters are always rejected, valid ones never.

Contract of every fitting entry point (requires: finite numbers, containers given as list/dict/tuple/ndarray):
    constructor arguments arbitrary Python values (sort PV), data arguments untouchable
    ensures  a path reaches the data            =>  every parameter is in its documented domain
    ensures  a path raises before the data      =>  some parameter is outside its domain, exception in the allowed set
Both directions are discharged for every path of the real constructor + fit code.
"""
import z3
from lib import domains
from pyvc.core import Engine
from pyvc.values import *

SEARCH_BUDGET = 60
ASSUMPTIONS = ["parameter values: finite numbers, strings, None, bool, list/tuple/dict/numpy.ndarray containers or other "
               "objects; NaN/inf numbers and arrays given for scalar parameters are outside the precondition",
               "methods of a fitted object given as parameter (scorecard._check_is_fitted) count as the start of data processing",
               "optional packages (pympler, tdigest) importable, as in this environment",
               "sklearn.base.BaseEstimator.get_params returns every constructor parameter's attribute"]
RULE = ("one parameter dict per case: a documented-domain base with one to three parameters replaced by candidate values "
        "(in or out of domain, chosen by VERIF_SEED); distinct = distinct dicts")


def entry(ctx, S):
    eng = Engine()
    eng.opts["divcheck"] = "raise"
    eng.opts["pvcall"] = "data"         # a method of a user supplied object: parameters have been accepted
    eng.ext["tdigest.TDigest"] = lambda eng, st, a, k: Opaque("TDigest")
    modn, cn = S.cls.split(":")
    cls = eng.module(modn).lookup(cn)
    names = list(eng.init_params(cls))
    unspec = [n for n in names if n not in S.doms]
    vals = {n: z3.Const(n, PV) for n in names}
    st = eng.start()
    kw = dict(vals)
    for n in unspec: del kw[n]          # new optional parameters keep their defaults
    outs = []
    for s1, o1 in eng.call_multi(cls, [], kw, st):
        if o1.kind == "raise" or S.entry is None: outs.append((s1, o1)); continue
        meth, k = S.entry
        s1.frames[-1].vars["obj"] = o1.val
        outs += eng.call_multi(eng.getattr(o1.val, meth, s1), [Data("data%d" % i) for i in range(k)], {}, s1)
    clauses = [("%s in domain" % n, d.f(vals[n])) for n, d in S.doms.items() if n in vals]
    rels = [(r.name, r.f(vals)) for r in S.rels]
    dom = z3.And(*[c for _, c in clauses + rels])
    # len() of containers is never negative
    pre = []
    for n in vals: pre.append(plen(PV.pid(vals[n])) >= 0)
    for n, d in S.doms.items():         # an instance of a class of /repo has the methods its class defines
        if isinstance(d, domains.Inst) and d.cls == "Scorecard":
            pre.append(z3.Implies(PV.pkind(vals[n]) == kind_id(d.cls), phas(PV.pid(vals[n]), str_id("_check_is_fitted"))))
    ctx.function(S.cls + ".__init__", S.cls + "." + (S.entry[0] if S.entry else "__init__"))
    acc = [(s, o) for s, o in outs if (o.kind == "raise" and o.val.etype == "__DATA__") or
           (o.kind == "return" and S.entry is None)]
    rej = [(s, o) for s, o in outs if o.kind == "raise" and o.val.etype != "__DATA__"]
    for s, o in outs:
        if (s, o) not in acc and (s, o) not in rej:
            ctx.fact("%s: no path returns without touching the data" % S.eid, False)
    if not acc: ctx.fact("%s: some parameters are accepted" % S.eid, False)
    for i, (s, o) in enumerate(acc):
        if i < 3: ctx.reachable("%s accept path %d" % (S.eid, i), pre + s.pc)
        for n, c in clauses: ctx.prove("%s: accepted => %s" % (S.eid, n), pre + s.pc, c, timeout=8000, use_facts=False)
        for n, c in rels: ctx.prove("%s: accepted => %s" % (S.eid, n), pre + s.pc, c, timeout=8000, use_facts=False)
    for i, (s, o) in enumerate(rej):
        if o.val.etype not in S.errors:
            # this exception type must be unreachable
            ctx.prove("%s: no %s escapes the parameter check (%s)" % (S.eid, o.val.etype, (o.val.msg or "")[:50]),
                      pre + s.pc, z3.BoolVal(False), timeout=8000, use_facts=False)
            continue
        ctx.prove("%s: %s(%s) raised => out of domain" % (S.eid, o.val.etype, (o.val.msg or "")[:60]), pre + s.pc,
                  z3.Not(dom), timeout=8000, use_facts=False)
    ctx.used(eng)


GROUPS = [(S.eid, (lambda S: lambda ctx: entry(ctx, S))(S), 120) for S in domains.specs()]
