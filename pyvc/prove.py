"""Discharging verification conditions: sum facts, ground instantiation, z3, cvc5 as second opinion."""
import os
import subprocess
import tempfile
import time
import z3
from .values import *
from . import sums

_fv = {}
def fvs(e):
    """names of free constants and uninterpreted functions of a formula"""
    r = _fv.get(e.get_id())
    if r is not None: return r[0]
    out, seen, todo = set(), set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): todo.append(t.body()); continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
            todo.extend(t.children())
    _fv[e.get_id()] = (out, e)
    return out


def slice_pc(pc, goal_vars):
    """constraints transitively sharing symbols with the goal"""
    rel, rest, vars = [], list(pc), set(goal_vars)
    changed = True
    while changed:
        changed = False
        keep = []
        for c in rest:
            if fvs(c) & vars:
                rel.append(c); vars |= fvs(c); changed = True
            else: keep.append(c)
        rest = keep
    return rel


class Result:
    def __init__(self, status, solver, secs, model=None, note=""):
        self.status, self.solver, self.secs, self.model, self.note = status, solver, secs, model, note


def ground_instances(forms, rounds=2, limit=400):
    """instances of the universally quantified hypotheses at ground terms occurring in the formulas"""
    out = []
    qs = []
    base = []
    for f in forms:
        (qs if z3.is_quantifier(f) and f.is_forall() else base).append(f)
    done = set()
    cur = list(base)
    for _ in range(rounds):
        apps = {}
        seen, todo = set(), list(cur)
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_quantifier(t): continue
            if z3.is_app(t):
                if t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    apps.setdefault(t.decl().name(), []).append(t)
                todo.extend(t.children())
        new = []
        for q in qs:
            nv = q.num_vars()
            body = q.body()
            cands = {}
            seen, todo = set(), [body]
            while todo:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_quantifier(t): continue
                if z3.is_app(t):
                    if t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        for pos, c in enumerate(t.children()):
                            off = _var_off(c)
                            if off is not None:
                                v, o = off
                                for ap in apps.get(t.decl().name(), []):
                                    g = ap.arg(pos)
                                    cands.setdefault(v, {})[z3.simplify(g - o).get_id() if o is not None else g.get_id()] = \
                                        z3.simplify(g - o) if o is not None else g
                    todo.extend(t.children())
            if len(cands) < nv: continue
            combos = [[]]
            for v in range(nv):
                combos = [c + [t] for c in combos for t in cands[v].values()]
                if len(combos) > limit: break
            if len(combos) > limit: continue
            for c in combos:
                key = (q.get_id(),) + tuple(t.get_id() for t in c)
                if key in done: continue
                done.add(key)
                inst = z3.substitute_vars(body, *c)
                new.append(inst)
                KEEP.append((q, c, inst))
        if not new: break
        flat = []
        for x in new:
            flat.append(x)
        out.extend(flat)
        cur = flat
        if len(out) > 3000: break
    return base, qs, out
KEEP = []


def _var_off(c):
    if z3.is_var(c): return (z3.get_var_index(c), None)
    if z3.is_app(c) and c.sort() == INT and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and c.num_args() == 2:
        a, b = c.children()
        if z3.is_var(a) and z3.is_int_value(b):
            return (z3.get_var_index(a), b if c.decl().kind() == z3.Z3_OP_ADD else z3.IntVal(-b.as_long()))
        if z3.is_var(b) and z3.is_int_value(a) and c.decl().kind() == z3.Z3_OP_ADD:
            return (z3.get_var_index(b), a)
    return None


def check(hyps, goal, timeout=20000, use_facts=True, cvc=True, slicing=False, inst=True):
    """prove And(hyps) => goal.  status: proved | refuted | unknown"""
    t0 = time.time()
    goal = bz(goal)
    hyps = [bz(h) for h in hyps if h is not True]
    if slicing: hyps = slice_pc(hyps, fvs(goal))
    if _normal_eq(goal): return Result("proved", "normal form", time.time() - t0)
    ng = z3.Not(goal)
    forms = hyps + [ng]
    if use_facts:
        # congruence and linear arithmetic alone
        s = z3.Solver(); s.set("timeout", min(timeout, 700)); s.add(*[h for h in forms if not _hasq(h)])
        if s.check() == z3.unsat: return Result("proved", "z3", time.time() - t0)
        if sums.ps_apps(forms):
            s = z3.Solver(); s.set("timeout", min(timeout, 2500)); s.add(*[h for h in forms + sums.facts(forms) if not _hasq(h)])
            if s.check() == z3.unsat: return Result("proved", "z3", time.time() - t0)
    if use_facts and sums.ps_apps(forms + []):
        forms = forms + sums.facts(forms)
    if use_facts:
        names = set()
        for f in forms: names |= fvs(f)
        if names & {"ln", "exp", "sqrt"}:
            from . import npmodels
            forms = forms + npmodels.special_facts(skolemize(forms) if any(_hasq(f) for f in forms) else forms)
    quant = any(_hasq(f) for f in forms)
    def z3run(fs, to):
        s = z3.Solver()
        s.set("timeout", to)
        s.add(*fs)
        r = s.check()
        return r, s
    note = ""
    if inst and quant:
        base, qs, insts = ground_instances(skolemize(forms))
        if insts:
            fi = base + insts
            if use_facts: fi = fi + sums.facts(fi, ext=False)
            r, s = z3run([f for f in fi if not (z3.is_quantifier(f))], min(timeout, 10000))
            if r == z3.unsat: return Result("proved", "z3(ground)", time.time() - t0)
    r, s = z3run(forms, timeout)
    if r == z3.unsat: return Result("proved", "z3", time.time() - t0)
    if r == z3.sat: return Result("refuted", "z3", time.time() - t0, s.model())
    note = s.reason_unknown()
    if cvc:
        c = cvc5_run(s, min(timeout, 15000))
        if c == "unsat": return Result("proved", "cvc5", time.time() - t0)
    if quant and not sums.ps_apps(forms) and not {"ln", "exp", "sqrt"} & set().union(*[fvs(f) for f in forms]):
        # a counterexample with small sizes is one
        for top in (1, 2):
            r, s = z3run(forms + [c <= top for c in int_consts(forms)], min(timeout, 4000))
            if r == z3.sat: return Result("refuted", "z3(small)", time.time() - t0, s.model())
    return Result("unknown", "z3+cvc5", time.time() - t0, None, note)


def int_consts(forms):
    seen, out, todo = set(), {}, list(forms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == INT: out[t.get_id()] = t
        todo.extend(t.children() if not z3.is_quantifier(t) else [t.body()])
    return list(out.values())


def _normal_eq(goal):
    """goal is an equality of polynomials over the same atoms"""
    if not z3.is_eq(goal) or not z3.is_arith(goal.arg(0)): return False
    try:
        d = z3.simplify(goal.arg(0) - goal.arg(1), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0 or z3.is_int_value(d) and d.as_long() == 0
    except z3.Z3Exception:
        return False


def skolemize(forms):
    """expose top-level conjunctions and existential witnesses"""
    try:
        g = z3.Goal()
        g.add(*forms)
        t = z3.Tactic("snf")
        r = t(g)[0]
        return [x for x in r]
    except z3.Z3Exception:
        return forms


_hq = {}
def _hasq(e):
    k = e.get_id()
    if k in _hq: return _hq[k][0]
    seen, todo, r = set(), [e], False
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t): r = True; break
        todo.extend(t.children())
    _hq[k] = (r, e)
    return r


def cvc5_run(solver, ms):
    try:
        txt = solver.to_smt2()
        if len(txt) > 2000000: return "unknown"
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + txt.replace("(set-info :status unknown)", ""))
            name = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % ms, name], capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        finally:
            os.unlink(name)
        return out
    except Exception:
        return "unknown"
