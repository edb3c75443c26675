"""Runs the obligations of one property and the bounded contract search on the real code, and gives the verdict.

    python3-vt check.py C09          exit 0: held on everything explored; exit 1 + VIOLATION line otherwise
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
REAL_PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "7"))


class Ctx:
    """what a group of obligations reports to"""
    def __init__(self, group, deadline):
        self.group, self.deadline = group, deadline
        self.obls, self.functions, self.assumptions = [], [], []
        self.notes = []

    # ---- recording -------------------------------------------------------------------------------------------
    def record(self, name, status, solver="", secs=0.0, note="", model=None):
        self.obls.append({"name": name, "status": status, "solver": solver, "secs": round(secs, 3), "note": note,
                          "model": model})

    def prove(self, name, hyps, goal, timeout=None, **kw):
        from pyvc import prove
        left = self.deadline - time.time()
        if left < 1:
            self.record(name, "unknown", "", 0, "group time budget used up")
            return False
        to = int(min(timeout or 20000, left * 1000))
        r = prove.check(list(hyps), goal, timeout=to, **kw)
        m = None
        if r.model is not None:
            try: m = str(r.model)[:3000]
            except Exception: m = "?"
        self.record(name, r.status, r.solver, r.secs, r.note, m)
        self.last_model = r.model
        return r.status == "proved"

    def fact(self, name, ok, note=""):
        """obligation settled by the engine itself (a concrete comparison on the extracted code)"""
        self.record(name, "proved" if ok else "refuted", "pyvc", 0.0, note)
        return ok

    def form(self, name, ok, note=""):
        """like fact, for the shape the code is recognised by: code of another shape is not decided"""
        self.record(name, "proved" if ok else "unknown", "pyvc" if ok else "", 0.0, note or ("" if ok else "the code has a shape the contract does not recognise"))
        return ok

    def undecided(self, name, note): self.record(name, "unknown", "", 0, note)

    def reachable(self, name, hyps, timeout=5000):
        """vacuity guard: the hypotheses must be satisfiable"""
        import z3
        from pyvc import prove, sums
        from pyvc.values import bz
        hyps = [bz(h) for h in hyps if h is not True]
        t = time.time()
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*[h for h in hyps if not prove._hasq(h)])
        r = s.check()
        # only a proof of unreachability is an alarm (vacuous obligation)
        self.record("reachable: " + name, "vacuous" if r == z3.unsat else "proved", "z3", time.time() - t,
                    "" if r != z3.unsat else "hypotheses contradictory")

    def function(self, *names):
        for n in names:
            if n not in self.functions: self.functions.append(n)

    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions: self.assumptions.append(t)

    def used(self, eng):
        """names of functions executed symbolically / contracts and models relied upon"""
        self.function(*sorted(eng.stats["inlined"]))
        self.assumptions.extend(x for x in sorted("model of %s" % e for e in eng.stats["ext_used"]) if x not in self.assumptions)


def _group(prop, gname, budget, conn):
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(gname, t0 + budget)
    try:
        mod = importlib.import_module("contracts." + prop.lower())
        fn = dict((g[0], g[1]) for g in mod.GROUPS)[gname]
        try:
            fn(ctx)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt): raise
            tb = traceback.format_exc(limit=-4)
            ctx.undecided("%s: generation of obligations" % gname, "%s: %s | %s" % (type(e).__name__, e, tb[-800:]))
    except BaseException as e:
        ctx.undecided("%s: load" % gname, "%s: %s" % (type(e).__name__, e))
    try:
        conn.send({"group": gname, "obls": ctx.obls, "functions": ctx.functions, "assumptions": ctx.assumptions,
                   "notes": ctx.notes, "secs": time.time() - t0})
    except BaseException:
        pass
    conn.close()
    os._exit(0)


def run_groups(prop, mod, hard):
    todo = [(g[0], (g[2] if len(g) > 2 else 100)) for g in mod.GROUPS]
    only = os.environ.get("VERIF_GROUP")
    if only: todo = [t for t in todo if only in t[0]]
    running, res = [], {}
    t0 = time.time()
    mp_ctx = mp.get_context("fork")
    scale = 3 if TIER == "thorough" else 1
    while todo or running:
        while todo and len(running) < WORKERS:
            g, b = todo.pop(0)
            b *= scale
            a, c = mp_ctx.Pipe(False)
            p = mp_ctx.Process(target=_group, args=(prop, g, b, c))
            p.start(); c.close()
            running.append((g, p, a, time.time(), b))
        time.sleep(0.05)
        nxt = []
        for g, p, a, ts, b in running:
            got = None
            if a.poll():
                try: got = a.recv()
                except EOFError: got = None
                res[g] = got
                p.join(2)
                if p.is_alive(): p.kill()
                if got is None:
                    res[g] = {"group": g, "obls": [{"name": g, "status": "unknown", "solver": "", "secs": 0,
                                                     "note": "prover process died", "model": None}],
                              "functions": [], "assumptions": [], "notes": [], "secs": time.time() - ts}
                continue
            if not p.is_alive() or time.time() - ts > b + 20 or time.time() - t0 > hard:
                if p.is_alive(): p.kill()
                if a.poll():
                    nxt.append((g, p, a, ts, b)); continue
                res[g] = {"group": g, "obls": [{"name": g, "status": "unknown", "solver": "", "secs": 0,
                                                 "note": "time or memory limit", "model": None}],
                          "functions": [], "assumptions": [], "notes": [], "secs": time.time() - ts}
                continue
            nxt.append((g, p, a, ts, b))
        running = nxt
    return [res[g[0]] for g in mod.GROUPS if g[0] in res]


def real_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore", PYTHONHASHSEED="0", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    if os.path.isdir("/opt/venv/mplconfig"): e["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
    return e


def start_search(prop, budget):
    if not os.path.exists(os.path.join(VERIF, "replay", prop.lower() + ".py")): return None
    out = os.path.join(VERIF, "evidence", "." + prop + ".search.json")
    if os.path.exists(out): os.unlink(out)
    log = open(os.path.join(VERIF, "evidence", "." + prop + ".search.log"), "w")
    p = subprocess.Popen([REAL_PY, os.path.join(VERIF, "replay", "run.py"), prop, "--seed", str(SEED), "--budget",
                          str(budget), "--tier", TIER, "--out", out], env=real_env(), stdout=log, stderr=log, cwd=VERIF,
                         start_new_session=True)
    return p, out, time.time()


def finish_search(h, budget):
    if h is None: return None
    p, out, t0 = h
    try:
        p.wait(timeout=max(5, budget * 2 + 60 - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    try:
        with open(out) as f: return json.load(f)
    except Exception:
        tail = ""
        try: tail = open(out.replace(".json", ".log")).read()[-1500:]
        except Exception: pass
        return {"evaluations": 0, "distinct": 0, "failures": [], "samples": [], "error": "search did not finish: " + tail}


def known(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f: k = json.load(f)
    except Exception:
        return [], []
    return ([x for x in k.get("findings", []) if x["property"] == prop],
            [x for x in k.get("fixed", []) if prop in x])


def write_replay(prop, key, data):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:80]
    path = os.path.join(d, "%s_%s.json" % (prop, safe))
    with open(path, "w") as f: json.dump(data, f, indent=1, default=str)
    return path


def main(prop):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("contracts." + prop.lower())
    budget = getattr(mod, "SEARCH_BUDGET", 60) * (4 if TIER == "thorough" else 1)
    budget = min(budget, 300)
    h = start_search(prop, budget)
    hard = 600 if TIER == "quick" else 780
    groups = run_groups(prop, mod, hard)
    search = finish_search(h, budget) or {"evaluations": 0, "distinct": 0, "failures": [], "samples": []}
    obls = [dict(o, group=g["group"]) for g in groups for o in g["obls"]]
    real = [o for o in obls if not o["name"].startswith("reachable: ")]
    proved = [o for o in real if o["status"] == "proved"]
    refuted = [o for o in real if o["status"] == "refuted"]
    unknown = [o for o in real if o["status"] == "unknown"]
    vacuous = [o for o in obls if o["status"] == "vacuous"]
    finds, fixed = known(prop)
    fkeys = {x["key"] for x in finds}
    okeys = {}
    for x in finds:
        for n in x.get("obligations", []): okeys[n] = x
    lines, viol = [], 0
    newfail = [f for f in search["failures"] if f["key"] not in fkeys]
    seenk = sorted({f["key"] for f in search["failures"] if f["key"] in fkeys})
    newref = [o for o in refuted if o["name"] not in okeys]
    for x in finds:
        hit = x["key"] in seenk or any(o["name"] in x.get("obligations", []) for o in refuted)
        print("KNOWN-FINDING: property=%s %s%s" % (prop, x["what"], "" if hit else " (not met in this run)"))
    if newfail:
        f = newfail[0]
        path = write_replay(prop, f["key"], {"property": prop, "failure": f, "all_failures": newfail[:20],
                                             "failed_obligations": newref[:20],
                                             "replay": "%s /verif/replay/run.py %s --case <this file>" % (REAL_PY, prop)})
        print("violated: %s: %s" % (f["key"], f["what"]))
        for o in newref[:5]: print("failed obligation: %s [%s]" % (o["name"], o["group"]))
        print("VIOLATION property=%s replay=%s" % (prop, path)); viol = 1
    elif newref:
        o = newref[0]
        path = write_replay(prop, "obligation_" + o["name"], {"property": prop, "failed_obligations": newref[:20],
                            "verifier": o["solver"], "note": "the verifier refuted the obligation; its counterexample is "
                            "given; the bounded search on the real code found no failing input"})
        for o in newref[:5]: print("failed obligation: %s [%s] %s" % (o["name"], o["group"], o["note"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)); viol = 1
    for o in (unknown + vacuous)[:40]:
        print("UNDECIDED: %s: %s (%s)" % (o["group"], o["name"], (o["note"] or o["status"])[:600]))
    if not real and not getattr(mod, "BOUNDED_ONLY", False): print("UNDECIDED: no obligations were generated")
    by = {}
    for o in proved: by[o["solver"]] = by.get(o["solver"], 0) + 1
    funcs = sorted({f for g in groups for f in g["functions"]})
    assum = list(getattr(mod, "ASSUMPTIONS", []))
    for g in groups:
        for a in g["assumptions"]:
            if a not in assum: assum.append(a)
    level = getattr(mod, "LEVEL", "proof")
    cov = {"obligations": len(real) + len(vacuous), "discharged": len(proved),
           "checker_cmd": "cd /verif && python3-vt check.py %s" % prop,
           "trusted_base": list(getattr(mod, "TRUSTED", ["pyvc verification condition generator (/verif/pyvc)",
                                                         "z3 %s" % _z3v(), "cvc5 (fallback)"])),
           "by_backend": by, "solver_seconds": round(sum(o["secs"] for o in obls), 2),
           "functions_under_contract": funcs,
           "undischarged": [{"group": o["group"], "name": o["name"], "why": o["note"][:300]} for o in unknown + vacuous][:60],
           "refuted": [{"group": o["group"], "name": o["name"]} for o in refuted][:60],
           "groups": {g["group"]: {"obligations": len([o for o in g["obls"]]),
                                   "proved": len([o for o in g["obls"] if o["status"] == "proved"]),
                                   "secs": round(g["secs"], 1)} for g in groups},
           "vacuity_checks": len([o for o in obls if o["name"].startswith("reachable: ")]),
           "bounded": {"what": getattr(mod, "BOUNDED", "bounded search on the real code with the contract as oracle; "
                                       "a stand-in and cross-check, never counted as proved"),
                       "evaluations": search["evaluations"], "distinct_nontrivial": search["distinct"],
                       "error": search.get("error", "")},
           "evaluations": search["evaluations"], "distinct_nontrivial": search["distinct"],
           "rule": search.get("rule", getattr(mod, "RULE", "")), "samples": search["samples"][:5]}
    if level == "other": cov["explanation"] = getattr(mod, "EXPLANATION", "")
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assum,
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    if os.environ.get("VERIF_DUMP"):
        with open(os.environ["VERIF_DUMP"], "w") as f: json.dump(obls, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d refuted; bounded search %d cases (%d distinct)%s; %.1f s" % (
        prop, len(real), len(proved), len(unknown) + len(vacuous), len(refuted), search["evaluations"], search["distinct"],
        "; search error: " + search["error"] if search.get("error") else "", time.time() - t0))
    return viol


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def cli():
    prop = sys.argv[1]
    try:
        rc = main(prop)
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    for c in mp.active_children(): c.kill()
    os._exit(rc)
