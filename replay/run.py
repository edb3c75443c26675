"""Bounded search with the property's contract as oracle, on the real code of /repo; also replays one case.

    /opt/venv/bin/python replay/run.py C09 --seed 1 --budget 60 --out OUT.json
    /opt/venv/bin/python replay/run.py C09 --case FILE
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)


REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def crash(e):
    """an exception of the real code on a case of its domain is a failure; one of the harness itself is not"""
    fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith((REPO + os.sep, HERE + os.sep))]
    if not fr or not os.path.realpath(fr[-1].filename).startswith(REPO + os.sep): return None
    return [("%s raised in %s" % (type(e).__name__, fr[-1].name), "%s: %s (%s line %d)" % (type(e).__name__, e, fr[-1].filename, fr[-1].lineno))]


def judge(mod, case):
    try: return mod.check(case)
    except Exception as e:
        r = crash(e)
        if r is None: raise
        return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=60); ap.add_argument("--tier", default="quick")
    ap.add_argument("--out"); ap.add_argument("--case"); ap.add_argument("--max", type=int, default=10 ** 9)
    a = ap.parse_args()
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("replay." + a.prop.lower())
    if a.case:
        with open(a.case) as f: c = json.load(f)
        c = c["failure"]["case"] if "failure" in c else c
        r = judge(mod, c)
        print(json.dumps(r, default=str))
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed)
    t0 = time.time()
    n, seen, fails, samples, keys = 0, set(), [], [], {}
    last = t0
    def dump():
        res = {"evaluations": n, "distinct": len(seen), "failures": fails, "samples": samples, "rule": getattr(mod, "RULE", ""),
               "secs": time.time() - t0}
        if a.out:
            with open(a.out + ".tmp", "w") as f: json.dump(res, f, default=str)
            os.replace(a.out + ".tmp", a.out)
        return res
    for case in mod.cases(rng, a.tier):
        if time.time() - t0 > a.budget or n >= a.max: break
        r = judge(mod, case)
        n += 1
        s = json.dumps(case, sort_keys=True, default=str)
        h = hashlib.sha1(s.encode()).hexdigest()
        if h not in seen and getattr(mod, "nontrivial", lambda c: True)(case):
            seen.add(h)
            if len(samples) < 5: samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
        for key, what in (r or []):
            k = keys.get(key, 0)
            keys[key] = k + 1
            if k < 2: fails.append({"key": key, "what": str(what)[:1500], "case": case})
        if time.time() - last > 5: dump(); last = time.time()
        if len([k for k in keys]) > 40: break
    res = dump()
    if not a.out:
        for k in keys: print(keys[k], k, "|", [f["what"] for f in fails if f["key"] == k][0][:500])
        print(n, "cases", len(seen), "distinct", len(keys), "failing keys", round(time.time() - t0, 1), "s")


if __name__ == "__main__":
    main()
