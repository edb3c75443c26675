"""Build and confirm planted bugs: python3 notes/mkseed.py SPECFILE [ids]. A spec file defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python text)].
Each bug is made in a scratch copy of /repo, must build, pass the stable tests and fail its demo; it is then written to /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig")
DEMO_SH = '''#!/bin/bash
# cwd: the repository. exit 0 when the property holds on this tree
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(s):
    d = "/tmp/seedw/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f); t = open(p).read()
            if t.count(old) != 1: return s["id"], "edit matches %d times: %r" % (t.count(old), old[:60])
            open(p, "w").write(t.replace(old, new))
        patch = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        o = os.path.join(V, "seeded", s["id"])
        tmp = d + ".demo"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + "/demo.py", "w").write(s["demo"]); open(tmp + "/demo.sh", "w").write(DEMO_SH)
        a = subprocess.run(["bash", tmp + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        if a.returncode: return s["id"], "demo fails on the clean tree: " + (a.stdout + a.stderr)[-600:]
        b = subprocess.run(["bash", tmp + "/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True)
        if not b.returncode: return s["id"], "demo passes with the bug"
        t = open("/opt/vp/test.sh").read().replace("/repo", d)
        open(tmp + "/test.sh", "w").write(t)
        subprocess.run(["bash", tmp + "/test.sh", tmp + "/out.json"], env=ENV, capture_output=True)
        miss = stable - set(json.load(open(tmp + "/out.json"))["passed"])
        if miss: return s["id"], "tests fail: " + " ".join(sorted(miss)[:4])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(patch); open(o + "/demo.py", "w").write(s["demo"]); open(o + "/demo.sh", "w").write(DEMO_SH); os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return s["id"], "ok (%s)" % (b.stdout + b.stderr).strip().splitlines()[-1][:120]
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + ".demo", ignore_errors=True)


if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    todo = [s for s in ns["S"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, todo): print(*r, flush=True)
