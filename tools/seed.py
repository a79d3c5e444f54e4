#!/usr/bin/env python3
"""seed.py build [ID..]: (re)create /verif/seeded/<id> from tools/seed_defs.py, verifying each in a scratch copy of /repo.
   seed.py check [ID..] [--tier T] [--seed N] [--all]: run the check of each planted bug's property (or all) on a scratch copy.
Planted bugs are never applied to /repo itself; the scratch copies are removed."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
PY = "/opt/venv/bin/python"
PRE = '''import os, sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, pandas as pd, scipy as sp
import fibermat
assert os.path.realpath(fibermat.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), fibermat.__file__
from fibermat import *


def expect(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)


def fibers(rows, size=50., cols="lbhxyzuvwGE"):
    """Table of fibers from rows (l, b, h, x, y, z, u, v, w, G, E)."""
    t = pd.DataFrame(np.array(rows, dtype=float), columns=[*cols])
    t[[*"uvw"]] /= np.linalg.norm(t[[*"uvw"]].values, axis=1)[:, None]
    t.attrs.update(n=len(t), size=size)
    return Mat(t)


'''
SH = '''#!/bin/bash
export MPLBACKEND=Agg PYVISTA_OFF_SCREEN=true PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR=$T
PYTHONPATH=$PWD/src /opt/venv/bin/python -W ignore "$D/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true",
           MPLCONFIGDIR="/tmp/seedmpl", COLUMNS="200", LINES="50")


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(["bash", "-c", "git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm base" % (d, d)], check=True)
    return d


def tests(d):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--doctest-modules", "test", "src/fibermat"],
           cwd=d, env=dict(ENV, PYTHONPATH=d + "/src"))
    return r.returncode == 0, r.stdout


def demo(d, s):
    return sh(["bash", os.path.join(s, "demo.sh")], cwd=d, timeout=300)


def build(b):
    out = os.path.join(V, "seeded", b["id"])
    d = copy()
    try:
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(PRE + b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0 = demo(d, out)
        for f, old, new in b["edits"]:
            p = os.path.join(d, "src/fibermat", f)
            t = open(p).read()
            if t.count(old) != 1:
                return b["id"], "BAD edit: %d matches in %s for %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff"], cwd=d).stdout
        open(out + "/patch.diff", "w").write(patch)
        ok, log = tests(d)
        r1 = demo(d, out)
        msg = []
        if r0.returncode: msg.append("demo fails unpatched: " + r0.stdout[-600:])
        if not ok: msg.append("TESTS FAIL: " + log[-700:])
        if not r1.returncode: msg.append("demo passes patched")
        elif "FAIL:" not in r1.stdout: msg.append("(demo dies: %s)" % r1.stdout[-300:])
        return b["id"], "ok" if not msg else "; ".join(msg)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(b, props, tier, seed):
    d = copy()
    try:
        r = sh(["git", "apply", os.path.join(V, "seeded", b["id"], "patch.diff")], cwd=d)
        if r.returncode:
            return b["id"], "patch does not apply: " + r.stdout
        res = []
        for p in props:
            r = sh([sys.executable, os.path.join(V, "run.py"), p, "--tier", tier, "--seed", str(seed)],
                   env=dict(ENV, FMON_REPO=d, FMON_OUT=d), timeout=1500)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            lead = [l for l in r.stdout.splitlines() if "violat" in l.lower()]
            res.append((p, r.returncode, len(v), (lead or r.stdout.splitlines() or [""])[0][:230]))
        return b["id"], res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import seed_defs
    a = sys.argv[2:]
    opt = {}
    for k in ("--tier", "--seed"):
        if k in a:
            i = a.index(k); opt[k] = a[i + 1]; del a[i:i + 2]
    al = "--all" in a
    a = [x for x in a if x != "--all"]
    bugs = [b for b in seed_defs.BUGS if not a or b["id"] in a or any(b["id"].startswith(x) for x in a)]
    allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    with ThreadPoolExecutor(7) as ex:
        if sys.argv[1] == "build":
            for i, m in ex.map(build, bugs):
                print(i, m, flush=True)
        else:
            for b, (i, m) in zip(bugs, ex.map(lambda b: check(b, allp if al else [b["property"]], opt.get("--tier", "quick"), int(opt.get("--seed", 1))), bugs)):
                if isinstance(m, str):
                    print(i, m)
                    continue
                hit = [p for p, rc, n, l in m if rc == 1]
                odd = [(p, rc) for p, rc, n, l in m if rc not in (0, 1)]
                own = [x for x in m if x[0] == b["property"]][0]
                print("%-34s %s %s%s%s\n      %s" % (i, b["property"], "CAUGHT" if own[1] == 1 else "MISSED rc=%d" % own[1],
                      " all:" + ",".join(hit) if al else "", " odd:%s" % odd if odd else "", own[3]), flush=True)
