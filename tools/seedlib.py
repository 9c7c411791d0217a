"""Planted bugs: building (spec -> seeded/<id>/), confirming them and running the checks on them.

usage: seedlib.py build [id..]       (re)create seeded/<id> from tools/seeds/*.py
       seedlib.py confirm [id..]     patch applies, base lines, compiles, stable tests pass, demo 0 / nonzero
       seedlib.py check [id..]       run the property's quick check against a patched copy
No registered check reads seeded/ or this file.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg"); os.environ.setdefault("TQDM_DISABLE", "1")
warnings.filterwarnings("ignore")
import numpy as np
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import effector
from effector import helpers, utils, partitioning, bin_splitting, binning_methods


def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


'''
SH = '''#!/bin/bash
# run with cwd = the repository
export MPLBACKEND=Agg TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/seeds/*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(s):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seedb-", dir="/tmp")
    try:
        sh(["git", "clone", "-q", REPO, w + "/r"])
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(w)


def copy(sid, patch=True):
    w = tempfile.mkdtemp(prefix="seed-%s-" % sid, dir="/tmp")
    sh(["cp", "-a", REPO, w + "/r"])
    if patch:
        r = sh(["git", "-C", w + "/r", "apply", os.path.join(OUT, sid, "patch.diff")])
        assert r.returncode == 0, (sid, r.stdout)
    return w


STABLE = json.load(open("/opt/vp/BASELINE.json"))


def confirm(sid):
    msgs = []
    # removed lines must be the original repository's
    r = sh(["git", "-C", REPO, "apply", "--check", os.path.join(OUT, sid, "patch.diff")])
    if r.returncode: return sid, ["does not apply: " + r.stdout]
    w = copy(sid)
    try:
        d = w + "/r"
        diff = sh(["git", "diff", "-U0"], cwd=d).stdout
        f = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    b = sh(["git", "blame", "-s", "-w", "-L%s,+%d" % (a[0], n), "HEAD", "--", f], cwd=d).stdout
                    for bl in b.splitlines():
                        if "db20313" not in bl.split()[0]: msgs.append("not original: " + bl)
        e = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        r = sh([PY, "-m", "pytest", "tests", "-q", "-m", "not slow", "-p", "no:cacheprovider"], cwd=d, env=e)
        if " failed" in r.stdout or "10 passed" not in r.stdout:
            msgs.append("tests: " + r.stdout[-600:])
        r = sh(["bash", os.path.join(OUT, sid, "demo.sh")], cwd=d)
        if r.returncode == 0: msgs.append("demo passes with the patch")
        last = r.stdout.strip().splitlines()[-1:] 
        sh(["git", "checkout", "-q", "--", "."], cwd=d)
        r = sh(["bash", os.path.join(OUT, sid, "demo.sh")], cwd=d)
        if r.returncode != 0: msgs.append("demo fails without the patch: " + r.stdout[-600:])
        return sid, msgs or ["ok: %s" % last]
    finally:
        shutil.rmtree(w)


def check(sid, prop=None, tier="quick", seed="1"):
    prop = prop or json.load(open(os.path.join(OUT, sid, "meta.json")))["property"]
    w = copy(sid)
    try:
        r = sh(["bash", os.path.join(VERIF, "run.sh"), prop, tier],
               env={"VERIF_REPO": w + "/r", "VERIF_SEED": seed, "VERIF_EVIDENCE_DIR": w, "VERIF_REPLAY_DIR": w}, timeout=4000)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return sid, prop, r.returncode, (v[:1] or [r.stdout[-300:]])
    finally:
        shutil.rmtree(w)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    sp = specs()
    if cmd == "build":
        for s in sp.values():
            if not ids or s["id"] in ids: build(s)
        return
    ids = ids or sorted(os.listdir(OUT))
    if cmd == "confirm":
        with ThreadPoolExecutor(6) as ex:
            for sid, m in ex.map(confirm, ids): print(sid, *m, sep="\n   ", flush=True)
    if cmd == "check":
        with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
            for sid, prop, rc, v in ex.map(check, ids):
                print("%-8s %s %s %s" % (sid, prop, "CAUGHT" if rc == 1 and v[0].startswith("VIOLATION") else "MISSED rc=%d" % rc, "" if rc == 1 else v[0]), flush=True)


main() if __name__ == "__main__" else None
