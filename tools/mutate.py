"""Mutation analysis of the checks (development tool; no registered check uses it).

  mutate.py list                 number of mutants per file
  mutate.py run OUT.jsonl [--seed N] [--sample K] [--jobs J] [--files a.py,b.py] [--skip other.jsonl]
  mutate.py one ID [pids...]     run one mutant, verbose
  mutate.py diff ID

Every mutant is a small AST-located text edit of one file under /repo/effector.  A worker copies the
package to a scratch directory, applies the edit and runs one shard of each check (most relevant
check first) until one reports a violation.
"""
import warnings

warnings.simplefilter("ignore")
import ast
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FILES = sorted(f for f in os.listdir(REPO + "/effector") if f.endswith(".py"))

ORDER = {
    "bin_splitting.py": "C06 C07 C05 C04 C10 C24 C12 C23 C26",
    "binning_methods.py": "C06 C07 C24 C05 C04 C10",
    "global_effect.py": "C10 C24 C13 C03 C01 C04 C11 C29 C08 C19",
    "global_effect_ale.py": "C04 C05 C03 C10 C19 C24 C11 C13 C29 C30",
    "global_effect_pdp.py": "C01 C02 C03 C19 C10 C24 C29 C28 C30 C27",
    "global_effect_shap.py": "C08 C03 C19 C10 C24 C13 C29 C30",
    "helpers.py": "C24 C26 C01 C13 C04 C19 C20",
    "interaction.py": "C22 C29 C27 C28 C24",
    "partitioning.py": "C14 C15 C16 C17 C18 C20 C21 C25 C26 C24",
    "regional_effect.py": "C14 C18 C20 C21 C10 C24 C16 C13 C25 C29 C15",
    "regional_effect_ale.py": "C18 C15 C14 C20 C10 C24 C28 C29 C17",
    "regional_effect_pdp.py": "C18 C15 C14 C20 C10 C24 C28 C29 C17",
    "regional_effect_shap.py": "C18 C15 C14 C20 C10 C24 C28 C29 C17",
    "utils.py": "C26 C04 C05 C25 C27 C12 C23 C02 C29",
    "utils_integrate.py": "C03 C26 C08 C04",
    "visualization.py": "C19 C20 C24",
}
ALL = ["C%02d" % i for i in range(1, 31)]

SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
        ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
NAMES = {"mean": "sum", "sum": "mean", "var": "std", "std": "var", "min": "max", "max": "min", "argmin": "argmax",
         "argmax": "argmin", "nanmean": "mean", "nanstd": "nanmean", "ceil": "floor", "floor": "ceil",
         "any": "all", "all": "any", "zeros": "ones", "ones": "zeros", "sqrt": "abs", "abs": "negative",
         "isnan": "isinf", "cumsum": "cumprod", "hstack": "vstack", "minimum": "maximum", "maximum": "minimum",
         "unique": "sort", "copy": None, "linspace": None, "less": "less_equal", "greater": "greater_equal",
         "logical_and": "logical_or", "logical_or": "logical_and", "isclose": None, "append": None, "axis_limits": None}


def seg(lines, node):
    """(start, end) character offsets"""
    def off(l, c):
        return sum(len(x) for x in lines[:l - 1]) + len(lines[l - 1].encode()[:c].decode())
    return off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)


def mutants(fname):
    src = open(os.path.join(REPO, "effector", fname)).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    ann = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            if getattr(n, a, None) is not None:
                for m in ast.walk(getattr(n, a)):
                    ann.add(m)
    infmt = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                infmt.add(m)

    def add(node, new, op):
        s, e = seg(lines, node)
        if src[s:e] == new:
            return
        mut = src[:s] + new + src[e:]
        try:
            ast.parse(mut)
        except SyntaxError:
            return
        out.append(dict(file=fname, line=node.lineno, op=op, start=s, end=e, old=src[s:e], new=new))

    def text(n):
        s, e = seg(lines, n)
        return src[s:e]

    for n in ast.walk(tree):
        if n in doc or n in ann or n in infmt:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in SWAP.get(type(n.ops[0]), []):
                add(n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "cmp")
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                o = {"Lt": ">", "LtE": ">", "Gt": "<", "GtE": "<"}[type(n.ops[0]).__name__]
                add(n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "cmpneg")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s %s %s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "arith")
            add(n, text(n.left), "dropright")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(%s)" % o.join("(%s)" % text(v) for v in n.values), "bool")
            add(n, text(n.values[0]), "booldrop")
            add(n, text(n.values[-1]), "booldrop")
        elif isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % text(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 if n.value else 1.0), "const")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "ifexp")
            add(n, "(%s)" % text(n.orelse), "ifexp")
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                s, e = seg(lines, k)
                j = e
                while j < len(src) and src[j] in " \n,":
                    j += 1
                class F:  # a fake node covering the keyword and the comma behind it
                    lineno, col_offset = k.lineno, k.col_offset
                new = ""
                mut = src[:s] + src[j:]
                try:
                    ast.parse(mut)
                    out.append(dict(file=fname, line=k.lineno, op="dropkw", start=s, end=j, old=src[s:j], new=new))
                except SyntaxError:
                    pass
            for a, b in zip(n.args, n.args[1:]):
                if not any(isinstance(x, ast.Starred) for x in (a, b)):
                    s, _ = seg(lines, a)
                    _, e = seg(lines, b)
                    new = text(b) + ", " + text(a)
                    if src[s:e] != new:
                        out.append(dict(file=fname, line=a.lineno, op="swapargs", start=s, end=e, old=src[s:e], new=new))
            f = n.func
            if isinstance(f, ast.Attribute) and NAMES.get(f.attr):
                s, e = seg(lines, f)
                out.append(dict(file=fname, line=n.lineno, op="fname", start=e - len(f.attr), end=e, old=f.attr,
                                new=NAMES[f.attr]))
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                add(n, text(f.value), "nocopy")
            if isinstance(f, ast.Attribute) and f.attr == "deepcopy" and n.args:
                add(n, text(n.args[0]), "nocopy")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tgt, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                add(n, "pass", "delstmt")
            elif isinstance(tgt, ast.Name) and any(isinstance(m, ast.Name) and m.id == tgt.id for m in ast.walk(n.value)):
                add(n, "pass", "delstmt")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delstmt")
        elif isinstance(n, (ast.Raise, ast.Assert)):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Break):
            add(n, "pass", "delstmt")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "delstmt")
    seen, res = set(), []
    for m in out:
        m["id"] = hashlib.sha1(("%s|%s|%d|%s|%s" % (m["file"], m["op"], m["start"], m["old"], m["new"])).encode()).hexdigest()[:10]
        k = src[:m["start"]] + m["new"] + src[m["end"]:]
        k = hashlib.sha1(k.encode()).hexdigest()
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def all_mutants(files=FILES):
    return [m for f in files for m in mutants(f)]


def make_copy(m, d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "docs", "notebooks", "tests", "__pycache__"))
    p = os.path.join(d, "effector", m["file"])
    src = open(p).read()
    assert src[m["start"]:m["end"]] == m["old"]
    open(p, "w").write(src[:m["start"]] + m["new"] + src[m["end"]:])


WORKER = r"""
import sys, os, time, json, importlib, io, contextlib, signal
sys.path.insert(0, %(verif)r)
from vlib import core
core.SHRINK_SECONDS = 0.0
frac, seed = float(sys.argv[1]), sys.argv[2]
import hashlib
out = sys.stdout
try:
    import effector
except BaseException as e:
    print("KILLED import %%r" %% (e,)); os._exit(0)
for pid in sys.argv[3:]:
    t = time.time()
    mod = importlib.import_module("vlib.checks.%%s" %% pid.lower())
    n = max(4, int(mod.CASES["quick"] * frac))
    s = int(hashlib.sha1(("%%s/%%s/m" %% (seed, pid)).encode()).hexdigest()[:12], 16)
    r = core._shard((pid, 0, n, s, "quick"))
    if r.get("fail"):
        print("KILLED", pid, "%%.0fs" %% (time.time() - t), str(r["fail"][1])[:300].replace("\n", " "), flush=True); os._exit(0)
    if r.get("error"):
        print("ERROR", pid, r["error"][-300:].replace("\n", " "), flush=True); os._exit(0)
    print("ok", pid, "%%.0fs" %% (time.time() - t), flush=True)
print("SURVIVED"); os._exit(0)
"""


def run_one(m, pids, frac, seed, timeout, cpu=None):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        make_copy(m, d + "/r")
        env = dict(os.environ, VERIF_REPO=d + "/r", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   TQDM_DISABLE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   NUMBA_NUM_THREADS="1", MPLCONFIGDIR=d, VERIF_EVIDENCE_DIR=d, VERIF_REPLAY_DIR=d)
        cmd = ["/opt/venv/bin/python", "-c", WORKER % dict(verif=VERIF), str(frac), str(seed)] + pids
        try:
            p = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode(errors="replace") + "\nKILLED timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def order(f):
    first = ORDER.get(f, "").split()
    return first + [p for p in ALL if p not in first]


def main():
    cmd = sys.argv[1]
    args = sys.argv[2:]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default
    if cmd == "list":
        tot = 0
        for f in FILES:
            k = mutants(f)
            tot += len(k)
            print(f, len(k))
        print(tot)
    elif cmd in ("one", "diff"):
        m = [m for m in all_mutants() if m["id"] == args[0]][0]
        print(m)
        if cmd == "one":
            print(run_one(m, args[1:] or order(m["file"]), float(os.environ.get("FRAC", "0.125")), os.environ.get("SEED", "1"), 3000))
    elif cmd == "run":
        from concurrent.futures import ThreadPoolExecutor, as_completed
        out = args[0]
        files = opt("--files", ",".join(FILES)).split(",")
        ms = all_mutants(files)
        ids = opt("--ids", None)
        if ids:
            keep = set(open(ids).read().split())
            ms = [m for m in ms if m["id"] in keep]
        done = set()
        for f in [out] + [x for x in opt("--skip", "").split(",") if x]:
            if os.path.exists(f):
                done |= {json.loads(l)["id"] for l in open(f)}
        random.Random(int(opt("--seed", "0"))).shuffle(ms)
        ms = [m for m in ms[:int(opt("--sample", "1000000"))] if m["id"] not in done]
        frac = float(opt("--frac", "0.125"))
        print(len(ms), "mutants", flush=True)
        with ThreadPoolExecutor(int(opt("--jobs", "7"))) as ex, open(out, "a") as fo:
            fs = {ex.submit(run_one, m, order(m["file"]), frac, opt("--vseed", "1"), 900): m for m in ms}
            for f in as_completed(fs):
                m = fs[f]
                try:
                    txt = f.result().strip().splitlines()
                except AssertionError:
                    continue
                res = txt[-1] if txt else "ERROR no output"
                oks = [l for l in txt if l.startswith("ok")]
                fo.write(json.dumps(dict(m, result=res, oks=len(oks))) + "\n")
                fo.flush()


if __name__ == "__main__":
    main()
