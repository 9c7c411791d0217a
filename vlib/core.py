"""Runner: sharded Hypothesis search, shrinking, replay files, evidence."""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import re
import sys
import time
import traceback
import warnings
from collections import Counter

from vlib import env  # noqa: F401  (must come first)
import numpy as np

SHARDS = 8
SHRINK_SECONDS = 40.0


class Violation(Exception):
    """The property does not hold on this case."""


class Discard(Exception):
    """The case is outside the property's domain (counted, never a verdict)."""


class Expected(Exception):
    pass


@contextlib.contextmanager
def sut(what):
    """Run code under test on input it must accept: an exception is a violation."""
    try:
        yield
    except (Violation, Discard):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        raise Violation("%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:200], where))


def rejects(what, fn):
    """Code under test must raise on this input."""
    try:
        r = fn()
    except Exception:
        return
    raise Violation("%s was accepted (returned %s)" % (what, str(r)[:200]))


def show(a, n=8):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:n], precision=10)
    return "%s%s" % (a.shape, s)


def close(what, got, want, scale=0.0, rtol=1e-7, atol=0.0):
    """got == want up to rtol * max(|want|, scale); NaN never equals a number."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if want.size == 0:
        return
    fin = np.isfinite(want)
    if not np.array_equal(np.isfinite(got), fin):
        raise Violation("%s: got %s, expected %s" % (what, show(got), show(want)))
    if not fin.any():
        return
    m = max(float(np.max(np.abs(want[fin]))), float(scale))
    err = np.abs(got[fin] - want[fin])
    if np.max(err) > rtol * m + atol:
        i = int(np.argmax(err))
        raise Violation("%s: got %r, expected %r (index %d of the finite entries, tolerance %.3g); got %s expected %s"
                        % (what, float(got[fin][i]), float(want[fin][i]), i, rtol * m + atol, show(got), show(want)))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def normalise(case):
    return json.loads(canon(case))


def run_case(mod, case):
    """Run one case from a clean global state; returns the labels of the case."""
    import matplotlib.pyplot as plt

    np.random.seed(12345)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return mod.check(case) or {}
    finally:
        plt.close("all")


def _shard(args):
    pid, shard, n, seed, tier = args
    try:
        return _shard_inner(pid, shard, n, seed, tier)
    except BaseException:
        return dict(error=traceback.format_exc())


def _shard_inner(pid, shard, n, seed, tier):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    mod = importlib.import_module("vlib.checks.%s" % pid.lower())
    st = dict(evals=0, discards=0, labels=Counter(), nt=set(), samples=[], fail=None, t_fail=None, error=None)

    def record(case):
        """returns (violation message or None)"""
        try:
            info = run_case(mod, case)
        except Violation as v:
            return str(v)
        except Discard as d:
            st["discards"] += 1
            st["labels"]["discarded: %s" % d] += 1
            return None
        if st["fail"] is None:
            st["evals"] += 1
            for l in info.get("labels", ()):
                st["labels"][l] += 1
            if info.get("nt", True):
                h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if h not in st["nt"]:
                    st["nt"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(case)
        return None

    if shard == 0:
        for case in getattr(mod, "REGRESSIONS", []):
            case = normalise(case)
            msg = record(case)
            if msg is not None:
                return dict(st, fail=(case, msg), nt=list(st["nt"]), labels=dict(st["labels"]))

    def body(case):
        case = normalise(case)
        if st["fail"] is not None and time.time() - st["t_fail"] > SHRINK_SECONDS:
            # shrinking budget used up: only the best failing case still counts
            if canon(case) == canon(st["fail"][0]):
                raise Violation(st["fail"][1])
            return
        msg = record(case)
        if msg is not None:
            if st["fail"] is None:
                st["t_fail"] = time.time()
                st["evals"] += 1
            st["fail"] = (case, msg)
            raise Violation(msg)

    test = settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)(
        given(mod.strategy(tier))(body))
    test = hseed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except BaseException:
        # once a violation has been recorded, how Hypothesis ends (also: Flaky) does not matter
        if st["fail"] is None:
            st["error"] = traceback.format_exc()
    if st["fail"] is not None:
        st["error"] = None
    return dict(st, nt=list(st["nt"]), labels=dict(st["labels"]))


def write_replay(pid, case, msg):
    d = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(canon(case).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, message=msg, case=case), f, indent=1, default=_default)
    return path


def warm_shap():
    """compile shap's numba kernels once, before the workers are forked"""
    try:
        import shap

        X = np.random.RandomState(0).rand(12, 2)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            shap.Explainer(lambda x: x[:, 0] * x[:, 1], X)(X)
    except Exception:
        pass


def main(argv):
    pid = argv[0].upper()
    mod = importlib.import_module("vlib.checks.%s" % pid.lower())
    if len(argv) > 2 and argv[1] == "--replay":
        case = json.load(open(argv[2]))["case"]
        try:
            info = run_case(mod, case)
        except Violation as v:
            print(v)
            print("VIOLATION property=%s replay=%s" % (pid, argv[2]))
            return 1
        except Discard as d:
            print("case discarded:", d)
            return 0
        print("replayed case passes", info)
        return 0

    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    assert tier in ("quick", "thorough"), tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_CASES_SCALE", "1"))
    n = max(1, int(mod.CASES[tier] * scale))
    t0 = time.time()
    per = [(n + SHARDS - 1 - i) // SHARDS for i in range(SHARDS)]
    jobs = [(pid, i, per[i], int(hashlib.sha1(("%d/%s/%d" % (seed, pid, i)).encode()).hexdigest()[:12], 16), tier)
            for i in range(SHARDS) if per[i] > 0]
    workers = min(SHARDS, len(os.sched_getaffinity(0)))
    evals, discards, labels, nt, samples, fail, errors = 0, 0, Counter(), set(), [], None, []
    if "shap" in open(mod.__file__).read() or "reg." in open(mod.__file__).read():
        warm_shap()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_shard, jobs):
            if r.get("error"):
                errors.append(r["error"])
                continue
            evals += r["evals"]
            discards += r["discards"]
            labels.update(r["labels"])
            nt.update(r["nt"])
            samples += r["samples"]
            if r["fail"] is not None:
                fail = r["fail"]
                break
        pool.terminate()
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nt), rule=mod.RULE,
                            samples=samples[:3] or ([fail[0]] if fail else []), discarded=discards,
                            classes=dict(sorted(labels.items(), key=lambda kv: -kv[1]))),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=1 if fail else 0)
    d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    if fail is not None:
        path = write_replay(pid, fail[0], fail[1])
        print(fail[1])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("harness error:\n" + errors[0])
        return 3
    if len(nt) == 0:
        print("harness error: no non-trivial case generated")
        return 3
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs"
          % (pid, tier, seed, evals, len(nt), discards, wall))
    return 0
