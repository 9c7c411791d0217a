"""Line coverage of effector under the checks: tools/cov.py [n cases] [ids]  (development aid, not a check)"""
import contextlib, importlib, io, os, sys, dis, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, env
from multiprocessing import get_context
N = int(sys.argv[1]) if len(sys.argv) > 1 else 60
IDS = sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(env.VERIF, "vlib/checks")) if f.startswith("c"))
ROOT = os.path.join(env.REPO, "effector") + os.sep


def run(pid):
    hits = set()
    m = sys.monitoring; m.use_tool_id(1, "cov")
    def line(code, no):
        if code.co_filename.startswith(ROOT): hits.add((os.path.basename(code.co_filename), no))
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line); m.set_events(1, m.events.LINE)
    core._shard((pid, 0, N, 77, "quick"))
    return pid, hits


def lines(path):
    out = set()
    def walk(c):
        for _, _, l in c.co_lines():
            if l and l != c.co_firstlineno: out.add(l)
        for k in c.co_consts:
            if isinstance(k, types.CodeType): walk(k)
    src = open(path).read()
    c = compile(src, path, "exec")
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            if k.co_name[0].isupper():
                for kk in k.co_consts:
                    if isinstance(kk, types.CodeType): walk(kk)
            else: walk(k)
    return out

if __name__ == "__main__":
    allh = set()
    with get_context("fork").Pool(4, maxtasksperchild=1) as p:
        for pid, h in p.imap_unordered(run, IDS, chunksize=1): allh |= h
    for f in sorted(os.listdir(ROOT)):
        if not f.endswith(".py"): continue
        miss = sorted(lines(ROOT + f) - {l for g, l in allh if g == f})
        src = open(ROOT + f).read().splitlines()
        print("==", f, len(miss))
        for l in miss: print("   %4d %s" % (l, src[l - 1].strip()[:110]))
