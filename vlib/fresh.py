"""Run a function of a check module in a process that has not used effector before.

A helper is forked from this process before its first case; every request is served by a fork of that helper, so
nothing that earlier cases (or requests) did in the process can be seen by it.
"""
import importlib
import os
import pickle
import struct

_HELPER = None


def _send(fd, data):
    data = struct.pack(">Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out
    head = exactly(8)
    return None if head is None else exactly(struct.unpack(">Q", head)[0])


def _serve(rfd, wfd):
    while True:
        req = _recv(rfd)
        if req is None:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                module, name, args = pickle.loads(req)
                try:
                    out = ("ok", getattr(importlib.import_module(module), name)(*args))
                except Exception as e:
                    import traceback
                    out = ("exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-800:]))
                _send(w, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(w)
        ans = _recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        _send(wfd, ans if ans is not None else pickle.dumps(("exception", "the process died")))


def _warm():
    """load what matplotlib loads lazily, without using effector"""
    import gc
    import matplotlib.pyplot as plt
    fig, (a, b) = plt.subplots(2, 1, sharex=True)
    a.plot([0, 1], [0, 1], "o-", label="x")
    a.fill_between([0, 1], [0, 1], [1, 2])
    a.axhline(0.5)
    a.legend()
    a.set_title("t")
    b.bar([0, 1], [1, 2], width=[0.5, 0.5], yerr=[0.1, 0.1])
    b.errorbar([0, 1], [0, 1], yerr=[0.1, 0.2])
    b.imshow([[0, 1], [1, 0]])
    b.text(0, 0, "t")
    fig.canvas.draw()
    plt.close("all")
    gc.collect()
    gc.freeze()


def start():
    """fork the helper; to be called before effector is used in this process"""
    global _HELPER
    if _HELPER is not None and _HELPER[0] == os.getpid():
        return
    a, b = os.pipe(), os.pipe()
    if os.fork() == 0:
        _warm()
        os.close(a[1])
        os.close(b[0])
        _serve(a[0], b[1])
    os.close(a[0])
    os.close(b[1])
    _HELPER = (os.getpid(), a[1], b[0])


def call(module, name, *args):
    start()
    _send(_HELPER[1], pickle.dumps((module, name, args)))
    ans = _recv(_HELPER[2])
    if ans is None:
        raise RuntimeError("helper process ended")
    kind, value = pickle.loads(ans)
    if kind != "ok":
        raise RuntimeError("in the fresh process: %s" % value)
    return value
