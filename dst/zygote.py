"""Interpreters with other hash seeds and simulated clocks; each request is served by a forked copy (one simulated process).

`start` (in the check) launches them, `ask` sends one request and waits for its answer.
"""

from __future__ import annotations

import ctypes
import json
import os
import signal
import socket
import struct
import subprocess
import sys
import time

from dst import core

SEEDS = (0, 1, 2, 77, 4242)
_lib = None


def _send(s, obj):
    d = json.dumps(obj, default=str).encode()
    s.sendall(struct.pack("<Q", len(d)) + d)


def _recv(s):
    def exact(n):
        b = bytearray()
        while len(b) < n:
            c = s.recv(min(1 << 20, n - len(b)))
            if not c:
                return None
            b += c
        return bytes(b)

    h = exact(8)
    if h is None:
        return None
    b = exact(struct.unpack("<Q", h)[0])
    return None if b is None else json.loads(b)


def path(seed):
    return os.path.join(core.scratch_root(), f"zy{seed}.sock")


def start(target):
    """target: 'module:function' called with the request in the forked copy."""
    so = os.path.join(core.scratch_root(), "clock.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(os.path.dirname(__file__), "clock.c"), "-ldl"], check=True)
    procs = []
    for hs in SEEDS:
        env = dict(os.environ, PYTHONHASHSEED=str(hs), LD_PRELOAD=so, VERIF_CLOCK_SO=so)
        procs.append(subprocess.Popen([sys.executable, "-m", "dst.zygote", str(hs), target], env=env, stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, start_new_session=True, cwd=core.VERIF))
    t0 = time.monotonic()
    for p, hs in zip(procs, SEEDS):
        while not os.path.exists(path(hs)):
            if p.poll() is not None or time.monotonic() - t0 > 120:
                raise core.HarnessError(f"interpreter with hash seed {hs} did not start")
            time.sleep(0.02)
    return procs


def ask(seed, req):
    s = socket.socket(socket.AF_UNIX)
    for _ in range(200):
        try:
            s.connect(path(seed))
            break
        except (BlockingIOError, ConnectionRefusedError):
            time.sleep(0.02)
    _send(s, req)
    a = _recv(s)
    s.close()
    if a is None:
        return {"stall": True, "code": -1}
    if "error" in a:
        raise core.HarnessError("in the other interpreter: " + a["error"])
    return a["ok"]


# ------------------------------------------------------------------ inside
def clock(plan):
    """Switch the simulated clocks on; None: real clocks."""
    global _lib
    _lib = _lib or ctypes.CDLL(os.environ["VERIF_CLOCK_SO"])
    _lib.sim_clock_on.argtypes = [ctypes.c_int64] * 3
    _lib.sim_clock_jump.argtypes = [ctypes.c_int64] * 2
    _lib.sim_clock_on(int(plan["real"] * 10**9), int(plan["mono"] * 10**9), int(plan["tick"] * 10**9))
    for at, by in plan.get("jumps", ()):
        _lib.sim_clock_jump(int(at), int(by * 10**9))


def clock_off():
    _lib.sim_clock_off()
    return {"real": _lib.sim_clock_reads(), "mono": _lib.sim_clock_mono_reads()}


def main():
    import importlib

    from dst import cli, seams

    hs, target = int(sys.argv[1]), sys.argv[2]
    os.environ.pop("LD_PRELOAD", None)
    seams.third_party()
    cli.setup()
    seams.check_tree()
    m, f = target.split(":")
    fn = getattr(importlib.import_module(m), f)
    import gc

    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    tmp = path(hs) + ".t"
    srv.bind(tmp)
    srv.listen(64)
    os.rename(tmp, path(hs))
    import select

    while True:
        rd, _, _ = select.select([srv, 0], [], [])
        if 0 in rd and not os.read(0, 1):
            os.killpg(0, signal.SIGKILL)
        if srv in rd:
            c, _ = srv.accept()
            if os.fork() == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                try:
                    req = _recv(c)
                    try:
                        a = {"ok": fn(req)}
                    except BaseException:
                        import traceback

                        a = {"error": traceback.format_exc()}
                    _send(c, a)
                finally:
                    os._exit(0)
            c.close()


if __name__ == "__main__":
    main()
