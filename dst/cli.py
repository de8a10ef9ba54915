"""Run the real command line program inside this process (one simulated process = one forked child)."""

from __future__ import annotations

import contextlib
import io
import os
import sys

from dst import jvm

main_mod = None


def setup():
    global main_mod
    jvm.install()
    import ecalc_cli.main as m
    import libecalc.presentation.yaml.model  # noqa: F401

    main_mod = m
    warm()


def warm():
    import pandas as pd

    pd.DataFrame({"a": [1.0]}).to_csv()


def run(argv, stdout=None, stderr=None):
    """Returns (exit status, stdout text).  Mirrors the console script: sys.exit(main())."""
    out = stdout or io.StringIO()
    err = stderr or io.StringIO()
    old = sys.argv
    sys.argv = ["ecalc"] + list(argv)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = main_mod.main()
                code = rc if isinstance(rc, int) else (0 if rc is None else 1)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except KeyboardInterrupt:
                code = 130
            except Exception as e:  # an uncaught exception ends the interpreter with status 1
                code = 1
                err.write(f"\n[uncaught] {type(e).__name__}: {e}")
    finally:
        sys.argv = old
    return code, out.getvalue() if hasattr(out, "getvalue") else "", err.getvalue() if hasattr(err, "getvalue") else ""


def tree(root):
    """relpath -> bytes for every file below root, and the set of directories."""
    files = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                files[os.path.relpath(p, root)] = fh.read()
    return files


def in_fork(fn, catch=True):
    """Run fn() in a forked copy of this process; returns its JSON-able value.  ('exit', status) if it ended otherwise."""
    import json
    import struct
    import traceback

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                val = ["ok", fn()]
            except BaseException:
                val = ["exc", traceback.format_exc()]
            data = json.dumps(val, default=str).encode()
            data = struct.pack("<Q", len(data)) + data
            off = 0
            while off < len(data):
                off += os.write(w, data[off : off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 8 and struct.unpack("<Q", bytes(buf[:8]))[0] == len(buf) - 8:
        kind, val = json.loads(bytes(buf[8:]))
        if kind == "exc":
            raise RuntimeError("in fork: " + val)
        return val
    return {"__exit__": st}


_num = None


def same_numbers(a, b, rtol=1e-3, atol=1e-6):
    """Two text files are equal up to the numbers in them, which may differ by rounding."""
    import re

    global _num
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    if _num is None:
        _num = re.compile(rb"-?\d+\.?\d*(?:[eE][-+]?\d+)?")
    if _num.sub(b"#", a) != _num.sub(b"#", b):
        return False
    for x, y in zip(_num.findall(a), _num.findall(b)):
        fx, fy = float(x), float(y)
        if abs(fx - fy) > atol + rtol * max(abs(fx), abs(fy)):
            return False
    return True
