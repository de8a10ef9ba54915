"""Simulated disk: the file operations of one run pass through here, numbered, and the fault plan decides what each one does.

Only paths below the given roots are simulated; everything else goes to the real functions.  Data ends up in real files in a
scratch directory, so what a crash leaves behind is exactly what had been handed to the operating system by then.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import sys

_real = {}
_cur: "SimFS | None" = None

CRASH_STATUS = 137


class SimFileIO(io.FileIO):
    """Unbuffered file; every read, write and close is one numbered disk operation."""

    def __init__(self, path, mode, opener=None):
        self._sim = None
        fs = _cur
        rel = fs.rel(path)
        fs.op("open", rel, mode=mode)
        super().__init__(path, mode, opener=opener)
        self._sim = fs
        self._rel = rel

    def write(self, b):
        fs = self._sim
        if fs is None or fs is not _cur:
            return super().write(b)
        b = memoryview(b).cast("B")
        limit, after = fs.op("write", self._rel, size=len(b), fileobj=self)
        if limit is not None:
            b = b[:limit]
        n = super().write(b) if len(b) else 0
        if after:
            after()
        return n

    def readinto(self, b):
        fs = self._sim
        if fs is None or fs is not _cur:
            return super().readinto(b)
        b = memoryview(b).cast("B")
        limit, _ = fs.op("read", self._rel, size=len(b))
        if limit is not None:
            b = b[: max(1, limit)]
        return super().readinto(b)

    def readall(self):
        chunks = []
        while True:
            c = self.read(65536)
            if not c:
                return b"".join(chunks)
            chunks.append(c)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        fs = self._sim
        if fs is None or fs is not _cur:
            return super().read(n)
        limit, _ = fs.op("read", self._rel, size=n)
        if limit is not None:
            n = max(1, min(n, limit))
        return super().read(n)

    def truncate(self, size=None):
        if self._sim is not None and self._sim is _cur:
            self._sim.op("truncate", self._rel)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fs = getattr(self, "_sim", None)
        self._sim = None
        super().close()
        if fs is not None and fs is _cur:
            fs.op("close", self._rel, mode="w" if "+" in self.mode or "w" in self.mode or "a" in self.mode or "x" in self.mode else "r")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = _cur
    if fs is None or isinstance(file, int) or not fs.covers(file):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    creating, reading, writing, appending = "x" in mode, "r" in mode, "w" in mode, "a" in mode
    updating, binary = "+" in mode, "b" in mode
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(path, (creating and "x" or "") + (reading and "r" or "") + (writing and "w" or "") + (appending and "a" or "")
                    + (updating and "+" or ""), opener=opener)
    result = raw
    try:
        line_buffering = False
        if buffering == 1 and not binary:
            buffering, line_buffering = -1, True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif writing or appending or creating:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        result = buf
        if binary:
            return result
        text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line_buffering)
        result = text
        text.mode = mode
        return result
    except:
        result.close()
        raise


_WRITE_EVENTS = {"os.mkdir": 0, "os.remove": 0, "os.rmdir": 0, "os.truncate": 0, "os.chmod": 0, "os.utime": 0, "os.chown": 0,
                 "shutil.rmtree": 0, "tempfile.mkstemp": 0, "tempfile.mkdtemp": 0}
_WRITE_EVENTS2 = {"os.rename": (0, 1), "os.link": (1,), "os.symlink": (1,), "shutil.move": (0, 1), "shutil.copyfile": (1,)}


class SimFS:
    def __init__(self, roots, plan=None, clock=None):
        """plan: list of {"at": op number, "kind": ..., ...}"""
        self.roots = [os.path.realpath(r) for r in roots]
        self.spelled = [os.path.abspath(r) for r in roots]
        self.plan = {}  # operation number -> fault
        self.sel = {}  # (kind, path, how many-th) -> fault
        self.seen: dict = {}
        for f in plan or ():
            if "sel" in f:
                self.sel.setdefault(tuple(f["sel"]), f)
            else:
                self.plan.setdefault(int(f["at"]), f)
        self.n = 0
        self.trace: list = []
        self.fired: dict[str, int] = {}
        self.sticky: str | None = None  # disk full from now on
        self.muted = 0
        self.writes: set = set()  # absolute paths opened for writing or otherwise changed (audit)
        self.on_crash = None
        self.on_op = None  # scheduling point

    # -- which paths
    def _abs(self, p):
        return os.path.normpath(os.path.join(os.getcwd(), p))

    def covers(self, file):
        try:
            p = os.fspath(file)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        a = self._abs(p)
        return any(a == r or a.startswith(r + os.sep) for r in self.roots + self.spelled)

    def rel(self, file):
        a = self._abs(os.fsdecode(os.fspath(file)))
        for r in self.roots + self.spelled:
            if a == r or a.startswith(r + os.sep):
                return os.path.relpath(a, r)
        return a

    # -- one numbered operation
    def op(self, kind, rel, mode="", size=0, fileobj=None):
        """Returns (limit, after): limit = only that many bytes are transferred, after = called when done."""
        if self.muted:
            return None, None
        self.n += 1
        nth = self.seen.get((kind, rel), 0) + 1
        self.seen[(kind, rel)] = nth
        f = self.plan.get(self.n) or self.sel.get((kind, rel, nth))
        if self.on_op:
            self.on_op(kind, rel)
        self.trace.append([self.n, kind, rel, mode, size])
        writing = kind in ("write", "mkdir", "truncate", "replace") or (kind == "open" and ("w" in mode or "a" in mode or "x" in mode))
        if self.sticky and writing and f is None:
            if self.sticky == "full" and kind in ("write", "mkdir") or (self.sticky == "full" and kind == "open" and not os.path.exists(self._path(rel))):
                raise OSError(errno.ENOSPC, "No space left on device", rel)
            if self.sticky == "readonly":
                raise OSError(errno.EROFS, "Read-only file system", rel)
        if f is None:
            return None, None
        k = f["kind"]
        self.count(f"{kind}.{k}")
        self.trace[-1].append(k)
        if k == "crash":
            self.crash()
        if k == "crash_mid":  # part of the data reached the disk
            if kind == "write" and size > 0:
                cut = int(size * f.get("frac", 0.5))

                def after():
                    self.crash()

                return cut, after
            self.crash()
        if k == "crash_after":
            if kind == "write":
                return None, self.crash
            self.crash()
        if k == "kbint":
            raise KeyboardInterrupt()
        if k == "full":
            self.sticky = "full"
            cut = int(size * f.get("frac", 0.0))
            if kind == "write" and cut > 0:
                return cut, None
            raise OSError(errno.ENOSPC, "No space left on device", rel)
        if k == "short":
            if kind in ("write", "read") and size > 1:
                return max(1, int(min(size, 4096) * f.get("frac", 0.5))), None
            return None, None
        if k == "vanish":
            p = self._path(rel)
            self.muted += 1
            try:
                if os.path.isfile(p):
                    _real["unlink"](p)
            finally:
                self.muted -= 1
            return None, None
        if k == "errno":
            raise OSError(f["errno"], os.strerror(f["errno"]), rel)
        raise AssertionError(k)

    def _path(self, rel):
        return os.path.join(self.roots[0], rel)

    def crash(self):
        if self.on_crash:
            self.on_crash()
        os._exit(CRASH_STATUS)

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    # -- installation (for the life of this simulated process)
    def install(self):
        global _cur
        if not _real:
            _real["open"] = builtins.open
            for n in ("stat", "lstat", "mkdir", "replace", "rename", "unlink", "remove", "rmdir", "scandir", "listdir"):
                _real[n] = getattr(os, n)
            builtins.open = sim_open
            io.open = sim_open

            def wrap(name, kind):
                real = _real[name]

                def f(path, *a, **kw):
                    fs = _cur
                    if fs is not None and not isinstance(path, int) and path is not None and fs.covers(path):
                        fs.op(kind, fs.rel(path))
                    return real(path, *a, **kw)

                f.__name__ = name
                return f

            for n, k in (("stat", "stat"), ("lstat", "stat"), ("mkdir", "mkdir"), ("replace", "replace"), ("rename", "replace"), ("unlink", "unlink"),
                         ("remove", "unlink"), ("rmdir", "unlink"), ("scandir", "list"), ("listdir", "list")):
                setattr(os, n, wrap(n, k))
            sys.addaudithook(_audit)
        _cur = self
        return self

    def uninstall(self):
        global _cur
        _cur = None

    def outside(self, allowed):
        """Changed paths that are not below one of the allowed folders."""
        al = [os.path.realpath(a) for a in allowed]
        return sorted(p for p in self.writes if not any(p == a or p.startswith(a + os.sep) for a in al) and not p.startswith("/dev/"))


def _note(p):
    fs = _cur
    if fs is None or fs.muted or p is None or isinstance(p, int):
        return
    try:
        p = os.fsdecode(os.fspath(p))
    except TypeError:
        return
    fs.muted += 1
    try:
        fs.writes.add(os.path.realpath(p))
    finally:
        fs.muted -= 1


def _audit(event, args):
    if _cur is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(mode, str):
            if any(c in mode for c in "wax+"):
                _note(path)
        elif isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _note(path)
    elif event in _WRITE_EVENTS:
        _note(args[_WRITE_EVENTS[event]])
    elif event in _WRITE_EVENTS2:
        for i in _WRITE_EVENTS2[event]:
            _note(args[i])
