"""Simulated storage: a scratch directory whose writes fail on command.

``open`` for writing below the root returns ordinary Python file objects (same
buffering and flushing rules) whose lowest layer consults the plan at every system
call: fail the open, fail the write (ENOSPC/EIO), write only half of it and fail the
next one, or write it short (legal, must be retried by the caller).  What is on disk at
any instant is what really sits in the files below the root: data still in a Python
buffer is lost in a crash.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

_real_open = io.open
_real = dict(makedirs=os.makedirs, mkdir=os.mkdir, replace=os.replace, rename=os.rename)
_fs = None
_installed = False


class FS:
    def __init__(self, faults=(), on_fault=None, on_op=None):
        self.root = tempfile.mkdtemp(prefix="fs", dir=os.environ.get("SIM_SCRATCH") or None)
        self.plan = {int(i): k for i, k in faults}
        self.n = 0
        self.fired = []
        self.on_fault = on_fault
        self.on_op = on_op
        self.pending_fail = None
        self.gen = 0                       # process generation

    def kill(self):
        """The process dies: nothing its open files still hold reaches the disk."""
        self.gen += 1

    def __enter__(self):
        global _fs
        _fs = self
        return self

    def __exit__(self, *a):
        global _fs
        _fs = None
        shutil.rmtree(self.root, ignore_errors=True)

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep) or os.path.abspath(p) == self.root

    def _fire(self, kind, what):
        self.fired.append((kind, what))
        if self.on_fault:
            self.on_fault(kind, what)

    def op(self, what):
        """Count an operation; returns the fault kind decided for it."""
        i = self.n
        self.n += 1
        if self.on_op:
            self.on_op(what)
        if self.pending_fail:
            k, self.pending_fail = self.pending_fail, None
            return k
        return self.plan.get(i)

    def meta(self, what, path):
        k = self.op(what)
        if k in ("enospc", "torn"):
            self._fire("enospc", what)
            raise OSError(errno.ENOSPC, "injected: no space left on device", os.fspath(path))
        if k in ("eio",):
            self._fire("eio", what)
            raise OSError(errno.EIO, "injected: input/output error", os.fspath(path))


class SimRaw(io.FileIO):
    def __init__(self, path, mode, fs):
        super().__init__(path, mode)
        self._fs = fs
        self._gen = fs.gen

    def write(self, b):
        fs = self._fs
        if fs is not _fs:                  # the simulation it belongs to is over
            return super().write(b)
        if self._gen != fs.gen:            # left over from a crashed process
            return len(memoryview(b).cast("B"))
        k = fs.op("write")
        n = len(memoryview(b).cast("B")) if not isinstance(b, (bytes, bytearray)) else len(b)
        if k == "enospc":
            fs._fire(k, "write")
            raise OSError(errno.ENOSPC, "injected: no space left on device")
        if k == "eio":
            fs._fire(k, "write")
            raise OSError(errno.EIO, "injected: input/output error")
        if k == "torn" and n > 1:          # half of it reaches the disk, the rest fails
            fs._fire(k, "write")
            fs.pending_fail = "enospc"
            return super().write(bytes(b)[: n // 2])
        if k == "short" and n > 1:
            fs._fire(k, "write")
            return super().write(bytes(b)[: (n + 1) // 2])
        return super().write(b)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    fs = _fs
    if fs is None or isinstance(file, int) or opener is not None or not fs.covers(file) \
            or not any(c in mode for c in "wax+"):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    fs.meta("open", file)
    raw_mode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(os.fspath(file), raw_mode, fs)
    if "b" in mode and buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    else:
        buf = io.BufferedWriter(raw, 8192 if buffering in (-1, 1) else buffering)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline,
                         line_buffering=buffering == 1)
    t.mode = mode
    return t


def _wrap_os(name):
    orig = _real[name]

    def f(path, *a, **k):
        fs = _fs
        if fs is not None and fs.covers(path):
            fs.meta(name, path)
        return orig(path, *a, **k)
    f.__name__ = name
    return f


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.makedirs = _wrap_os("makedirs")
    os.replace = _wrap_os("replace")
    os.rename = _wrap_os("rename")


def read(path):
    try:
        with _real_open(path, "rb") as f:
            return f.read()
    except OSError:
        return None
