"""A simulated disk: files below one directory whose I/O fails as the case says.

Files are real files in a scratch directory, but every open, read, write and close of
them goes through this module, which fails, shortens or delays them as the case says.
Nothing outside the directory is touched.
"""
from __future__ import annotations

import builtins
import errno
import io
import os

ERRNO = {
    "no space": errno.ENOSPC, "i/o error": errno.EIO, "quota": errno.EDQUOT,
    "too many files": errno.EMFILE, "permission": errno.EACCES, "read-only": errno.EROFS,
}
KINDS = ["open", "write", "close", "read", "short-write", "short-read"]


def gen_fault(rng, kinds=("open", "write", "write", "close", "short-write")):
    k = rng.choice(kinds)
    if k == "open":
        return [k, rng.randrange(2), rng.choice(["permission", "read-only", "too many files", "i/o error", "no space", "memory"])]
    if k == "write":
        return [k, rng.choice([0, 1, 10, 40, 100, 300, rng.randrange(3000)]), rng.choice(["no space", "i/o error", "quota"])]
    if k == "close":
        return [k, rng.randrange(2), rng.choice(["quota", "i/o error", "no space"])]
    if k == "read":
        return [k, rng.choice([0, 1, 10, 40, 100, 300, rng.randrange(3000)]), "i/o error"]
    return [k, rng.choice([1, 2, 7, 64]), ""]


class Disk:
    """Context manager: the given fault may strike while it is active."""

    def __init__(self, root, fault=None):
        self.root = os.path.realpath(root) + os.sep
        self.fault = fault
        self.fired = None
        self.opens = 0
        self.closes = 0
        self.written = 0
        self.read = 0
        self.short = 0

    # -- what the fault does ------------------------------------------------
    def _fail(self, what):
        kind = self.fault[2]
        self.fired = f"{what}: {kind}"
        if kind == "memory":
            raise MemoryError("injected")
        raise OSError(ERRNO[kind], "injected " + kind)

    def on_open(self):
        self.opens += 1
        if self.fault and self.fault[0] == "open" and self.opens == self.fault[1] + 1:
            self._fail("open")

    def on_write(self, n):
        """How many of n bytes can be written."""
        f = self.fault
        if f and f[0] == "write":
            room = f[1] - self.written
            if room <= 0 and n:
                self._fail("write")
            n = min(n, room)
        if f and f[0] == "short-write" and n > f[1]:
            self.short += 1
            n = f[1]
        self.written += n
        return n

    def on_read(self, n):
        f = self.fault
        if f and f[0] == "read":
            room = f[1] - self.read
            if room <= 0:
                self._fail("read")
            n = min(n, room)
        if f and f[0] == "short-read" and n > f[1]:
            self.short += 1
            n = f[1]
        return n

    def on_close(self, writing):
        if not writing:
            return
        self.closes += 1
        if self.fault and self.fault[0] == "close" and self.closes == self.fault[1] + 1:
            self._fail("close")

    # -- the seam -----------------------------------------------------------
    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            path = os.path.realpath(os.fsdecode(file)) if not isinstance(file, int) else None
        except TypeError:
            path = None
        if path is None or not path.startswith(self.root) or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if os.path.isdir(path):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.on_open()
        plain = mode.replace("b", "").replace("t", "")
        raw = _Raw(self, path, plain)
        if "+" in plain:
            buf = io.BufferedRandom(raw)
        elif plain[0] == "r":
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if "b" in mode:
            return raw if buffering == 0 else buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    def __enter__(self):
        self.real = io.open
        builtins.open = io.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real
        return False


class _Raw(io.FileIO):
    def __init__(self, disk, path, mode):
        super().__init__(path, mode)
        self.disk = disk
        self.writing = mode[0] != "r" or "+" in mode

    def write(self, b):
        data = bytes(b)
        return super().write(data[: self.disk.on_write(len(data))])

    def readinto(self, b):
        m = memoryview(b)
        n = super().readinto(m[: self.disk.on_read(len(m))])
        self.disk.read += n or 0
        return n

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        data = super().read(self.disk.on_read(size))
        self.disk.read += len(data or b"")
        return data

    def readall(self):
        out = b""
        while True:
            chunk = self.read(65536)
            if not chunk:
                return out
            out += chunk

    def close(self):
        if self.closed:
            return
        super().close()
        self.disk.on_close(self.writing)
