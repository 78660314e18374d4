"""File operations of the code under test, below one scratch directory, with faults at chosen calls.

The replacement of `open` builds the usual stack (text wrapper, buffer, raw file); only the raw file is
simulated: a real file of the scratch directory whose calls are counted, shortened, refused or cut off."""
import builtins
import errno
import io
import os
import resource
import time

from .base import rng_of

CODES = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}


class Crash(BaseException):
    """The program is cut off here."""


class SimDisk:
    """fault: None or [call kind, n, code]: the n-th call of that kind fails; kind `any` with code `crash`: cut off at the n-th call of all.
    short: longest transfer of one raw call; room: bytes that can be written at all; buf: size of the buffers."""

    def __init__(self, root, seed, fault=None, short=None, room=None, buf=None, stdout=None):
        self.root = os.path.realpath(root)
        self.rng = rng_of("disk", seed)
        self.fault, self.short, self.room, self.buf = fault, short, room, buf
        self.count = {}
        self.total = 0
        self.hit = []
        self.written = {}       # path -> bytes already there when it was opened (what a crash may fall back to)
        self.dead = False
        self.live = []

    def mine(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.realpath(os.fspath(path))
        except (TypeError, ValueError):
            return False
        return isinstance(p, str) and (p == self.root or p.startswith(self.root + os.sep))

    def call(self, kind, path):
        """account for one call; raises the fault that is due"""
        if self.dead:
            raise Crash()
        n = self.count[kind] = self.count.get(kind, 0) + 1
        self.total += 1
        f = self.fault
        if f is None:
            return
        if f[2] == "crash":
            if self.total == f[1]:
                self.hit.append("crash")
                self.dead = True
                raise Crash()
        elif f[0] == kind and (n == f[1] or (f[3] and n > f[1])):
            self.hit.append(f"{kind}_{f[2]}")
            raise OSError(CODES[f[2]], os.strerror(CODES[f[2]]), os.path.basename(str(path)))

    def space(self, n):
        if self.room is None:
            return n
        k = min(n, self.room)
        self.room -= k
        if n and not k:
            self.hit.append("disk_full")
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return k

    def power_off(self):
        """what was written without a sync survives only as a prefix"""
        for r in self.live:
            try:
                io.FileIO.close(r)
            except (OSError, ValueError):
                pass
        for p in sorted(self.written):
            if os.path.isfile(p):
                size = os.path.getsize(p)
                if size and self.rng.random() < 0.6:
                    os.truncate(p, self.rng.randrange(size))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file) or opener is not None:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = os.path.realpath(os.fspath(file))
        self.call("open", p)
        text = "b" not in mode
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        raw = SimRaw(self, p, rawmode)
        if not text and buffering == 0:
            return raw
        size = self.buf or (buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "+" in rawmode:
            b = io.BufferedRandom(raw, size)
        elif rawmode == "r":
            b = io.BufferedReader(raw, size)
        else:
            b = io.BufferedWriter(raw, size)
        if not text:
            return b
        t = io.TextIOWrapper(b, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def __enter__(self):
        self.real = builtins.open
        self.old = {}
        disk = self

        def put(mod, name, f):
            self.old[(mod, name)] = getattr(mod, name)
            setattr(mod, name, f)

        def guard(mod, name, kind, paths):
            f = getattr(mod, name)

            def g(*a, **k):
                ps = [x for x in a[:paths] if not isinstance(x, int) and disk.mine(x)]
                if ps:
                    disk.call(kind, ps[0])
                    if kind == "replace":
                        disk.written[os.path.realpath(os.fspath(a[1]))] = 0
                return f(*a, **k)
            put(mod, name, g)
        put(builtins, "open", self.open)
        put(io, "open", self.open)
        guard(os, "replace", "replace", 2)
        guard(os, "rename", "replace", 2)
        guard(os, "mkdir", "mkdir", 1)
        guard(os, "remove", "remove", 1)
        guard(os, "unlink", "remove", 1)
        fsync = os.fsync

        def sync(fd):
            r = next((r for r in disk.live if not r.closed and (r is fd or fd == r.fileno())), None)
            if r is None:
                return fsync(fd)
            disk.call("sync", r.path)
            disk.written.pop(r.path, None)
        put(os, "fsync", sync)
        return self

    def __exit__(self, *a):
        for (mod, name), f in self.old.items():
            setattr(mod, name, f)
        return False


class SimRaw(io.FileIO):

    def __init__(self, disk, path, mode):
        super().__init__(path, mode)
        self.disk, self.path = disk, path
        disk.live.append(self)
        if mode != "r":
            disk.written[path] = 0

    def _cut(self, n):
        s = self.disk.short
        return n if s is None or n <= 1 else max(1, min(n, self.disk.rng.randrange(1, s + 1)))

    def write(self, b):
        self.disk.call("write", self.path)
        b = memoryview(b).cast("B")
        n = self.disk.space(self._cut(len(b)))
        return super().write(b[:n])

    def readinto(self, b):
        self.disk.call("read", self.path)
        b = memoryview(b).cast("B")
        return super().readinto(b[:self._cut(len(b))])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self.disk.call("read", self.path)
        return super().read(self._cut(size))

    def readall(self):
        out = []
        while True:
            self.disk.call("read", self.path)
            c = super().read(self._cut(4096))
            if not c:
                return b"".join(out)
            out.append(c)

    def truncate(self, size=None):
        self.disk.call("truncate", self.path)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        w = self.writable()
        if self.disk.dead:
            super().close()
            return
        try:
            self.disk.call("close", self.path)
        except OSError:
            # a delayed write failed: the end of the file never got to the disk
            size = os.fstat(self.fileno()).st_size
            if w and size:
                os.truncate(self.path, self.disk.rng.randrange(size))
            super().close()
            raise
        except Crash:
            super().close()
            raise
        super().close()


class size_limit:
    """No file may grow beyond `n` bytes: a fault that native writers (which pass by the raw files above) meet as well."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        if self.n is not None:
            self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))    # SIGXFSZ is ignored by the interpreter
        return self

    def __exit__(self, *a):
        if self.n is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.old)
        return False


class wall_clock:
    """time.time and time.time_ns come from a simulated clock"""

    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        self.old = time.time, time.time_ns
        time.time_ns = self.clock.get_time_ns
        time.time = lambda: self.clock.get_time_ns() / 1e9
        return self

    def __exit__(self, *a):
        time.time, time.time_ns = self.old
        return False
