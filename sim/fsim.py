"""A simulated disk: Python file objects under one scratch directory are built on a raw layer that fails as told.

`Disk` is a context manager patching builtins.open / io.open / os.open / os.read / os.write / os.close / os.fdopen /
os.replace / os.rename / os.fsync for paths below its root only; everything else passes through.  The files themselves are real (native readers see them), so what is on them after a
fault is exactly what the raw layer let through.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

OPEN_ERRORS = [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO, errno.EROFS]


class Plan:
    """Faults of one simulated operation.  None = healthy."""

    def __init__(self, open_error=None, open_at=0, write_error=None, write_after=0, short=False, close_error=None,
                 read_error=None, read_after=0, chunk=None, rename_error=None, sync_error=None):
        self.open_error, self.open_at = open_error, open_at
        self.write_error, self.write_after = write_error, write_after
        self.short = short              # every raw write takes only part of the data
        self.close_error = close_error  # delayed write error reported by close, data after the last half lost
        self.read_error, self.read_after = read_error, read_after
        self.chunk = chunk              # at most so many bytes per raw read
        self.rename_error, self.sync_error = rename_error, sync_error


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode, fd=None):
        self.disk = disk
        self.plan = disk.plan
        self.path = path
        self.f = disk.real_open(path if fd is None else fd, mode if "b" in mode else mode + "b", buffering=0)
        self.written = 0
        self.got = 0
        self.calls = 0
        self.w = any(c in mode for c in "wax+")
        self.r = "r" in mode or "+" in mode

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, *a):
        return self.f.truncate(*a)

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        p = self.plan
        n = len(b) if p.chunk is None else min(len(b), p.chunk)
        if p.read_error is not None:
            if self.got >= p.read_after:
                self.disk.hit("read-error")
                raise OSError(p.read_error, os.strerror(p.read_error), self.path)
            n = min(n, p.read_after - self.got)
        data = self.f.read(n)
        b[:len(data)] = data
        self.got += len(data)
        if p.chunk is not None:
            self.disk.hit("short-read")
        return len(data)

    def write(self, b):
        p = self.plan
        b = bytes(b)
        n = len(b)
        if p.short and n > 1:
            n = max(1, n // 2)
            self.disk.hit("short-write")
        if p.write_error is not None:
            if self.written + n > p.write_after:
                n = p.write_after - self.written
                if n <= 0:
                    self.disk.hit("write-error")
                    raise OSError(p.write_error, os.strerror(p.write_error), self.path)
                self.disk.hit("torn-write")
        self.f.write(b[:n])
        self.written += n
        return n

    def close(self):
        if self.closed:
            return
        p = self.plan
        lose = self.w and p.close_error is not None
        if lose:
            size = self.f.seek(0, 2)
            self.f.truncate(size // 2)
            self.disk.hit("close-error")
        self.f.close()
        super().close()
        if lose:
            raise OSError(p.close_error, os.strerror(p.close_error), self.path)


class Desc:
    """A descriptor from os.open below the root: the same faults without Python's buffered layers."""

    def __init__(self, disk, fd, path, w):
        self.disk, self.plan, self.path, self.w = disk, disk.plan, path, w
        self.written = self.got = 0
        self.fd = fd

    write = lambda self, b: Raw.write(_Bridge(self), b)
    readinto = lambda self, b: Raw.readinto(_Bridge(self), b)


class _Bridge:
    """Raw's fault logic over a plain descriptor (counters live in the Desc)."""

    def __init__(self, d):
        object.__setattr__(self, "d", d)

    def __getattr__(self, k):
        if k == "f":
            return _Fd(self.d)
        return getattr(self.d, k)

    def __setattr__(self, k, v):
        setattr(self.d, k, v)


class _Fd:
    def __init__(self, d):
        self.d = d

    def write(self, b):
        return self.d.disk.saved["write"](self.d.fd, b)

    def read(self, n):
        return self.d.disk.saved["read"](self.d.fd, n)


class Disk:
    def __init__(self, sim):
        self.sim = sim
        self.plan = Plan()
        self.hits = []
        self.root = None
        self.opens = 0

    def hit(self, kind):
        self.hits.append(kind)
        if kind not in ("short-read",) or self.hits.count(kind) == 1:
            self.sim.fault(kind)

    def arm(self, plan=None):
        """Install the faults for the next operation."""
        self.plan = plan or Plan()
        self.hits = []
        self.opens = 0

    def path(self, name):
        return os.path.join(self.root, name)

    def _mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and (p == self.root or p.startswith(self.root + os.sep))

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if opener is not None and not isinstance(file, int) and self._mine(file):
            # the opener goes through the patched os.open (and its faults); its descriptor is wrapped below
            flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                     "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[[c for c in mode if c in "rwax"][0]]
            if "+" in mode:
                flags = flags & ~os.O_WRONLY | os.O_RDWR
            file, opener = opener(file, flags | os.O_CLOEXEC), None
        if isinstance(file, int) and file in self.fds:
            old = self.fds.pop(file)
            return self._layers(Raw(self, old.path, mode.replace("t", "").replace("U", ""), fd=file), mode, buffering, encoding, errors, newline)
        if isinstance(file, int) or opener is not None or not self._mine(file):
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self._opening(file)
        return self._layers(Raw(self, file, mode.replace("t", "").replace("U", "")), mode, buffering, encoding, errors, newline)

    def _opening(self, file):
        k = self.opens
        self.opens += 1
        if self.plan.open_error is not None and k == self.plan.open_at:
            self.hit("open-error")
            raise OSError(self.plan.open_error, os.strerror(self.plan.open_error), str(file))

    def _layers(self, raw, mode, buffering, encoding, errors, newline):
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if raw.r and raw.w:
            buf = io.BufferedRandom(raw, size)
        elif raw.w:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)

    def __enter__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="verif_disk_"))
        self.real_open = builtins.open
        self.fds = {}   # descriptors opened below the root with os.open
        self.saved = {n: getattr(os, n) for n in ("replace", "rename", "fsync", "open", "read", "write", "close", "fdopen")}
        builtins.open = self._open
        io.open = self._open

        def ren(name):
            real = self.saved[name]

            def fn(src, dst, **kw):
                if self._mine(dst) and self.plan.rename_error is not None:
                    self.hit("rename-error")
                    raise OSError(self.plan.rename_error, os.strerror(self.plan.rename_error), str(dst))
                return real(src, dst, **kw)
            return fn

        os.replace, os.rename = ren("replace"), ren("rename")
        real_sync = self.saved["fsync"]

        def fsync(fd):
            if self.plan.sync_error is not None:
                self.hit("sync-error")
                raise OSError(self.plan.sync_error, os.strerror(self.plan.sync_error))
            return real_sync(fd)

        os.fsync = fsync
        real = self.saved

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is not None or flags & os.O_DIRECTORY or not self._mine(path):
                return real["open"](path, flags, mode, dir_fd=dir_fd)
            self._opening(path)
            fd = real["open"](path, flags, mode)
            acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
            self.fds[fd] = Desc(self, fd, path, acc != os.O_RDONLY)
            return fd

        def os_close(fd):
            d = self.fds.pop(fd, None)
            if d is None:
                return real["close"](fd)
            lose = d.w and d.plan.close_error is not None
            if lose:
                os.ftruncate(fd, os.fstat(fd).st_size // 2)
                self.hit("close-error")
            real["close"](fd)
            if lose:
                raise OSError(d.plan.close_error, os.strerror(d.plan.close_error), str(d.path))

        def os_write(fd, data):
            d = self.fds.get(fd)
            return real["write"](fd, data) if d is None else d.write(data)

        def os_read(fd, n):
            d = self.fds.get(fd)
            if d is None:
                return real["read"](fd, n)
            b = bytearray(n)
            return bytes(b[:d.readinto(b)])

        def os_fdopen(fd, mode="r", buffering=-1, encoding=None, *args, **kw):
            return self._open(fd, mode, buffering, encoding, *args, **kw)

        os.open, os.close, os.write, os.read, os.fdopen = os_open, os_close, os_write, os_read, os_fdopen
        return self

    def __exit__(self, *exc):
        builtins.open = self.real_open
        io.open = self.real_open
        for n, f in self.saved.items():
            setattr(os, n, f)
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    # harness-side access, never faulty
    def read(self, name):
        with self.real_open(self.path(name), "rb") as f:
            return f.read()

    def write(self, name, data):
        with self.real_open(self.path(name), "wb") as f:
            f.write(data)
