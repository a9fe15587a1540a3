"""Storage with faults.  Files live in a scratch directory; every file that is opened below it goes through a raw
stream of the simulator, under Python's real buffering: short writes and reads, ENOSPC, EIO on open, write, read,
close, rename and sync, and a crash after which nothing more reaches the disk and only a prefix of the data written
so far survives."""
import builtins
import errno
import io
import os
import shutil
import tempfile

from .core import SimCrash

_real_io_open, _real_open = io.open, builtins.open
_real = {n: getattr(os, n) for n in ("replace", "rename", "fsync")}


class SimFS:
    """plan: {"open": k | None, "write": {"at": byte, "kind": "enospc"|"eio"|"eintr"|"crash", "once": bool}, "read_at": byte, "close": bool,
    "short": max bytes per raw write, "short_read": n, "rename": bool, "sync": bool}"""

    def __init__(self, run, rng):
        self.run, self.rng = run, rng
        self.plan = {}
        self.root = None
        self.dead = False
        self.written = 0
        self.read = 0
        self.fired = []
        self.files = []
        self.opened = []

    def __enter__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simfs-"))
        io.open = builtins.open = self._open
        os.replace = lambda a, b, **k: self._move("replace", a, b, **k)
        os.rename = lambda a, b, **k: self._move("rename", a, b, **k)
        os.fsync = self._fsync
        return self

    def __exit__(self, *exc):
        io.open, builtins.open = _real_io_open, _real_open
        for n in ("replace", "rename", "fsync"):
            setattr(os, n, _real[n])
        for f in self.files:
            f.quiet()
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    def arm(self, **plan):
        self.plan = plan
        self.written = self.read = 0
        self.fired = []
        self.opened = []

    def disarm(self):
        self.plan = {}

    def fire(self, kind):
        self.fired.append(kind)
        self.run.fault("disk_" + kind)

    def inside(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.root + os.sep)

    def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not self.inside(file):
            return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.dead:
            raise SimCrash()
        self.opened.append((str(file), mode))
        if self.plan.get("open"):
            self.fire("open_" + self.plan["open"])
            raise OSError({"eio": errno.EIO, "enospc": errno.ENOSPC, "perm": errno.EACCES}[self.plan["open"]], "injected", str(file))
        binary = "b" in mode
        raw = Raw(self, file, mode.replace("b", "").replace("t", ""))
        self.files.append(raw)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if raw.updating:
            buf = io.BufferedRandom(raw, size)
        elif raw.writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        return buf if binary else io.TextIOWrapper(buf, encoding, errors, newline)

    def _move(self, name, a, b, **k):
        if self.inside(a) or self.inside(b):
            if self.dead:
                raise SimCrash()
            if self.plan.get("rename"):
                self.fire("rename_eio")
                raise OSError(errno.EIO, "injected", str(b))
        return _real[name](a, b, **k)

    def _fsync(self, fd):
        if self.dead:
            raise SimCrash()
        return _real["fsync"](fd)

    def crash(self):
        """The machine stops: what is in flight is gone, each file keeps a prefix of what was written since open."""
        self.dead = True
        self.fire("crash")
        raise SimCrash()

    def restart(self):
        """Power is back: cut the files that were being written."""
        for f in self.files:
            f.settle()
        self.files = []
        self.dead = False


class Raw(io.RawIOBase):
    def __init__(self, fs, path, mode):
        self.fs, self.path = fs, path
        self.updating = "+" in mode
        self.writing = "w" in mode or "a" in mode or "x" in mode or self.updating
        self.f = _real_io_open(path, mode + "b", 0)
        self.mode_ = mode
        self.wrote = 0
        self.closed_ok = False

    name = property(lambda self: str(self.path))

    def readable(self):
        return not self.writing or self.updating

    def writable(self):
        return self.writing

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self.f.seek(pos, whence)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        return self.f.truncate(size)

    def fileno(self):
        return self.f.fileno()

    def write(self, b):
        b = bytes(b)
        fs = self.fs
        if fs.dead:
            return len(b)  # nobody is there any more to see it fail
        if not b:
            return 0
        plan = fs.plan
        n = len(b)
        if plan.get("short"):
            n = min(n, 1 + fs.rng.randrange(plan["short"]))
        w = plan.get("write")
        if w is not None:
            room = w["at"] - fs.written
            if room <= 0:
                if w["kind"] == "crash":
                    fs.crash()
                fs.fire(w["kind"])
                if w.get("once"):
                    fs.plan = {k: v for k, v in plan.items() if k != "write"}
                if w["kind"] == "eintr":
                    raise InterruptedError(errno.EINTR, "injected")
                raise OSError(errno.ENOSPC if w["kind"] == "enospc" else errno.EIO, "injected")
            n = min(n, room)
        if n < len(b):
            fs.run.fault("disk_short_write")
        self.f.write(b[:n])
        fs.written += n
        self.wrote += n
        return n

    def readinto(self, buf):
        fs = self.fs
        if fs.dead:
            raise SimCrash()
        plan = fs.plan
        n = len(buf)
        at = plan.get("read_at")
        if at is not None:
            room = at - fs.read
            if room <= 0:
                fs.fire("read_eio")
                raise OSError(errno.EIO, "injected")
            n = min(n, room)
        if plan.get("short_read"):
            n = min(n, 1 + fs.rng.randrange(plan["short_read"]))
            fs.run.fault("disk_short_read")
        data = self.f.read(n)
        buf[:len(data)] = data
        fs.read += len(data)
        return len(data)

    def close(self):
        if self.closed:
            return
        fs = self.fs
        bad = fs.plan.get("close") and not fs.dead and not self.closed_ok
        self.closed_ok = True
        try:
            super().close()
        finally:
            self.f.close()
        if bad:
            fs.fire("close_eio")
            raise OSError(errno.EIO, "injected")
        if not fs.dead and self in fs.files:
            fs.files.remove(self)  # a closed file survives the death of the process

    def quiet(self):
        self.closed_ok = True
        try:
            self.f.close()
        except OSError:
            pass

    def settle(self):
        if self.writing and os.path.exists(self.path) and self.wrote:
            size = os.path.getsize(self.path)
            keep = size if self.fs.rng.random() < 0.4 else self.fs.rng.randrange(size + 1)
            with _real_io_open(self.path, "r+b") as f:
                f.truncate(keep)
        self.quiet()
