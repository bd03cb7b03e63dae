"""
A simulated file system.

Everything below the virtual root and below the mounted (read only) roots is
served from memory; the real ``BufferedReader``/``BufferedWriter`` and
``TextIOWrapper`` run on top of a simulated raw file, so that short and
interrupted transfers, full disks, I/O errors at open, read, write and close,
torn and lost writes and crashes meet the library where a kernel would hand
them to it. Faults are armed per operation: ``{"op", "n", "kind", "keep"}``
strikes the n-th matching operation after arming.
"""

import builtins
import errno
import io
import os
import posixpath
import random
import stat as statmod

from sim.core import HarnessError, SimCrash

FD0 = 1 << 20

_real = {
    "open": io.open, "os.open": os.open, "close": os.close,
    "read": os.read, "write": os.write, "fsync": os.fsync,
    "stat": os.stat, "lstat": os.lstat, "fstat": os.fstat,
    "listdir": os.listdir, "scandir": os.scandir, "remove": os.remove,
    "rename": os.rename, "replace": os.replace, "mkdir": os.mkdir,
    "access": os.access, "rmdir": os.rmdir, "lseek": os.lseek,
    "ftruncate": os.ftruncate, "truncate": os.truncate, "chmod": os.chmod,
    "utime": os.utime,
}


class Dir(list):
    pass


class Entry:
    """What scandir yields."""

    def __init__(self, fs, directory, name):
        self.fs, self.name = fs, name
        self.path = posixpath.join(directory, name)

    def __fspath__(self):
        return self.path

    def is_dir(self, follow_symlinks=True):
        return self.fs.is_dir(self.path)

    def is_file(self, follow_symlinks=True):
        return not self.is_dir()

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self.fs.stat(self.path)

    def inode(self):
        return 1


class Scan:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Raw(io.RawIOBase):
    """An open simulated file."""

    def __init__(self, fs, path, read, write, append):
        super().__init__()
        self.fs, self.name = fs, path
        self._r, self._w, self._a = read, write, append
        self.pos = 0
        self.generation = fs.generation
        self.mode = "rb+" if read and write else "wb" if write else "rb"
        fs.handles.add(self)

    def _alive(self):
        return not self.fs.dead and self.generation == self.fs.generation

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        size = len(self.fs.content(self.name))
        self.pos = offset + (0, self.pos, size)[whence]
        return self.pos

    def truncate(self, size=None):
        if self._alive():
            size = self.pos if size is None else size
            self.fs.op("write", self.name)
            data = self.fs.own(self.name)
            del data[size:]
            data.extend(b"\0" * (size - len(data)))
        return size

    def readinto(self, buffer):
        if not self._alive():
            return 0
        data = self.fs.content(self.name)
        want = min(len(buffer), max(0, len(data) - self.pos))
        want = self.fs.transfer("read", self.name, want)
        buffer[:want] = data[self.pos:self.pos + want]
        self.pos += want
        return want

    def write(self, b):
        b = bytes(b)
        if not self._alive():
            return len(b)
        n = self.fs.transfer("write", self.name, len(b), self, b)
        self.put(b[:n])
        return n

    def put(self, b):
        data = self.fs.own(self.name)
        if self._a:
            self.pos = len(data)
        if self.pos > len(data):
            data.extend(b"\0" * (self.pos - len(data)))
        data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def close(self):
        if self.closed:
            return
        super().close()
        self.fs.handles.discard(self)
        if self._alive():
            self.fs.op("close", self.name, writer=self._w)


class SimFS:
    ROOT = "/sim"

    def __init__(self, ctx, seed, mounts=()):
        self.ctx = ctx
        self.rng = random.Random("fs/%s" % seed)
        self.mounts = tuple(mounts)
        self.files = {}         # what the running system sees
        self.durable = {}       # what is on the platter
        self.dirs = {self.ROOT}
        self.changed = set()
        self.handles = set()
        self.fds = {}
        self.generation = 0
        self.dead = False
        self.split = 0
        self.eintr = 0.0
        self.capacity = None
        self.order = None
        self.encoding = "utf-8"     # the locale's
        self.armed = []
        self.seen = {}
        self.sticky = {}
        self.struck = []
        self.totals = {}

    # --- faults -------------------------------------------------------------
    def arm(self, faults):
        self.armed = [dict(f) for f in faults]
        self.seen = {}
        self.sticky = {}
        self.struck = []

    def disarm(self):
        struck, self.struck = self.struck, []
        self.armed, self.sticky, self.seen = [], {}, {}
        return struck

    def strike(self, f, path):
        self.struck.append(f["op"] + "-" + f["kind"])
        self.ctx.fault("%s-%s" % (f["op"], f["kind"]))

    def error(self, kind, path):
        raise OSError(getattr(errno, kind), os.strerror(
            getattr(errno, kind)), path)

    def due(self, op, path):
        """The armed fault that strikes this operation."""
        n = self.seen[op] = self.seen.get(op, 0) + 1
        a = self.seen["any"] = self.seen.get("any", 0) + 1
        self.totals[op] = self.totals.get(op, 0) + 1
        for f in self.armed:
            if (f["op"] == op and f["n"] == n) or \
                    (f["op"] == "any" and f["n"] == a):
                self.strike(f, path)
                return f
        return None

    def crash(self, f):
        """The machine stops here. Only what is durable survives."""
        self.dead = True
        self.power = f["kind"] == "power"
        self.torn = f.get("keep", 0.5)
        raise SimCrash("storage crash")

    def restart(self):
        """Come back up after a crash."""
        if not self.dead:
            raise HarnessError("nothing to restart")
        if self.power:
            files = {}
            for p in sorted(set(self.files) | set(self.durable)):
                live, old = self.files.get(p), self.durable.get(p)
                if p not in self.changed:
                    if live is not None:
                        files[p] = live
                    continue
                how = self.rng.choice(["all", "old", "empty", "prefix",
                                       "page", "gone"])
                if how == "all" or live is None:
                    data = live
                elif how == "old":
                    data = old
                elif how == "empty":
                    data = b""
                elif how == "prefix":
                    data = live[:int(self.torn * len(live))]
                elif how == "page":         # a page that was never written
                    data = bytearray(live)
                    at = int(self.torn * len(live)) // 64 * 64
                    data[at:at + 64] = b"\0" * len(data[at:at + 64])
                else:
                    data = old
                if data is not None:
                    files[p] = bytearray(data)
            self.files = files
        self.sync()
        self.dead = False
        self.generation += 1
        self.handles.clear()
        self.fds.clear()

    def sync(self):
        self.durable = {p: bytes(b) for p, b in self.files.items()}
        self.changed = set()

    def op(self, op, path, writer=False):
        if self.dead:
            return None
        f = self.due(op, path)
        if op in self.sticky:
            self.error(self.sticky[op], path)
        if f is None:
            return None
        if f["kind"] in ("kill", "power"):
            self.crash(f)
        if f["kind"] == "EINTR":
            return f
        if f["kind"] == "interrupt":        # of the caller, not the machine
            raise SimCrash("interrupted")
        self.error(f["kind"], path)

    def transfer(self, op, path, n, raw=None, data=None):
        """How many of n bytes this read or write moves."""
        f = self.due(op, path)
        if op in self.sticky:
            self.error(self.sticky[op], path)
        if f is not None:
            part = int(f.get("keep", 0.5) * n)
            if f["kind"] in ("kill", "power"):
                if data is not None:
                    raw.put(data[:part])
                self.crash(f)
            if f["kind"] == "interrupt":
                raise SimCrash("interrupted")
            if f["kind"] == "short":
                return max(1, part) if n else 0
            if f["kind"] == "EINTR":
                raise InterruptedError(errno.EINTR, "Interrupted")
            if f.get("sticky", True):
                self.sticky[op] = f["kind"]
            if data is not None and part:
                return part                 # the next write reports it
            self.error(f["kind"], path)
        if self.eintr and self.rng.random() < self.eintr:
            self.ctx.fault(op + "-EINTR")
            raise InterruptedError(errno.EINTR, "Interrupted")
        if op == "write" and self.capacity is not None:
            room = self.capacity - sum(len(b) for b in self.files.values())
            if room < n:
                self.ctx.fault("write-full-disk")
                self.struck.append("write-full-disk")
                if room <= 0:
                    self.error("ENOSPC", path)
                n = room
        if self.split and n > 1:
            k = self.rng.randint(1, self.split)
            if k < n:
                self.ctx.fault(op + "-short")
                n = k
        return n

    # --- the tree -----------------------------------------------------------
    def mine(self, path):
        if isinstance(path, int) or path is None:
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            return None
        p = posixpath.normpath(p)
        for r in (self.ROOT,) + self.mounts:
            if p == r or p.startswith(r + "/"):
                return p
        return None

    def mounted(self, p):
        return not (p == self.ROOT or p.startswith(self.ROOT + "/"))

    def mkdir(self, path):
        p = posixpath.normpath(path)
        while p not in ("/", ""):
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def put(self, path, data):
        """Lay a file (by the simulator itself, durably)."""
        if isinstance(data, str):
            data = data.encode("utf-8")
        self.mkdir(posixpath.dirname(path))
        self.files[path] = bytearray(data)
        self.durable[path] = bytes(data)

    def exists(self, p):
        if p in self.files or self.is_dir(p):
            return True
        return self.mounted(p) and self.real_file(p)

    def real_file(self, p):
        try:
            return statmod.S_ISREG(_real["stat"](p).st_mode)
        except OSError:
            return False

    def is_dir(self, p):
        p = posixpath.normpath(p)
        if p in self.dirs:
            return True
        if self.mounted(p) and p not in self.files:
            try:
                return statmod.S_ISDIR(_real["stat"](p).st_mode)
            except OSError:
                return False
        return False

    def content(self, p):
        if p not in self.files:
            if self.mounted(p) and self.real_file(p):
                with _real["open"](p, "rb") as f:
                    return f.read()
            return b""
        return self.files[p]

    def own(self, p):
        if self.mounted(p):
            raise HarnessError("a write below a mounted root: " + p)
        self.changed.add(p)
        return self.files.setdefault(p, bytearray())

    def names(self, directory):
        d = posixpath.normpath(directory)
        out = {posixpath.basename(p) for p in list(self.files) +
               list(self.dirs) if posixpath.dirname(p) == d}
        if self.mounted(d):
            out |= set(_real["listdir"](d))
        out = sorted(out)
        if self.order is not None:
            random.Random("%s/%s" % (self.order, d)).shuffle(out)
            self.ctx.fault("list-permuted")
        return out

    def snapshot(self):
        return {p: bytes(b) for p, b in self.files.items()}

    # --- the calls ----------------------------------------------------------
    def open_raw(self, p, read, write, append, trunc, create, excl):
        self.op("open", p)
        if self.is_dir(p):
            self.error("EISDIR", p)
        if not self.exists(p):
            if not create:
                self.error("ENOENT", p)
            if not self.is_dir(posixpath.dirname(p)):
                self.error("ENOENT", p)
            self.own(p)
        elif excl:
            self.error("EEXIST", p)
        if write and self.mounted(p):
            raise HarnessError("a write below a mounted root: " + p)
        if trunc:
            del self.own(p)[:]
        raw = Raw(self, p, read, write, append)
        if append:
            raw.pos = len(self.content(p))
        return raw

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if isinstance(file, int) and file in self.fds:
            raw = self.fds[file]
        else:
            p = self.mine(file)
            if p is None:
                return _real["open"](file, mode, buffering, encoding, errors,
                                     newline, closefd, opener)
            base = mode.replace("b", "").replace("t", "")
            kind, plus = base[0], "+" in base
            if opener is not None:
                flags = {"r": os.O_RDONLY, "w": os.O_CREAT | os.O_TRUNC,
                         "a": os.O_CREAT | os.O_APPEND,
                         "x": os.O_CREAT | os.O_EXCL}[kind]
                flags |= os.O_RDWR if plus else \
                    os.O_RDONLY if kind == "r" else os.O_WRONLY
                raw = self.fds[opener(file, flags)]
            else:
                raw = self.open_raw(p, kind == "r" or plus,
                                    kind != "r" or plus, kind == "a",
                                    kind == "w", kind != "r", kind == "x")
        if buffering == 0:
            return raw
        if raw._r and raw._w:
            buf = io.BufferedRandom(raw, *([buffering] if buffering > 1
                                           else []))
        else:
            buf = (io.BufferedWriter if raw._w else io.BufferedReader)(
                raw, *([buffering] if buffering > 1 else []))
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, self.encoding
                             if encoding in (None, "locale") else encoding, errors, newline,
                             line_buffering=buffering == 1)
        t.mode = mode
        return t

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        raw = self.open_raw(p, acc != os.O_WRONLY, acc != os.O_RDONLY,
                            bool(flags & os.O_APPEND),
                            bool(flags & os.O_TRUNC),
                            bool(flags & os.O_CREAT),
                            bool(flags & os.O_EXCL))
        fd = FD0 + len(self.fds)
        raw.fileno = lambda: fd
        self.fds[fd] = raw
        return fd

    def stat(self, path, *, dir_fd=None, follow_symlinks=True, name="stat"):
        if isinstance(path, int) and path in self.fds:
            p = self.fds[path].name
        else:
            p = self.mine(path)
            if p is None:
                if name == "lstat":
                    return _real[name](path, dir_fd=dir_fd)
                return _real[name](path, dir_fd=dir_fd,
                                   follow_symlinks=follow_symlinks)
        self.op("stat", p)
        if not self.exists(p):
            self.error("ENOENT", p)
        if self.is_dir(p):
            mode, size = statmod.S_IFDIR | 0o755, 4096
        else:
            mode, size = statmod.S_IFREG | 0o644, len(self.content(p))
        return os.stat_result((mode, 1, 1, 1, 0, 0, size, 0, 0, 0))

    def listdir(self, path="."):
        p = self.mine(path)
        if p is None:
            return _real["listdir"](path)
        self.op("list", p)
        if not self.is_dir(p):
            self.error("ENOTDIR" if self.exists(p) else "ENOENT", p)
        return self.names(p)

    def scandir(self, path="."):
        p = self.mine(path)
        if p is None:
            return _real["scandir"](path)
        self.op("list", p)
        if not self.is_dir(p):
            self.error("ENOTDIR" if self.exists(p) else "ENOENT", p)
        return Scan([Entry(self, p, n) for n in self.names(p)])

    def remove(self, path, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return _real["remove"](path, dir_fd=dir_fd)
        self.op("remove", p)
        if p not in self.files:
            self.error("ENOENT", p)
        del self.files[p]
        self.changed.add(p)

    def rename(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        a, b = self.mine(src), self.mine(dst)
        if a is None and b is None:
            return _real["rename"](src, dst)
        self.op("rename", a or b)
        if a is None or b is None:
            self.error("EXDEV", str(src))
        if a not in self.files:
            self.error("ENOENT", a)
        self.files[b] = self.files.pop(a)
        self.changed |= {a, b}

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        p = self.mine(path)
        if p is None:
            return _real["mkdir"](path, mode, dir_fd=dir_fd)
        self.op("mkdir", p)
        if self.exists(p):
            self.error("EEXIST", p)
        self.dirs.add(p)

    def access(self, path, mode, **kw):
        p = self.mine(path)
        if p is None:
            return _real["access"](path, mode, **kw)
        return self.exists(p)

    def fd_call(self, name, do):
        real = _real[name]

        def call(fd, *a):
            if isinstance(fd, int) and fd in self.fds:
                return do(self.fds[fd], *a)
            return real(fd, *a)
        return call

    def fsync(self, raw):
        self.op("fsync", raw.name)
        if not self.dead:
            self.durable[raw.name] = bytes(self.files[raw.name])
            self.changed.discard(raw.name)

    def install(self):
        """From here on, the library's files are simulated ones."""
        builtins.open = self.open
        io.open = self.open
        os.open = self.os_open
        os.stat = self.stat
        os.lstat = lambda path, *, dir_fd=None: self.stat(
            path, dir_fd=dir_fd, name="lstat")
        os.listdir = self.listdir
        os.scandir = self.scandir
        os.remove = os.unlink = self.remove
        os.rename = os.replace = self.rename
        os.mkdir = self.os_mkdir
        os.access = self.access

        def quiet(name):
            real = _real[name]

            def call(path, *a, **kw):
                if (isinstance(path, int) and path in self.fds) or \
                        self.mine(path):
                    return None
                return real(path, *a, **kw)
            return call
        os.chmod = quiet("chmod")
        os.utime = quiet("utime")
        os.close = self.fd_call("close", lambda r: r.close())
        os.read = self.fd_call("read", lambda r, n: r.read(n))
        os.write = self.fd_call("write", lambda r, b: r.write(b))
        os.fsync = self.fd_call("fsync", self.fsync)
        os.fstat = self.fd_call("fstat", lambda r: self.stat(r.name))
        os.lseek = self.fd_call("lseek", lambda r, o, w: r.seek(o, w))
        os.ftruncate = self.fd_call("ftruncate",
                                    lambda r, n: r.truncate(n))

    def uninstall(self):
        builtins.open = io.open = _real["open"]
        os.open, os.close = _real["os.open"], _real["close"]
        os.unlink = _real["remove"]
        for n in ("read", "write", "fsync", "stat", "lstat", "fstat",
                  "listdir", "scandir", "remove", "rename", "replace",
                  "mkdir", "access", "lseek", "ftruncate", "chmod", "utime"):
            setattr(os, n, _real[n])
