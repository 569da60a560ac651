"""Simulated storage faults: files below a root are opened through a raw layer whose
every operation is numbered and may fail, be cut short, or stop the world.

plan: {"at": {str(op number): fault}, ...}.  Operations are numbered in the order they
happen: open, read, write, close, fsync, mkdir, listdir, remove, rename.  Faults:
  read : eio | short
  write: eio | enospc | short | torn (part is written, then an error)
  close: eio | enospc (the end of a written file is lost)
  open : enoent | eacces | emfile | enospc (creating) | eio
  mkdir/listdir/remove/rename: eacces | enospc | eio
  any  : crash  (a write is torn at `frac`; nothing reaches the disk afterwards)
A fault that does not apply to the kind of the operation is an EIO."""
import builtins
import errno
import io
import os
import random
import sys

import sched

_real_open = io.open
_real = {k: getattr(os, k) for k in ("mkdir", "listdir", "scandir", "remove", "unlink", "rename", "replace", "rmdir", "open", "close", "ftruncate", "truncate", "write", "read", "fsync")}


class Crash(BaseException):
    """the process dies here"""


ERR = {
    "eio": errno.EIO,
    "enospc": errno.ENOSPC,
    "enoent": errno.ENOENT,
    "eacces": errno.EACCES,
    "emfile": errno.EMFILE,
    "edquot": errno.EDQUOT,
    "torn": errno.EIO,
    "short": errno.EIO,
}


def oserror(kind, path):
    e = ERR.get(kind, errno.EIO)
    return OSError(e, os.strerror(e), path)


class FS:
    def __init__(self, root, faults=None, frac=0.5, shuffle=None, points=False, match=None, chop=None):
        self.root = os.path.realpath(root)
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.frac = frac
        self.shuffle = shuffle
        self.points = points
        self.match = match
        self.chop = chop  # every read and write moves at most so many bytes
        self.n = 0
        self.ops = []  # (kind, relative path, info)
        self.fired = []
        self.dead = False
        self.touched = {}  # paths written in this session -> bytes before
        self.active = False
        self.lent = {}  # descriptors of open file objects
        self.synced = {}  # relative path -> bytes known to be on the disk
        self.fds = {}  # descriptors opened by os.open below the root -> (relative path, path)

    # ------------------------------------------------ bookkeeping
    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        if p == self.root or p.startswith(self.root.rstrip(os.sep) + os.sep):
            rel = os.path.relpath(p, self.root)
            if self.match is not None and not self.match(rel):
                return None
            return rel
        return None

    def op(self, kind, rel, info=None):
        """numbers an operation; returns the fault that hits it, if any"""
        if self.dead:
            raise Crash()
        k = self.n
        self.n += 1
        self.ops.append((kind, rel, info))
        if self.points:
            sched.external_point(k)
        f = self.faults.get(k)
        if f is not None:
            self.fired.append((k, kind, rel, f))
            if f == "crash" and kind != "write":
                self.dead = True
                raise Crash()
        return f

    # ------------------------------------------------ installation
    def __enter__(self):
        self.active = True
        self.saved = {"open": builtins.open, "io": io.open}
        self.saved_os = {k: getattr(os, k) for k in _real}
        builtins.open = self.open
        io.open = self.open
        for k in ("mkdir", "remove", "unlink", "rmdir"):
            setattr(os, k, self._path_op(k))
        for k in ("rename", "replace"):
            setattr(os, k, self._rename_op(k))
        os.listdir = self._listdir
        os.scandir = self._scandir
        os.open, os.close = self._os_open, self._os_close
        os.read, os.write, os.fsync = self._os_read, self._os_write, self._os_fsync
        return self

    def __exit__(self, *a):
        self.active = False
        builtins.open = self.saved["open"]
        io.open = self.saved["io"]
        for k, v in self.saved_os.items():
            setattr(os, k, v)

    # ------------------------------------------------ directory operations
    def _path_op(self, name):
        real = _real[name]

        def f(path, *a, **k):
            rel = self.inside(path)
            if rel is not None:
                x = self.op(name, rel)
                if x:
                    raise oserror(x, os.fspath(path))
            return real(path, *a, **k)

        return f

    def _rename_op(self, name):
        real = _real[name]

        def f(src, dst, *a, **k):
            rel = self.inside(dst)
            if rel is not None:
                x = self.op(name, rel)
                if x:
                    raise oserror(x, os.fspath(dst))
            return real(src, dst, *a, **k)

        return f

    def _listdir(self, path="."):
        r = _real["listdir"](path)
        rel = self.inside(path) if not isinstance(path, int) else None
        if rel is not None:
            x = self.op("listdir", rel)
            if x:
                raise oserror(x, os.fspath(path))
            r.sort()
            if self.shuffle is not None:
                random.Random(f"{self.shuffle}:{rel}").shuffle(r)
        return r

    def _scandir(self, path="."):
        rel = self.inside(path) if not isinstance(path, int) else None
        if rel is None:
            return _real["scandir"](path)
        x = self.op("listdir", rel)
        if x:
            raise oserror(x, os.fspath(path))
        with _real["scandir"](path) as it:
            es = sorted(it, key=lambda e: e.name)
        if self.shuffle is not None:
            random.Random(f"{self.shuffle}:{rel}").shuffle(es)
        return _Entries(es)

    # ------------------------------------------------ files by descriptor
    def _before(self, rel, path):
        if rel not in self.touched:
            try:
                with _real_open(path, "rb") as f:
                    self.touched[rel] = f.read()
            except OSError:
                self.touched[rel] = None

    def _os_open(self, path, flags, *a, **k):
        rel = self.inside(path) if not k.get("dir_fd") else None
        if rel is None or flags & os.O_DIRECTORY:
            return _real["open"](path, flags, *a, **k)
        w = bool(flags & (os.O_WRONLY | os.O_RDWR))
        x = self.op("open", rel, "w" if w else "r")
        if x:
            raise oserror("eacces" if x == "enoent" and flags & os.O_CREAT else x, os.fspath(path))
        if w:
            self._before(rel, path)
        fd = _real["open"](path, flags, *a, **k)
        self.fds[fd] = (rel, os.fspath(path), w)
        return fd

    def _os_close(self, fd):
        e = self.fds.pop(fd, None)
        if e is None:
            return _real["close"](fd)
        x = None
        try:
            x = self.op("close", e[0])
            if x and e[2]:
                size = os.fstat(fd).st_size
                _real["ftruncate"](fd, min(size - 1, int(size * self.frac)) if size else 0)
        finally:
            _real["close"](fd)
        if x:
            raise oserror(x, e[1])

    def _os_read(self, fd, n):
        e = self.fds.get(fd)
        if e is None:
            return _real["read"](fd, n)
        x = self.op("read", e[0], n)
        if x and x != "short":
            raise oserror(x, e[1])
        if x:
            n = max(1, int(n * self.frac))
        return _real["read"](fd, min(n, self.chop) if self.chop else n)

    def _os_write(self, fd, b):
        e = self.fds.get(fd)
        if e is None:
            return _real["write"](fd, b)
        return self.put(e[0], e[1], bytes(b), lambda d: _real["write"](fd, d))

    def _os_fsync(self, fd):
        e = self.fds.get(fd) or self.lent.get(fd)
        if e is not None:
            x = self.op("fsync", e[0])
            if x:
                raise oserror(x, e[1])
            with _real_open(e[1], "rb") as f:
                self.synced[e[0]] = len(f.read())
        return _real["fsync"](fd)

    def put(self, rel, path, b, write):
        """one write that reaches the disk in full, in part, or not at all"""
        if self.dead:
            raise Crash()
        n = len(b)
        x = self.op("write", rel, n)
        if x is None:
            return write(b[: self.chop] if self.chop else b)
        part = min(max(0, int(n * self.frac)), max(0, n - 1))
        if x == "short" and n > 1:
            return write(b[: max(1, part)])
        if x in ("torn", "enospc", "crash"):
            write(b[:part])
        if x == "crash":
            self.dead = True
            raise Crash()
        raise oserror(x, path)

    # ------------------------------------------------ files
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel, fd = None, None
        if self.active and isinstance(file, (str, bytes, os.PathLike)):
            if opener is None:
                rel = self.inside(file)
            elif isinstance(file, str) and self.inside(file) is not None:
                # what the opener opens is already counted by os.open
                flags = os.O_RDWR if "+" in mode else os.O_RDONLY if "r" in mode else os.O_WRONLY
                if "r" not in mode:
                    flags |= os.O_CREAT | (os.O_TRUNC if "w" in mode else os.O_EXCL if "x" in mode else os.O_APPEND)
                fd = opener(file, flags | os.O_CLOEXEC)
        elif self.active and isinstance(file, int) and file in self.fds:
            fd = file
        if fd is not None and fd in self.fds:
            rel, file, _ = self.fds[fd]
            if not closefd:
                fd = os.dup(fd)
            else:
                del self.fds[fd]
        elif fd is not None:
            return _real_open(fd, mode, buffering, encoding, errors, newline)
        elif rel is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        else:
            x = self.op("open", rel, mode)
            if x:
                if x == "enoent" and any(c in mode for c in "wax"):
                    x = "eacces"
                raise oserror(x, os.fspath(file))
            if any(c in mode for c in "wax+"):
                self._before(rel, file)
        binary = "b" in mode
        rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
        raw = FaultRaw(self, rel, os.fspath(file), rawmode, fd)
        if binary and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] in "wax":
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t

    # ------------------------------------------------ after a crash
    def lose(self, rng):
        """power loss: what was written since the start and never synced may be lost:
        each file written is left whole, cut anywhere, empty, or as before"""
        kinds = {}
        for rel, before in sorted(self.touched.items()):
            p = os.path.join(self.root, rel)
            r = rng.random()
            if r < 0.4 or not os.path.exists(p):
                continue
            with _real_open(p, "rb") as f:
                data = f.read()
            if self.synced.get(rel) == len(data):
                continue
            if r < 0.7:
                cut = rng.randrange(len(data) + 1)
                data = data[:cut]
                kinds["lost-tail"] = kinds.get("lost-tail", 0) + 1
            elif r < 0.85:
                data = b""
                kinds["lost-content"] = kinds.get("lost-content", 0) + 1
            else:
                kinds["lost-update"] = kinds.get("lost-update", 0) + 1
                if before is None:
                    _real["unlink"](p)
                    continue
                data = before
            with _real_open(p, "wb") as f:
                f.write(data)
        return kinds


class _Entries:
    def __init__(self, es):
        self.es = iter(es)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.es)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class FaultRaw(io.RawIOBase):
    def __init__(self, fs, rel, path, mode, fd=None):
        self.fs, self.rel, self.path = fs, rel, path
        self.f = _real_open(path if fd is None else fd, mode + "b", buffering=0)
        self.name = path
        self.mode = mode + "b"

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        x = self.fs.op("truncate", self.rel)
        if x:
            raise oserror(x, self.path)
        return self.f.truncate(size)

    def isatty(self):
        return False

    def fileno(self):
        # bulk copies by descriptor would go past the faults; they have another way
        if os.path.basename(sys._getframe(1).f_code.co_filename) == "shutil.py":
            raise io.UnsupportedOperation("simulated file")
        fd = self.f.fileno()
        self.fs.lent[fd] = (self.rel, self.path)
        return fd

    def readinto(self, b):
        x = self.fs.op("read", self.rel, len(b))
        n = len(b)
        if self.fs.chop:
            n = min(n, self.fs.chop)
        if x == "short":
            left = os.fstat(self.f.fileno()).st_size - self.f.tell()
            n = max(1, min(n, int(left * self.fs.frac)))
        elif x:
            raise oserror(x, self.path)
        d = self.f.read(n)
        b[: len(d)] = d
        return len(d)

    def write(self, b):
        return self.fs.put(self.rel, self.path, bytes(b), self.f.write)

    def close(self):
        if self.closed:
            return
        try:
            x = None
            if not self.fs.dead and self.fs.active:
                x = self.fs.op("close", self.rel)
            super().close()
        finally:
            if x and self.f.writable():
                # a failing close tells that buffered data did not reach the disk
                size = os.fstat(self.f.fileno()).st_size
                self.f.truncate(min(size - 1, int(size * self.fs.frac)) if size else 0)
            self.f.close()
        if x:
            raise oserror(x, self.path)
