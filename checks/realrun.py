"""A run of the real command under a failing disk, a full output device or without any right but to read."""
import _thread
import builtins
import contextlib
import gc
import gzip
import io
import os
import tempfile
from importlib import machinery

from engine import points

CHANGING = ("remove", "unlink", "rename", "replace", "truncate", "utime", "chmod", "mkdir", "makedirs", "rmdir", "link",
            "symlink")


class Stripped:
    """Finder of the package's modules, compiled without assertions (and docstrings)."""

    def __init__(self, package, level):
        self.package, self.level = package, level

    def find_spec(self, fullname, path=None, target=None):
        if not (fullname + ".").startswith(self.package + "."):
            return None
        spec = machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None:
            level = self.level

            class Loader(type(spec.loader)):
                def get_code(self, fullname):
                    file = self.get_filename(fullname)
                    return compile(self.get_data(file), file, "exec", dont_inherit=True, optimize=level)

            spec.loader.__class__ = Loader
        return spec


class Impatient:
    """A lock; who waits for it too long, waits for ever."""

    def __init__(self):
        self._lock = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout >= 0:
            return self._lock.acquire(blocking, timeout)
        if not self._lock.acquire(True, 10):
            raise points.Endless()
        return True

    __enter__ = acquire

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __exit__(self, *exc):
        self.release()


class Output(io.StringIO):
    """Standard output; from a certain write on the device is full."""

    full = None
    errno = None
    written = 0
    terminal = False
    encoding = "utf-8"

    def isatty(self):
        return self.terminal

    def write(self, text):
        self.written += 1
        if self.full is not None and self.written > self.full:
            raise OSError(self.errno or 28, os.strerror(self.errno or 28))
        return super().write(text)


class BadFile(io.FileIO):
    """A file that cannot be read from a certain byte on, as on a bad sector."""

    bad = 0
    errno = 5

    def readinto(self, buf):
        pos, size = self.tell(), os.fstat(self.fileno()).st_size
        if self.bad <= pos < size:
            raise OSError(self.errno, os.strerror(self.errno))
        return super().readinto(memoryview(buf).cast("B")[:max(self.bad - pos, 0)])

    def readall(self):
        out = b""
        while True:
            part = self.read(65536)
            if not part:
                return out
            out += part

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        got = self.readinto(buf)
        return bytes(buf[:got])


class Guard:
    def __init__(self, work, names, bad, full, restricted, out, errno=None):
        self.work, self.names, self.bad, self.restricted, self.out = os.path.realpath(work), names, bad, restricted, out
        out.full, out.errno, self.errno = full, errno, errno or 5
        self.crowded, self.refused = [], []
        self.stack = contextlib.ExitStack()

    # the directory of the logs
    def inside(self, target):
        if not isinstance(target, (str, bytes, os.PathLike)):
            return None
        path = os.path.realpath(os.path.join(self.work, os.fsdecode(target)))
        return path[len(self.work) + 1:] if path.startswith(self.work + os.sep) else None

    def still_open(self):
        out = []
        for num in os.listdir("/proc/self/fd"):
            try:
                target = os.readlink("/proc/self/fd/" + num)
            except OSError:
                continue
            name = self.inside(target) if target.startswith(os.sep) else None
            if name in self.names:
                out.append(name)
        return out

    def change(self, what, target):
        self.refused.append("%s %s" % (what, target))
        raise PermissionError(13, "Permission denied", target)

    def listing(self):
        out = {}
        for base, dirs, files in os.walk(self.work):
            if base == self.work and "tmp" in dirs:
                dirs.remove("tmp")
            for name in files:
                with open(os.path.join(base, name), "rb") as fh:
                    out[os.path.relpath(os.path.join(base, name), self.work)] = fh.read()
            for name in dirs:
                out[os.path.relpath(os.path.join(base, name), self.work)] = None
        return out

    def __enter__(self):
        self.before = self.listing()
        real_open = builtins.open
        temp = os.path.join(self.work, "tmp")
        if self.restricted:
            os.mkdir(temp)
            self.patch(tempfile, "tempdir", temp)

        def opener(file, mode="r", *args, **kwargs):
            name = self.inside(file)
            if name is None or name.startswith("tmp" + os.sep):
                return real_open(file, mode, *args, **kwargs)
            if self.restricted and set(mode) & set("wax+"):
                self.change("open for writing", name)
            others = [other for other in self.still_open() if other != name]
            if others:
                gc.collect()
                self.crowded += [other for other in self.still_open() if other != name]
            if name in self.bad and "b" in mode and name not in self.packed:
                raw = BadFile(file, "rb")
                raw.bad, raw.errno = self.bad[name], self.errno
                return io.BufferedReader(raw)
            return real_open(file, mode, *args, **kwargs)

        self.packed = [name for name in self.bad if self.before[name][:2] == b"\x1f\x8b"]
        self.patch(builtins, "open", opener)
        self.patch(io, "open", opener)
        real_read = gzip._GzipReader.read
        guard = self

        def gzip_read(reader, size=-1):
            name = guard.inside(getattr(reader._fp.file, "name", None))
            bad = guard.bad.get(name)
            if bad is None or name not in guard.packed:
                return real_read(reader, size)
            if size < 0:
                raise OSError(guard.errno, os.strerror(guard.errno))
            if reader._pos >= bad:
                raise OSError(guard.errno, os.strerror(guard.errno))
            return real_read(reader, min(size, bad - reader._pos))

        self.patch(gzip._GzipReader, "read", gzip_read)
        if self.restricted:
            for name in CHANGING:
                self.patch(os, name, self.changer(name, getattr(os, name)))
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        return self

    def changer(self, what, real):
        def change(target, *args, **kwargs):
            name = self.inside(target)
            if name is not None and not name.startswith("tmp" + os.sep):
                self.change("os." + what, name)
            return real(target, *args, **kwargs)

        return change

    def patch(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        self.stack.callback(setattr, obj, name, old)

    def __exit__(self, *exc):
        self.stack.close()
        self.after = self.listing()

    def used(self):
        from .domain import Used

        left_open = self.still_open()
        if left_open:
            gc.collect()
            left_open = self.still_open()
        changed = sorted(name for name in set(self.before) | set(self.after)
                         if self.before.get(name, self) != self.after.get(name, self))
        temp = os.path.join(self.work, "tmp")
        left = sorted(os.listdir(temp)) if self.restricted else []
        return Used(self.crowded, left_open, self.refused + changed, left, self.out.written)
