"""Environment stubs of the command: files by name, gzip, json, argparse, stdout."""
import gc
import gzip as real_gzip
import io as real_io
import json as real_json
import locale as real_locale
import os as real_os
import pathlib as real_pathlib
import sys as real_sys
import types
import weakref

from . import core
from .core import Unsupported
from .symio import SymFile
from .text import BytesBase, CStr, SymStr, has_sym, norm, seg_len, segs_of
from .values import SymBool, SymFloat, SymInt, bool_var, file_src, lift, var


TEMP = "/tmp/"
CHANGING = ("remove", "unlink", "rename", "replace", "truncate", "utime", "chmod", "mkdir", "makedirs", "rmdir", "link",
            "symlink")


REGULAR, FIFO = 0o100644, 0o010600


class Stat:
    """The result of os.stat as far as it is determined."""

    def __init__(self, mode, size):
        self.st_mode, self.st_size = mode, size

    def __getitem__(self, index):
        return {0: self.st_mode, 6: self.st_size}[index] if index in (0, 6) else fail("os.stat()[%r]" % (index,))

    def __getattr__(self, name):
        raise Unsupported("os.stat_result.%s" % name)


def fail(text):
    core.CTX.fail_path(Unsupported(text))


class Surroundings:
    """Arbitrary environment variables, and standard streams of any kind."""

    SIZE = 24

    def __init__(self):
        self.tty = bool_var("tty")
        self.encoding = "utf-8" if bool_var("utf-8") else "ascii" if bool_var("ascii") else "iso8859-1"
        self.columns = var("columns", 1, 1000)
        self.known = {}

    def leave(self):
        """Go to a place without any variables, where standard output is a file."""
        self.tty, self.encoding = False, "utf-8"
        self.known = dict.fromkeys(self.known)
        self.left = True

    left = False

    def variable(self, name):
        """Its text, or None where it is not set."""
        if name not in self.known:
            self.known[name] = None
            if not self.left and bool_var("env?" + name):
                src = file_src("env:" + name)
                core.CTX.files["env:" + name] = (src, self.SIZE)
                self.known[name] = CStr(src, 0, self.SIZE).decode("utf-8", "ignore")
        return self.known[name]


def locale_functions(encoding):
    return [("getpreferredencoding", lambda do_setlocale=True: encoding().upper()), ("getencoding", encoding),
            ("getlocale", lambda *args: ("en_US", encoding().upper())),
            ("setlocale", lambda *args: "en_US." + encoding().upper())]


class Environ:
    """os.environ"""

    def __init__(self, env):
        self._env = env

    def get(self, name, default=None):
        if self._env.around is None or not isinstance(name, str):
            return real_os.environ.get(name, default)
        val = self._env.around.variable(name)
        return default if val is None else val

    def __getitem__(self, name):
        val = self.get(name)
        if val is None:
            raise KeyError(name)
        return val

    def __contains__(self, name):
        return self.get(name) is not None

    def __getattr__(self, name):
        if self._env.around is None:
            return getattr(real_os.environ, name)
        raise Unsupported("os.environ.%s" % name)

    def __iter__(self):
        if self._env.around is None:
            return iter(real_os.environ)
        raise Unsupported("iteration over os.environ")


class Env:
    def __init__(self):
        self.files = {}  # name -> (segs, compressed)
        self.out = []  # stdout text pieces
        self.err = []
        self.opened = []
        self.leaves = {}  # placeholder -> symbolic leaf
        self.argv = None
        self.cmdline = None
        self.bad = {}  # name -> first byte (of the log, not its compressed form) that cannot be read
        self.full = None  # number of the write to standard output that fails
        self.errno = None  # of these failures, unless it is the usual one
        self.written = 0
        self.restricted = False  # the user may only read the logs and their directory
        self.handles = []
        self.crowded = []  # logs that were open while another one was opened
        self.temporary = {}  # name -> file
        self.refused = []  # attempts to change the file system
        self.place = TEMP + "place1"  # the working directory
        self.descriptors = {}  # number -> Stat
        self.around = None  # arbitrary surroundings: variables, terminal, encoding of the output

    # ---------------------------------------------------------------- files
    def add_file(self, name, segs, compressed):
        self.files[name] = (segs, compressed)

    def _raw(self, name):
        if isinstance(name, SymStr):
            fail("symbolic file name")
        name = self.known(name)
        if name in self.temporary:
            return list(self.temporary[name]._segs), False
        if name not in self.files:
            raise FileNotFoundError(2, "No such file or directory", name)
        return self.files[name]

    def known(self, name):
        """The name under which a file was given, however it is spelled."""
        name = str(name)
        if name in self.files:
            return name
        for other in self.files:
            if self.absolute(other) == self.absolute(name):
                return other
        return name

    def absolute(self, name):
        return real_os.path.normpath(real_os.path.join(self.place, str(name)))

    def _handle(self, name, file):
        name = self.known(name)
        others = [other for other in self.still_open() if other != name]
        if others:
            gc.collect()
            self.crowded += [other for other in self.still_open() if other != name]
        self.handles.append((name, weakref.ref(file)))
        return file

    def still_open(self):
        return [name for name, ref in self.handles if ref() is not None and not ref().closed]

    def change(self, what, name):
        """An attempt to create, change or remove a file."""
        if not self.restricted:
            fail("%s %s" % (what, name))
        if str(name) in self.temporary:
            if what.split(".")[-1] not in ("remove", "unlink"):
                fail("%s of a temporary file" % what)
            del self.temporary[str(name)]
            return
        self.refused.append("%s %s" % (what, name))
        raise PermissionError(13, "Permission denied", str(name))

    def open(self, file, mode="r", *args, **kwargs):
        if isinstance(mode, str) and set(mode) & set("wax+"):
            self.change("open for writing", file)
        if mode not in ("rb", "br"):
            fail("open mode %r" % (mode,))
        segs, compressed = self._raw(file)
        self.opened.append(("open", str(file)))
        if compressed:
            # The compressed representation: unrelated bytes that start with the gzip magic number.
            src = file_src("gz:" + str(file))
            from .values import field, var

            core.CTX.assume(field(src, 0, 4, False) == 0x00088B1F)
            out = CompressedFile([(src, 0, var("gzlen:" + str(file), 20, None))], str(file), segs)
            out.descriptor = self.descriptor(REGULAR, out._size)
            return self._handle(file, out)
        return self._handle(file, self._plain_file(segs, str(file)))

    def _plain_file(self, segs, name):
        out = SymFile(list(segs), name)
        out.bad, out.errno = self.bad.get(name), self.errno or 5
        out.descriptor = self.descriptor(REGULAR, self.size(name))
        return out

    # ---------------------------------------------------------------- what the file system knows of a file
    def descriptor(self, mode, size):
        number = 100 + len(self.descriptors)
        self.descriptors[number] = Stat(mode, size)
        return number

    def size(self, name):
        """The size of a file as it is stored."""
        segs, compressed = self._raw(name)
        if not compressed:
            return seg_len(segs)
        from .values import var

        return var("gzlen:" + str(name), 20, None)

    def stat(self, target, *args, **kwargs):
        if isinstance(target, int):
            if target not in self.descriptors:
                raise OSError(9, "Bad file descriptor")
            return self.descriptors[target]
        return Stat(REGULAR, self.size(real_os.fspath(target)))

    def gzip_open(self, filename, mode="rb", *args, **kwargs):
        if isinstance(mode, str) and set(mode) & set("wax+"):
            self.change("open for writing", filename)
        if mode not in ("rb", "r", "br"):
            fail("gzip mode %r" % (mode,))
        if isinstance(filename, CompressedFile):
            return self._unzipped(filename.plain, filename.name)
        if isinstance(filename, SymFile):
            return _BadGzip()
        segs, compressed = self._raw(filename)
        self.opened.append(("gzip", str(filename)))
        if not compressed:
            return self._handle(filename, _BadGzip())
        return self._handle(filename, self._unzipped(segs, str(filename)))

    def _unzipped(self, segs, name):
        out = self._plain_file(segs, name)
        out.unzipped = True
        return out

    def gzip_module(self):
        mod = types.ModuleType("gzip")
        for name in dir(real_gzip):
            if not name.startswith("__"):
                setattr(mod, name, getattr(real_gzip, name))
        mod.open = self.gzip_open

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, SymFile) and obj.unzipped

            def __call__(cls, filename=None, mode="rb", compresslevel=9, fileobj=None, mtime=None):
                return self.gzip_open(fileobj if fileobj is not None else filename, mode or "rb")

        class GzipFile(metaclass=Meta):
            pass

        def decompress(data):
            segs = getattr(data, "segs", None)
            for name, (plain, compressed) in self.files.items():
                if compressed and segs and len(segs) == 1 and segs[0][0] is file_src("gz:" + name):
                    from .text import make_bytes

                    return make_bytes(list(plain))
            raise real_gzip.BadGzipFile("Not a gzipped file")

        mod.GzipFile, mod.decompress = GzipFile, decompress
        return mod

    def tempfile_module(self):
        mod = types.ModuleType("tempfile")
        env = self

        def named(mode="w+b", *args, delete=True, **kwargs):
            if mode not in ("w+b", "wb+", "wb", "bw"):
                fail("temporary file mode %r" % (mode,))
            out = Sink()
            out.name = "%satoparser%d" % (TEMP, len(env.temporary))
            if not delete:
                env.temporary[out.name] = out
            return out

        def unnamed(mode="w+b", *args, **kwargs):
            return named(mode)

        mod.NamedTemporaryFile, mod.TemporaryFile = named, unnamed
        mod.SpooledTemporaryFile = lambda max_size=0, mode="w+b", *args, **kwargs: named(mode)
        mod.gettempdir = lambda: TEMP.rstrip("/")

        def missing(name):
            raise Unsupported("tempfile.%s" % name)

        mod.__getattr__ = missing
        return mod

    def shutil_module(self):
        mod = types.ModuleType("shutil")

        def copyfileobj(fsrc, fdst, length=0):
            fdst.write(fsrc.read())

        mod.copyfileobj = copyfileobj
        mod.get_terminal_size = self.wanted_size
        for name in ("copyfile", "copy", "copy2", "move", "rmtree", "copytree"):
            setattr(mod, name, lambda src, *rest, _name=name, **kwargs: self.change("shutil." + _name, src))

        def missing(name):
            raise Unsupported("shutil.%s" % name)

        mod.__getattr__ = missing
        return mod

    def pathlib_module(self):
        mod = types.ModuleType("pathlib")
        env = self

        class Path(real_pathlib.PurePosixPath):
            def open(self, mode="r", *args, **kwargs):
                return env.open(str(self), mode)

            def read_bytes(self):
                with env.open(str(self), "rb") as fh:
                    return fh.read()

            def exists(self, **kwargs):
                return env.known(self) in env.files

            is_file = exists

            def is_dir(self):
                return False

            def stat(self, **kwargs):
                return env.stat(str(self))

            def absolute(self):
                return Path(real_os.path.join(env.place, str(self)))

            def resolve(self, strict=False):
                return Path(env.absolute(self))

            def expanduser(self):
                return self

            @classmethod
            def cwd(cls):
                return cls(env.place)

            def write_bytes(self, data):
                env.change("write", self)

            def write_text(self, data, *args, **kwargs):
                env.change("write", self)

            def unlink(self, missing_ok=False):
                env.change("unlink", self)

            def touch(self, *args, **kwargs):
                env.change("touch", self)

            def mkdir(self, *args, **kwargs):
                env.change("mkdir", self)

            def rename(self, target):
                env.change("rename", self)

            replace = rename

        mod.Path = mod.PosixPath = Path
        mod.PurePath, mod.PurePosixPath = real_pathlib.PurePath, real_pathlib.PurePosixPath
        return mod

    def os_module(self):
        mod = types.ModuleType("os")
        for name in ("path", "sep", "linesep", "fspath", "PathLike", "SEEK_SET", "SEEK_CUR",
                     "SEEK_END", "name", "curdir", "pardir", "extsep", "altsep", "fsencode", "fsdecode"):
            setattr(mod, name, getattr(real_os, name))
        env = self
        mod.environ = Environ(self)
        mod.getenv = mod.environ.get
        mod.getcwd = lambda: env.place
        mod.get_terminal_size = self.terminal_size
        for name in ("getpid", "getppid", "getuid", "geteuid", "getgid", "getegid", "getlogin", "uname", "cpu_count"):
            setattr(mod, name, self.another(name))
        mod.isatty = lambda fd: env.terminal()
        mod.stat = mod.lstat = mod.fstat = self.stat
        path = types.ModuleType("os.path")
        for name in dir(real_os.path):
            if not name.startswith("__"):
                setattr(path, name, getattr(real_os.path, name))
        path.exists = path.isfile = path.lexists = lambda p: env.known(real_os.fspath(p)) in env.files
        path.isdir = path.islink = lambda p: False
        path.abspath = path.realpath = lambda p, **kwargs: env.absolute(real_os.fspath(p))
        path.getsize = lambda p: self.stat(p).st_size
        mod.path = path

        def changer(name):
            return lambda target, *args, **kwargs: env.change("os.%s" % name, target)

        for name in CHANGING:
            setattr(mod, name, changer(name))

        def missing(name):
            raise Unsupported("os.%s" % name)

        mod.__getattr__ = missing
        return mod

    # ---------------------------------------------------------------- output
    def another(self, name):
        """A function that tells something about the user, the process or the machine."""
        return lambda: getattr(real_os, name)()

    def terminal_size(self, fd=1):
        if not self.terminal():
            raise OSError(25, "Inappropriate ioctl for device")
        return real_os.terminal_size((self.around.columns, 24))

    def wanted_size(self, fallback=(80, 24)):
        """shutil.get_terminal_size"""
        if self.around is None:
            return real_os.terminal_size(fallback)
        if self.around.variable("COLUMNS") is not None:
            fail("COLUMNS is set")
        return self.terminal_size() if self.terminal() else real_os.terminal_size(fallback)

    def locale_module(self):
        mod = types.ModuleType("locale")
        for name in dir(real_locale):
            if not name.startswith("__"):
                setattr(mod, name, getattr(real_locale, name))
        if self.around is not None:
            for name, func in locale_functions(lambda: self.around.encoding):
                setattr(mod, name, func)
        return mod

    def terminal(self):
        return False if self.around is None else self.around.tty

    def write(self, piece):
        self.written += 1
        if self.full is not None and self.written > self.full:
            raise OSError(self.errno or 28, real_os.strerror(self.errno or 28))
        if isinstance(piece, SymStr):
            from .text import Dec

            for part in piece.parts:
                if isinstance(part, str):
                    self.out.append(part)
                elif isinstance(part, Dec):
                    self.out.append(self.placeholder(part.num))
                else:
                    self.out.append(self.placeholder(SymStr((part,))))
            return
        if not isinstance(piece, str):
            raise TypeError("write() argument must be str, not %s" % type(piece).__name__)
        self.out.append(piece)

    def print(self, *args, sep=" ", end="\n", file=None, flush=False):
        from .text import to_str

        target = self.write
        if file is not None:
            target = file.write
        sep = " " if sep is None else sep
        end = "\n" if end is None else end
        for i, arg in enumerate(args):
            if i:
                target(sep)
            res = to_str(arg)
            target(str(arg) if res is None else res)
        target(end)

    def sys_module(self):
        mod = types.ModuleType("sys")
        for name in ("byteorder", "exit", "maxsize", "version_info", "platform", "executable", "modules",
                     "exc_info", "getsizeof", "intern", "path", "stdin"):
            setattr(mod, name, getattr(real_sys, name))
        env = self

        class Out:
            @property
            def encoding(self):
                return "utf-8" if env.around is None else env.around.encoding

            def __init__(self, sink):
                self._sink = sink

            def write(self, piece):
                self._sink(piece)
                return len(piece) if isinstance(piece, str) else 0

            def writelines(self, lines):
                for line in lines:
                    self._sink(line)

            def flush(self):
                pass

            def isatty(self):
                return env.terminal()

        mod.stdout = mod.__stdout__ = Out(self.write)
        mod.stderr = mod.__stderr__ = Out(lambda piece: env.err.append(piece))
        mod.argv = self.argv if self.argv is not None else ["atoparser"]
        return mod

    # ---------------------------------------------------------------- json
    def placeholder(self, leaf):
        # Text may hold characters outside ASCII, numbers do not: the encoder's options show on the former only.
        mark = "\u00a7" if isinstance(leaf, SymStr) else "\x01"
        name = "%s%d%s" % (mark, len(self.leaves), mark)
        self.leaves[name] = leaf
        return name

    def _plain(self, obj, default=None):
        """Replace symbolic leaves with unique text; anything json cannot serialise raises as json does."""
        if isinstance(obj, (SymInt, SymFloat, SymStr)):
            return self.placeholder(obj)
        if isinstance(obj, SymBool):
            return bool(obj)
        if isinstance(obj, dict):
            out = {}
            for key, val in obj.items():
                if type(key).__name__ == "SymKey":
                    key = key.value
                if isinstance(key, (SymInt, SymStr)):
                    key = self.placeholder(key)
                out[key] = self._plain(val, default)
            return out
        if isinstance(obj, (list, tuple)):
            return [self._plain(x, default) for x in obj]
        if obj is None or isinstance(obj, (str, int, float)):
            return obj
        if default is not None:
            return self._plain(default(obj), default)
        kind = "bytes" if isinstance(obj, BytesBase) else type(obj).__name__
        raise TypeError("Object of type %s is not JSON serializable" % kind)

    def json_module(self):
        mod = types.ModuleType("json")
        for name in dir(real_json):
            if not name.startswith("__"):
                setattr(mod, name, getattr(real_json, name))
        env = self

        def native_kwargs(kwargs):
            for name, val in kwargs.items():
                if isinstance(val, SymBool):
                    kwargs[name] = bool(val)
                elif isinstance(val, SymInt):
                    kwargs[name] = core.CTX.decide_value(val)
            return kwargs

        def dumps(obj, **kwargs):
            kwargs = native_kwargs(kwargs)
            default = kwargs.pop("default", None)
            return real_json.dumps(env._plain(obj, default), **kwargs)

        def dump(obj, fp, **kwargs):
            fp.write(dumps(obj, **kwargs))

        class JSONEncoder:
            def __init__(self, **kwargs):
                self._kwargs = kwargs

            def default(self, o):
                raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)

            def encode(self, o):
                return dumps(o, default=self.default, **self._kwargs)

            def iterencode(self, o, _one_shot=False):
                yield self.encode(o)

        mod.dumps, mod.dump, mod.JSONEncoder = dumps, dump, JSONEncoder
        return mod

    def documents(self):
        """Parse stdout as a sequence of JSON documents; symbolic leaves restored."""
        text = "".join(self.out)
        decoder = real_json.JSONDecoder()
        pos, docs = 0, []
        while True:
            while pos < len(text) and text[pos] in " \t\r\n":
                pos += 1
            if pos >= len(text):
                break
            doc, pos = decoder.raw_decode(text, pos)
            docs.append(doc)
        return text, docs

    def restore(self, node):
        if isinstance(node, str):
            return self.leaves.get(node, node)
        if isinstance(node, list):
            return [self.restore(x) for x in node]
        if isinstance(node, dict):
            return {self.leaves.get(key, key): self.restore(val) for key, val in node.items()}
        return node

    # ---------------------------------------------------------------- argparse
    def argparse_module(self):
        from . import symargs

        return symargs.module(self)


class CompressedFile(SymFile):
    """A gzip file opened without decompression."""

    def __init__(self, segs, name, plain):
        super().__init__(segs, name)
        self.plain = plain


class Sink(SymFile):
    """A temporary file."""

    def write(self, data):
        self._check_open()
        segs = segs_of(data)
        if not (self._pos is self._size or self._pos == self._size):
            fail("write in the middle of a temporary file")
        self._segs = norm(self._segs + segs)
        self._size = self._pos = seg_len(self._segs)
        return seg_len(segs)

    def writable(self):
        return True


class _BadGzip(SymFile):
    """gzip reader over a file that is not gzip: any read fails."""

    unzipped = True

    def __init__(self):
        super().__init__([])

    def _take(self, size):
        raise real_gzip.BadGzipFile("Not a gzipped file")
