"""Two interpretations of one harness.

A harness is a Python function of a domain.  In the symbolic domain (SymDom) it drives the instrumented source of the
package over symbolic files and its expectations become solver queries.  In the concrete domain (ConDom) the very same
harness drives the real package, natively, over the files of one counterexample (or of one sampled path).
"""
import contextlib
import gc
import io
import locale
import os
import shutil
import struct
import sys
import tempfile
import threading
import weakref
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

from . import realrun, state, transfer  # noqa: E402
from engine import core, env as env_mod, machine, points, rewrite, symctypes, symio, text, values  # noqa: E402
from engine.values import And, Implies, Not, Or, SymBool, SymFloat, SymInt, ite  # noqa: E402

REPO = rewrite.REPO


class Outcome:
    """Result of a call into the package."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *kinds):
        return self.exc is not None and isinstance(self.exc, kinds)

    @property
    def status(self):
        """The exit status of the command that ended like this: sys.exit(main())."""
        if not self.ok:
            return 1
        if isinstance(self.value, KeyboardInterrupt):
            return 130
        code = self.value.code if isinstance(self.value, SystemExit) else self.value
        if code is None:
            return 0
        if isinstance(code, SymBool):
            return ite(code, 1, 0)
        return code % 256 if isinstance(code, (int, SymInt)) else 1

    def describe(self):
        return "returned" if self.ok else "raised %s" % type(self.exc).__name__


class Used:
    """What became of the files during a run of the command."""

    def __init__(self, crowded, left_open, refused, left, written):
        # Logs open while another is opened, open at the end; refused changes; temporary files left; writes to stdout.
        self.crowded, self.left_open, self.refused, self.left, self.written = crowded, left_open, refused, left, written


class AssumptionFailed(Exception):
    """The concrete inputs lie outside the harness's premises."""


# --------------------------------------------------------------------------- byte views


class SBytes:
    """Symbolic content, addressed by offset."""

    def __init__(self, src):
        self.src = src

    def int(self, off, size, signed):
        return values.field(self.src, off, size, signed)

    def float(self, off, size):
        return values.float_field(self.src, off, size)

    def text(self, off, cap):
        return text.cstr(self.src, off, cap)

    def raw(self, off, size):
        return text.make_bytes([(self.src, off, size)])

    def shifted(self, base):
        return _Shifted(self, base)


class CBytes:
    def __init__(self, data):
        self.data = data

    def raw(self, off, size):
        return self.data[off:off + size].ljust(size, b"\0")

    def int(self, off, size, signed):
        return int.from_bytes(self.raw(off, size), "little", signed=signed)

    def float(self, off, size):
        return struct.unpack("<f" if size == 4 else "<d", self.raw(off, size))[0]

    def text(self, off, cap):
        return self.raw(off, cap).split(b"\0", 1)[0]


class _Shifted:
    def __init__(self, view, base):
        self.view, self.base = view, base

    def int(self, off, size, signed):
        return self.view.int(self.base + off, size, signed)

    def float(self, off, size):
        return self.view.float(self.base + off, size)

    def text(self, off, cap):
        return self.view.text(self.base + off, cap)

    def raw(self, off, size):
        return self.view.raw(self.base + off, size)


class Stream:
    """A zlib stream: whether it is one, how long it is, what it decompresses to."""

    def __init__(self, valid, zlen, dlen, data):
        self.valid, self.zlen, self.dlen, self.data = valid, zlen, dlen, data


class File:
    """A file of the scenario."""

    def __init__(self, dom, name, size, view):
        self.dom, self.name, self.size, self.view = dom, name, size, view
        self.int, self.float, self.text, self.raw = view.int, view.float, view.text, view.raw

    def stream(self, start, length):
        return self.dom._stream(self, start, length)


# --------------------------------------------------------------------------- symbolic


class EndlessSym(symio.SymFile):
    """A symbolic file that repeats its first `period` bytes; positions are native."""

    LIMIT = 1 << 60

    def __init__(self, segs, period):
        if type(period) is not int:
            raise TypeError("the period must be a constant")
        super().__init__(segs)
        self._period, self._size = period, self.LIMIT

    def _take(self, size):
        self._check_open()
        if size is None or size < 0:
            core.CTX.fail_path(core.BoundExceeded("the whole of an endless file"))
        if type(size) is not int:
            size = core.CTX.decide_value(size)
        out = []
        while size:
            at = self._pos % self._period
            count = min(size, self._period - at)
            out += text.cut(self._segs, at, at + count)
            self._pos += count
            size -= count
        return text.norm(out)


class SymDom:
    symbolic = True
    machine = None

    def __init__(self, c, tier="quick"):
        self.c, self.tier = c, tier
        self.env = env_mod.Env()
        self.world = rewrite.World(self.env)
        self.n = 0
        self.zlib_error = zlib.error

    # inputs
    def file(self, name, size=None):
        src = values.file_src(name)
        size = values.var("size:" + name, 0, None) if size is None else size
        self.c.files[name] = (src, size)
        return File(self, name, size, SBytes(src))

    def int(self, name, lo=None, hi=None):
        return values.var(name, lo, hi)

    def bool(self, name):
        return values.bool_var(name)

    def choose(self, name, count):
        """An arbitrary index below count, explored exhaustively."""
        for i in range(count - 1):
            if values.bool_var("%s:%d" % (name, i)):
                return i
        return count - 1

    def _stream(self, file, start, length):
        src = file.view.src
        valid, zlen, dlen = symio.stream_atoms(src, start)
        if all(not (b is src and values.k(s) == values.k(start)) for b, s, _ in self.c.spec_streams):
            self.c.spec_streams.append((src, start, length))
        return Stream(valid, zlen, dlen, SBytes(values.d_src(src, start)))

    def partial(self, view, off, count, size):
        """View of `count` bytes of view at off, followed by zeros up to size."""
        rest = ((values.const_src(b"\0" * size), 0, size),)
        return SBytes(values.partial_src(view.src, off, count, rest))

    def memory(self, size, name):
        """Arbitrary structure content: (view, bytes-like)."""
        file = self.file(name, size)
        return file.view, text.make_bytes([(file.view.src, 0, size)])

    # premises
    def assume(self, cond):
        self.c.assume(cond)

    def bind(self, value, const):
        self.c.bind(value, const)

    def prefer(self, cond):
        self.c.soft.append(cond)

    def settle(self):
        self.c.settle()

    # package
    def package(self, name="atoparser"):
        return self.world.load(name)

    def pickled(self, obj):
        """obj as another process gets it that has just imported the package."""
        return transfer.symbolic(obj, self)

    def restart(self):
        """Another process: the package is loaded anew."""
        optimize = self.world.optimize
        self.world = rewrite.World(self.env)
        self.world.optimize = optimize

    def optimise(self, level):
        """Must precede the first use of the package: it runs as with -O (1) or -OO (2)."""
        self.world.optimize = level

    def content(self, obj):
        return text.make_bytes(obj._buffer_segs())

    def buffer(self, data):
        return text.SymByteArray(list(text.segs_of(data)))

    def wipe(self, obj):
        symctypes.memset(symctypes.addressof(obj), 0, symctypes.sizeof(obj))

    def remembered(self, *extra):
        """The number of things the package keeps."""
        return state.size([mod for name, mod in self.world.modules.items()], extra)

    # threads
    def interruption(self, visits, back=False, share=None):
        """Must precede the first use of the package: from here on, one thread may be interrupted by another."""
        at = values.var("at", 0, None)
        if share is not None:
            # One of several parts of the schedules: those interrupted at a point of this class.
            self.c.assume(at % share[1] == share[0])
        to = values.var("back at", 0, None) if back else None
        one = points.Interruption(lambda k: bool(at == k), visits, (lambda k: bool(to == k)) if back else None)
        self.world.point = one.point
        return one

    def breakdown(self, visits, kinds, share=None):
        """Must precede the first use of the package: while armed, an error of one kind may arise at any one point."""
        at = values.var("at", 0, None)
        if share is not None:
            self.c.assume(at % share[1] == share[0])
        one = points.Breakdown(lambda k: bool(at == k), visits, lambda: kinds[self.choose("kind", len(kinds))]())
        self.world.point = one.point
        return one

    def attempt(self, func):
        """Like call, for errors of every kind."""
        try:
            return Outcome(func())
        except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
            if self.c.dead:
                raise self.c.dead
            return Outcome(exc=exc.with_traceback(None))

    def steps(self, limit, native):
        """Must precede the first use of the package: a call that executes more statements is taken to be endless."""
        one = points.Steps(limit)
        self.world.point = one.point
        return one

    def open(self, file, pos=0, disk=False):
        fh = symio.SymFile([(file.view.src, 0, file.size)], file.name)
        fh.seek(pos)
        if disk:
            fh.descriptor = self.env.descriptor(env_mod.REGULAR, file.size)
        return fh

    def growing(self, file, size):
        """A file on disk of which only the first bytes were written yet."""
        fh = symio.SymFile([(file.view.src, 0, size)], file.name)
        fh.descriptor = self.env.descriptor(env_mod.REGULAR, size)
        return fh

    def grow(self, fh, file, size=None):
        """The other bytes are written, or those up to a size."""
        size = file.size if size is None else size
        fh.extend([(file.view.src, 0, size)])
        self.env.descriptors[fh.descriptor] = env_mod.Stat(env_mod.REGULAR, size)

    def fifo(self):
        """The number of a file descriptor that is the reading end of a pipe."""
        return self.env.descriptor(env_mod.FIFO, 0)

    def endless(self, file, period):
        """A file that repeats the first `period` bytes for ever."""
        return EndlessSym([(file.view.src, 0, file.size)], period)

    def call(self, func, *args, **kwargs):
        try:
            return Outcome(func(*args, **kwargs))
        except Exception as exc:  # pylint: disable=broad-except
            if self.c.dead:
                raise self.c.dead
            return Outcome(exc=exc)
        except points.Endless as exc:
            return Outcome(exc=exc)

    def length(self, obj):
        return rewrite._len(obj)

    def at(self, arr, index):
        return arr[index]

    def indices(self, name, count):
        """An arbitrary index (symbolic) or all of them (concrete)."""
        if type(count) is int and count <= 0:
            return []
        hi = count - 1 if type(count) is int else None
        index = values.var("ix:" + name, 0, hi)
        if hi is None:
            self.c.assume(index < count)
            if not self.c.check():
                return []
        return [index]

    # judgements
    def expect(self, cond, label, detail=None):
        if cond is False:
            self.c.pending.append((False, label, detail))
            self.c.flush()
            return
        self.c.expect(cond, label, detail)

    def same(self, obs, exp, label):
        """obs is exactly the value exp."""
        if exp is True or exp is False or isinstance(exp, SymBool):
            self.expect(type(obs) is bool or isinstance(obs, SymBool), label, "not a bool")
            self.expect(values.Iff(obs, exp), label)
        elif isinstance(exp, (int, SymInt)):
            if type(obs) is bool or not isinstance(obs, (int, SymInt)):
                self.expect(False, label, "not an integer: %s" % type(obs).__name__)
                return
            self.expect(obs == exp, label, _pair(obs, exp))
        elif isinstance(exp, (float, SymFloat)):
            if not isinstance(obs, (float, SymFloat)):
                self.expect(False, label, "not a float: %s" % type(obs).__name__)
                return
            if isinstance(exp, SymFloat) or isinstance(obs, SymFloat):
                self.expect(obs == exp if isinstance(obs, SymFloat) else exp == obs, label)
            else:
                self.expect(struct.pack("<d", obs) == struct.pack("<d", exp), label)
        elif isinstance(exp, (bytes, text.BytesBase)):
            if not isinstance(obs, (bytes, text.BytesBase)) or isinstance(obs, text.SymByteArray):
                self.expect(False, label, "not bytes: %s" % type(obs).__name__)
                return
            same = exp.eq(obs) if isinstance(exp, text.BytesBase) else obs == exp
            self.expect(same, label)
        elif isinstance(exp, (str, text.SymStr)):
            if not isinstance(obs, (str, text.SymStr)):
                self.expect(False, label, "not text: %s" % type(obs).__name__)
                return
            same = exp.eq(obs) if isinstance(exp, text.SymStr) else obs == exp
            self.expect(same, label, "%r / %r" % (obs, exp))
        else:
            self.expect(obs == exp, label)

    def decoded(self, raw):
        """UTF-8 text of raw with undecodable bytes dropped."""
        if isinstance(raw, bytes):
            return raw.decode("utf-8", "ignore")
        return text.decode(raw, "utf-8", "ignore")

    def is_array(self, obj):
        return isinstance(obj, symctypes.Array)

    def witness(self, name):
        self.c.witness(name)

    def flush(self):
        self.c.flush()

    def surroundings(self):
        """Must precede the first use of the package: arbitrary environment variables, terminal and encoding."""
        self.env.around, self.machine = env_mod.Surroundings(), 1

    def elsewhere(self):
        """Another machine and directory, standard output no terminal, no environment variables."""
        self.env.around.leave()
        self.env.place, self.machine = env_mod.TEMP + "place2", 2

    def ascii(self, txt, label):
        """The printed text has ASCII characters only, whatever the log holds."""
        for name, leaf in self.env.leaves.items():
            if not name.isascii() and name in txt:
                # As good as any other text with a character outside.
                self.expect(Not(leaf.eq("\u00e9")), label, "text is printed as it is")
                txt = txt.replace(name, "")
        self.expect(txt.isascii(), label, "characters outside of ASCII")

    # the command
    def run_main(self, argv, files, bad=None, full=None, restricted=False, call=None, errno=None):
        """Run the command; files: name -> (File, compressed).  Returns (Outcome, documents, text).

        call: a function of the reader module to run in place of its main().

        bad: name -> first byte of the log that cannot be read; full: number of the write to standard output that
        fails; errno: with which error; restricted: the user may only read, and `self.used` says what became of the files.
        """
        env = self.env
        env.bad, env.full, env.restricted, env.written, env.errno = bad or {}, full, restricted, 0, errno
        env.handles, env.crowded, env.refused, env.temporary = [], [], [], {}
        for name, (file, compressed) in files.items():
            self.env.add_file(name, [(file.view.src, 0, file.size)], compressed)
        self.env.argv = ["atoparser"] + list(argv)
        self.env.out, self.env.leaves = [], {}
        saved = sys.argv
        sys.argv = self.env.argv
        try:
            with contextlib.redirect_stderr(io.StringIO()), machine.machine(self.machine):
                out = self.call(self._main, call)
                if out.exc is not None:
                    out.exc = out.exc.with_traceback(None)
        finally:
            sys.argv = saved
        if env.still_open():
            gc.collect()
        self.used = Used(env.crowded, env.still_open(), env.refused, sorted(env.temporary), env.written)
        env.full, env.restricted = None, False
        try:
            txt, docs = self.env.documents()
        except ValueError:
            return out, None, "".join(self.env.out)
        return out, [self.env.restore(doc) for doc in docs], txt

    def _main(self, call):
        mod = self.package("atoparser.reader")
        sysmod = self.world.stub("sys")
        sysmod.argv = self.env.argv
        try:
            return call(mod) if call else mod.main()
        except (SystemExit, KeyboardInterrupt) as exc:
            return exc.with_traceback(None)


def _pair(obs, exp):
    try:
        return "%s instead of %s" % (values.describe(obs), values.describe(exp))
    except Exception:  # pylint: disable=broad-except
        return None


# --------------------------------------------------------------------------- concrete


class EndlessBytes:
    """The concrete counterpart of EndlessSym."""

    def __init__(self, data):
        self._data, self._pos, self.name, self.mode, self.closed = data, 0, "endless", "rb", False

    def read(self, size=-1):
        if size is None or size < 0:
            raise MemoryError("the whole of an endless file was asked for")
        out = bytearray()
        while len(out) < size:
            at = self._pos % len(self._data)
            part = self._data[at:at + size - len(out)]
            out += part
            self._pos += len(part)
        return bytes(out)

    read1 = read

    def readinto(self, buf):
        view = memoryview(buf).cast("B")
        view[:] = self.read(len(view))
        return len(view)

    readinto1 = readinto

    def tell(self):
        return self._pos

    def seek(self, offset, whence=0):
        self._pos = offset if whence == 0 else self._pos + offset if whence == 1 else EndlessSym.LIMIT + offset
        return self._pos

    def peek(self, size=0):
        pos = self._pos
        out = self.read(max(size, 1))
        self._pos = pos
        return out

    def seekable(self):
        return True

    readable = seekable

    def writable(self):
        return False

    def flush(self):
        pass

    close = flush


class ConDom:
    symbolic = False
    around = False, "utf-8"
    machine = None
    level = -1

    def __init__(self, inputs, tier="quick"):
        self.inputs, self.tier = inputs, tier
        self.writers = {}
        self.failures = []
        self.reached = {}
        self.zlib_error = zlib.error

    def file(self, name, size=None):
        data = self.inputs["files"].get(name)
        if data is None:
            data = b"\0" * (size if size is not None else 0)
        if size is not None and len(data) != size:
            data = data[:size].ljust(size, b"\0")
        return File(self, name, len(data), CBytes(data))

    def int(self, name, lo=None, hi=None):
        val = self.inputs["ints"].get(name)
        if val is None:
            val = lo if lo is not None else hi if hi is not None else 0
        return val

    def bool(self, name):
        return self.inputs["bools"].get(name, False)

    def choose(self, name, count):
        for i in range(count - 1):
            if self.bool("%s:%d" % (name, i)):
                return i
        return count - 1

    def _stream(self, file, start, length):
        data = file.view.data[start:]
        dec = zlib.decompressobj()
        try:
            out = dec.decompress(data)
        except zlib.error:
            return Stream(False, 8, 0, CBytes(b""))
        if not dec.eof:
            # Possibly the beginning of a longer valid stream.
            return Stream(True, len(data) + 8, 0, CBytes(b"")) if data[:1] == b"\x78" else \
                Stream(False, 8, 0, CBytes(b""))
        return Stream(True, len(data) - len(dec.unused_data), len(out), CBytes(out))

    def partial(self, view, off, count, size):
        return CBytes(view.data[off:off + count].ljust(size, b"\0"))

    def memory(self, size, name):
        file = self.file(name, size)
        return file.view, file.view.data

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def bind(self, value, const):
        if value != const:
            raise AssumptionFailed()

    def prefer(self, cond):
        pass

    def settle(self):
        pass

    def package(self, name="atoparser"):
        import importlib

        return importlib.import_module(name)

    def pickled(self, obj):
        return transfer.native(obj, self)

    def restart(self):
        for name in [name for name in sys.modules if (name + ".").startswith(rewrite.PACKAGE + ".")]:
            del sys.modules[name]

    def optimise(self, level):
        self.restart()
        self.level = level
        sys.meta_path[:] = [finder for finder in sys.meta_path if not isinstance(finder, realrun.Stripped)]
        sys.meta_path.insert(0, realrun.Stripped(rewrite.PACKAGE, level))

    def content(self, obj):
        return bytes(obj)

    def buffer(self, data):
        return bytearray(data)

    def wipe(self, obj):
        import ctypes

        ctypes.memset(ctypes.addressof(obj), 0, ctypes.sizeof(obj))

    def remembered(self, *extra):
        head = rewrite.PACKAGE
        return state.size([mod for name, mod in list(sys.modules.items())
                           if name == head or name.startswith(head + ".")], extra)

    def interruption(self, visits, back=False, share=None):
        at, to = self.int("at", 0), self.int("back at", 0)
        self.assume(share is None or at % share[1] == share[0])
        one = points.Interruption(lambda k: at == k, visits, (lambda k: to == k) if back else None)
        points.install(REPO, rewrite.PACKAGE, one.point)
        return one

    def breakdown(self, visits, kinds, share=None):
        at = self.int("at", 0)
        self.assume(share is None or at % share[1] == share[0])
        one = points.Breakdown(lambda k: at == k, visits, lambda: kinds[self.choose("kind", len(kinds))]())
        threading.Lock = realrun.Impatient
        points.install(REPO, rewrite.PACKAGE, one.point)
        return one

    def attempt(self, func):
        try:
            return Outcome(func())
        except (Exception, KeyboardInterrupt) as exc:  # pylint: disable=broad-except
            return Outcome(exc=exc.with_traceback(None))

    def steps(self, limit, native):
        one = points.Steps(native)
        points.install(REPO, rewrite.PACKAGE, one.point, self.level)
        return one

    def open(self, file, pos=0, disk=False):
        fh = tempfile.TemporaryFile() if disk else io.BytesIO()
        fh.write(file.view.data)
        fh.seek(pos)
        return fh

    def growing(self, file, size):
        num, name = tempfile.mkstemp(prefix="atopverif")
        os.write(num, file.view.data[:size])
        fh = open(name, "rb")
        os.unlink(name)
        weakref.finalize(fh, os.close, num)
        self.writers[fh.fileno()] = num
        return fh

    def grow(self, fh, file, size=None):
        num = self.writers[fh.fileno()]
        os.pwrite(num, file.view.data[:size], 0)

    def fifo(self):
        read, write = os.pipe()
        os.close(write)
        weakref.finalize(self, os.close, read)
        return read

    def endless(self, file, period):
        return EndlessBytes(file.view.data[:period])

    def call(self, func, *args, **kwargs):
        try:
            return Outcome(func(*args, **kwargs))
        except (Exception, points.Endless) as exc:  # pylint: disable=broad-except
            return Outcome(exc=exc)

    def length(self, obj):
        return len(obj)

    def at(self, arr, index):
        return arr[index]

    def indices(self, name, count):
        return range(count)

    def expect(self, cond, label, detail=None):
        if not cond and len(self.failures) < 20:
            self.failures.append({"label": label, "detail": None if detail is None else str(detail)[:400]})

    def same(self, obs, exp, label):
        if type(exp) is float:
            good = type(obs) is float and (struct.pack("<d", obs) == struct.pack("<d", exp) or obs != obs and exp != exp)
        else:
            good = type(obs) is type(exp) and obs == exp
        if not good:
            self.expect(False, label, "observed %.150r, expected %.150r" % (obs, exp))

    def decoded(self, raw):
        return raw.decode("utf-8", "ignore")

    def is_array(self, obj):
        import ctypes

        return isinstance(obj, ctypes.Array)

    def witness(self, name):
        self.reached[name] = self.reached.get(name, 0) + 1

    def flush(self):
        pass

    def surroundings(self):
        for name, given in self.inputs["bools"].items():
            if not name.startswith("env?"):
                continue
            os.environ.pop(name[4:], None)
            if given:
                data = self.inputs["files"].get("env:" + name[4:], b"").split(b"\0")[0]
                os.environ[name[4:]] = data.decode("utf-8", "ignore")
        self.around = self.bool("tty"), "utf-8" if self.bool("utf-8") else "ascii" if self.bool("ascii") else "iso8859-1"
        self.machine, self.columns = 1, self.inputs["ints"].get("columns", 80)

    def elsewhere(self):
        for name in self.inputs["bools"]:
            if name.startswith("env?"):
                os.environ.pop(name[4:], None)
        self.around, self.machine = (False, "utf-8"), 2

    def _size(self, fd=1):
        if not self.around[0]:
            raise OSError(25, "Inappropriate ioctl for device")
        return os.terminal_size((self.columns, 24))

    def ascii(self, txt, label):
        self.expect(txt.isascii(), label, "characters outside of ASCII")

    def run_main(self, argv, files, bad=None, full=None, restricted=False, call=None, errno=None):
        import gzip
        import json

        work = tempfile.mkdtemp(prefix="atopverif")
        cwd = os.getcwd()
        out = realrun.Output()
        out.terminal, out.encoding = self.around
        saved = sys.argv
        try:
            os.chdir(work)
            for name, (file, compressed) in files.items():
                if os.path.dirname(name):
                    os.makedirs(os.path.dirname(name), exist_ok=True)
                with open(name, "wb") as fh:
                    fh.write(gzip.compress(file.view.data, 1) if compressed else file.view.data)
            sys.argv = ["atoparser"] + list(argv)
            mod = self.package("atoparser.reader")

            def run():
                try:
                    return call(mod) if call else mod.main()
                except (SystemExit, KeyboardInterrupt) as exc:
                    return exc.with_traceback(None)

            with contextlib.redirect_stderr(io.StringIO()):
                also = [] if self.machine is None else [(os, "get_terminal_size", self._size)] + [
                    (locale, *entry) for entry in env_mod.locale_functions(lambda: self.around[1])]
                with realrun.Guard(work, list(files), bad or {}, full, restricted, out, errno) as guard, \
                        machine.machine(self.machine, also):
                    res = self.call(run)
                    if res.exc is not None:
                        res.exc = res.exc.with_traceback(None)
                self.used = guard.used()
        finally:
            sys.argv = saved
            os.chdir(cwd)
            shutil.rmtree(work, ignore_errors=True)
        txt = out.getvalue()
        decoder, pos, docs = json.JSONDecoder(), 0, []
        try:
            while True:
                while pos < len(txt) and txt[pos] in " \t\r\n":
                    pos += 1
                if pos >= len(txt):
                    break
                doc, pos = decoder.raw_decode(txt, pos)
                docs.append(doc)
        except ValueError:
            return res, None, txt
        return res, docs, txt
