"""Files, decompression and the other environment stubs."""
import io as real_io
import os
import struct as real_struct
import types
import zlib as real_zlib

from . import core
from .core import Unsupported
from .symctypes import Array, Structure, _SimpleCData
from .text import (BytesBase, SymByteArray, SymBytes, cut, make_bytes, norm, seg_len, segs_of, slice_bounds)
from .values import (canon, And, DSrc, FileSrc, Not, SymBool, SymInt, _atom, bool_atom, const_src, d_src, field, file_src,
                     float_field, k, lift, partial_src, val_src, var, wrap)


def fail(text):
    core.CTX.fail_path(Unsupported(text))


# --------------------------------------------------------------------------- files


class SymFile(real_io.IOBase):
    """A seekable binary file over symbolic content."""

    bad = None  # from this byte on, reading fails
    errno = 5  # with this error
    descriptor = None  # the number of its file descriptor, if it has one
    unzipped = False  # a gzip file read through the gzip module

    def __init__(self, segs=b"", name=None, mode="rb"):
        if not isinstance(segs, list):
            segs = segs_of(segs)
        self._segs = segs
        self._size = seg_len(segs)
        self._pos = 0
        self._is_closed = False
        self.name = name
        self.mode = mode

    def extend(self, segs):
        """The file has grown: its content from now on."""
        self._segs, self._size = segs, seg_len(segs)

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_io.BufferedReader' object")

    def _check_open(self):
        if self._is_closed:
            raise ValueError("I/O operation on closed file.")

    def _take(self, size):
        """Segments of the next `size` bytes, fewer at the end of the file."""
        self._check_open()
        pos, total = self._pos, self._size
        if size is None or size < 0:
            stop = total
        elif pos + size <= total:
            stop = pos + size
        else:
            stop = total
        if stop <= pos:
            return []
        if self.bad is not None and stop > self.bad:
            raise OSError(self.errno, os.strerror(self.errno))
        self._pos = stop
        return cut(self._segs, pos, stop)

    def read(self, size=-1):
        if size is not None:
            size = lift(size)
            if size is None:
                raise TypeError("argument should be integer or None")
        return make_bytes(self._take(size))

    read1 = read

    def readinto(self, buf):
        if isinstance(buf, (bytearray, memoryview)):
            fail("readinto a native buffer")
        size = buf._buffer_size() if hasattr(buf, "_buffer_size") else None
        if size is None:
            raise TypeError("readinto() argument must be read-write bytes-like object")
        segs = self._take(size)
        got = seg_len(segs)
        if type(got) is int and type(size) is int:
            if got == 0:
                return 0
            if got < size:
                old = buf._buffer_segs()
                segs = norm(segs + cut(old, got, size))
            buf._write_segs(segs)
            return got
        if type(size) is not int:
            fail("readinto a buffer of symbolic size")
        full = got == size
        if full is True or (full is not False and bool(full)):
            buf._write_segs(cut(segs, 0, size))
            return size
        # Short read: the rest of the buffer keeps its content.
        old = buf._buffer_segs()
        if len(segs) != 1:
            fail("short read across segments")
        base, off, _ = segs[0]
        buf._write_segs([(partial_src(base, off, got, tuple(old)), 0, size)])
        return got

    readinto1 = readinto

    def tell(self):
        self._check_open()
        return self._pos

    def seek(self, offset, whence=0):
        self._check_open()
        base = 0 if whence == 0 else self._pos if whence == 1 else self._size
        pos = base + offset
        if pos < 0:
            raise (ValueError if whence == 0 else OSError)("negative seek position")
        self._pos = pos
        return pos

    def peek(self, size=0):
        pos = self._pos
        out = self.read(max(size, 1))
        self._pos = pos
        return out

    def getvalue(self):
        return make_bytes(self._segs)

    def getbuffer(self):
        return make_bytes(self._segs)

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return False

    def fileno(self):
        self._check_open()
        if self.descriptor is None:
            raise real_io.UnsupportedOperation("fileno")
        return self.descriptor

    def isatty(self):
        return False

    def flush(self):
        pass

    @property
    def closed(self):
        return self._is_closed

    def close(self):
        self._is_closed = True

    def __enter__(self):
        self._check_open()
        return self

    def __exit__(self, *exc):
        self.close()

    def __del__(self):
        pass

    def readline(self, *args):
        fail("readline on a symbolic file")

    readlines = __iter__ = __next__ = readline


class BytesIO(SymFile):
    def __init__(self, initial_bytes=b""):
        super().__init__(segs_of(initial_bytes))


# --------------------------------------------------------------------------- zlib


def stream_atoms(base, start):
    """(valid, compressed length, decompressed length) of the zlib stream starting at base[start]."""
    start = canon(start)
    valid = bool_atom("valid", (base_holder(base), start), (base.id, k(start)))
    zlen = wrap(_atom("zlen", (base, start), (base.id, k(start)), 8, None))
    dlen = wrap(_atom("dlen", (base, start), (base.id, k(start)), 0, None))
    return valid, zlen, dlen


class base_holder:
    """Argument wrapper so precise_constraints can group validity by file."""

    _cache = {}

    def __new__(cls, base):
        obj = cls._cache.get(base)
        if obj is None:
            obj = object.__new__(cls)
            obj.base = base
            cls._cache[base] = obj
        return obj


def note_stream(base, start, length):
    c = core.CTX
    if all(not (b is base and k(s) == k(start)) for b, s, _ in c.zcalls):
        c.zcalls.append((base, start, length))


def zlib_module():
    mod = types.ModuleType("zlib")
    for name in dir(real_zlib):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_zlib, name))

    def single(segs, what):
        if len(segs) != 1 or type(segs[0][0]) is not FileSrc:
            fail("%s of data that is not a slice of the file" % what)
        return segs[0]

    def decompress(data, /, wbits=15, bufsize=16384):
        segs = norm(segs_of(data) or []) if segs_of(data) is not None else None
        if segs is None:
            raise TypeError("a bytes-like object is required")
        if isinstance(make_bytes(segs), bytes):
            return real_zlib.decompress(make_bytes(segs), wbits)
        if wbits not in (0, 15, 47):
            if 8 <= wbits < 15 or wbits in (32,):
                fail("window size %r" % wbits)
            raise real_zlib.error("Error -3 while decompressing data: incorrect header check")
        src, start, length = single(segs, "decompress")
        valid, zlen, dlen = stream_atoms(src, start)
        note_stream(src, start, length)
        good = And(valid, zlen <= length)
        if good:
            return make_bytes([(d_src(src, start), 0, dlen)])
        raise real_zlib.error("Error -5 while decompressing data: incomplete or truncated stream")

    class Decompress:
        """Streaming interface: the input is collected and judged as one slice."""

        def __init__(self):
            self._segs, self.eof, self.unused_data, self.unconsumed_tail = [], False, b"", b""
            self._done = 0

        def decompress(self, data, max_length=0):
            new = segs_of(data)
            if new is None:
                raise TypeError("a bytes-like object is required")
            if self.eof:
                self.unused_data = self.unused_data + data
                return b""
            self._segs = norm(self._segs + new)
            if not self._segs:
                return b""
            src, start, length = single(self._segs, "decompressobj")
            valid, zlen, dlen = stream_atoms(src, start)
            note_stream(src, start, length)
            if not valid:
                if bool_atom("zlate", (src.id, k(start)), (src.id, k(start))):
                    raise real_zlib.error("Error -3 while decompressing data: invalid stream")
                total = self._partial(src, start, length)
            elif zlen <= length:
                total = dlen
                self.eof = True
                self.unused_data = make_bytes(cut(self._segs, zlen, length))
            else:
                total = self._partial(src, start, length)
                core.CTX.assume(total <= dlen)
                core.CTX.soft.append(total == dlen)
            if max_length and total - self._done > max_length:
                fail("decompressobj with max_length below the output size")
            out = make_bytes([(d_src(src, start), self._done, total - self._done)])
            self._done = total
            return out

        def _partial(self, src, start, length):
            """The output so far of a stream that has not ended."""
            c = core.CTX
            total = wrap(_atom("zpart", (src, start), (src.id, k(start), k(length)), 0, None))
            c.zparts[(src, k(start))] = total
            c.soft += [length >= 20000, total <= 3000000]
            return total

        def flush(self, length=0):
            return b""

        def copy(self):
            fail("copy of a decompressobj")

    mod.decompress = decompress
    mod.decompressobj = lambda wbits=15, zdict=b"": Decompress()
    return mod


# --------------------------------------------------------------------------- struct


def struct_module():
    mod = types.ModuleType("struct")
    mod.error = real_struct.error
    mod.calcsize = real_struct.calcsize

    def parse(fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        order = "@"
        body = fmt
        if body[:1] in "@=<>!":
            order, body = body[0], body[1:]
        if order in ">!":
            big = True
        else:
            big = False
        items, done, num = [], order, ""
        for ch in body:
            if ch.isspace():
                continue
            if ch.isdigit():
                num += ch
                continue
            count = int(num) if num else 1
            num = ""
            if ch in "sp":
                done += "%d%s" % (count, ch)
                end = real_struct.calcsize(done)
                items.append((ch, end - count, count, big))
            elif ch == "x":
                done += "%dx" % count
            else:
                for _ in range(count):
                    done += ch
                    size = real_struct.calcsize(order + ch if order != "@" else "@" + ch)
                    end = real_struct.calcsize(done)
                    items.append((ch, end - size, size, big))
        return items, real_struct.calcsize(fmt)

    def unpack_at(fmt, data, base, exact):
        segs = segs_of(data)
        items, size = parse(fmt)
        total = seg_len(segs)
        if base < 0:
            base = base + total
        if (exact and total != size) or (not exact and total - base < size):
            raise real_struct.error("unpack requires a buffer of %d bytes" % size)
        rope = SymBytes(cut(segs, base, base + size))
        native = make_bytes(rope.segs)
        if isinstance(native, bytes):
            return real_struct.unpack(fmt, native)
        out = []
        for ch, off, width, big in items:
            if ch == "s":
                out.append(rope[off:off + width])
            elif ch == "c":
                out.append(rope[off:off + 1])
            elif ch in "fd":
                if big or len(rope.segs) != 1:
                    fail("float format")
                out.append(float_field(rope.segs[0][0], rope.segs[0][1] + off, width))
            elif ch == "?":
                out.append(rope.int_at(off, 1, False) != 0)
            elif ch in "bBhHiIlLqQnN":
                if big:
                    from .values import join_bytes

                    out.append(join_bytes([rope.byte(off + width - 1 - i) for i in range(width)], ch.islower()))
                else:
                    out.append(rope.int_at(off, width, ch.islower()))
            else:
                fail("struct format %r" % ch)
        return tuple(out)

    def unpack(fmt, data):
        return unpack_at(fmt, data, 0, True)

    def unpack_from(fmt, buffer, offset=0):
        return unpack_at(fmt, buffer, offset, False)

    def iter_unpack(fmt, data):
        size = real_struct.calcsize(fmt)
        segs = segs_of(data)
        total = seg_len(segs)
        if total % size != 0:
            raise real_struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
        pos = 0
        while pos < total:
            core.CTX.tick()
            yield unpack_at(fmt, data, pos, False)
            pos += size

    def pack(fmt, *values):
        from .text import has_sym

        if not any(has_sym(v) for v in values):
            return real_struct.pack(fmt, *values)
        items, size = parse(fmt)
        out, pos = [], 0
        for (ch, off, width, big), value in zip(items, values):
            if off > pos:
                out.append((const_src(b"\0" * (off - pos)), 0, off - pos))
            if ch in "bBhHiIlLqQ":
                out += segs_of(value.to_bytes(width, "big" if big else "little", signed=ch.islower()))
            elif ch == "s":
                fail("pack of symbolic text")
            else:
                fail("struct format %r" % ch)
            pos = off + width
        return make_bytes(out)

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = real_struct.calcsize(fmt)

        def unpack(self, data):
            return unpack(self.format, data)

        def unpack_from(self, buffer, offset=0):
            return unpack_from(self.format, buffer, offset)

        def iter_unpack(self, data):
            return iter_unpack(self.format, data)

        def pack(self, *values):
            return pack(self.format, *values)

    mod.unpack, mod.unpack_from, mod.iter_unpack, mod.pack, mod.Struct = unpack, unpack_from, iter_unpack, pack, Struct
    return mod


def io_module():
    mod = types.ModuleType("io")
    for name in dir(real_io):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_io, name))
    mod.BytesIO = BytesIO

    def passthrough(raw, *args, **kwargs):
        return raw

    def buffered(raw, buffer_size=8192):
        if isinstance(raw, SymFile):
            return raw
        return real_io.BufferedReader(raw, buffer_size)

    mod.BufferedReader = buffered
    return mod
