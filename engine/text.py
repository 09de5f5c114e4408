"""Symbolic byte strings and text."""
import codecs
import re

from . import core
from .core import Unsupported
from .values import (DSrc, And, canon, d_src, Iff, Implies, Not, Or, SymBool, SymFloat, SymInt, ConstSrc, const_src, bool_atom, eq_, field,
                     ite, join_bytes, k, lift, no_attr, op, partial_src, to_z3, val_src, var)
import z3


def fail(text):
    core.CTX.fail_path(Unsupported(text))


# --------------------------------------------------------------------------- segments


def norm(segs):
    """Drop empty segments and merge adjacent ones of the same source."""
    out = []
    for src, off, length in segs:
        if type(length) is int and length <= 0:
            continue
        if out:
            psrc, poff, plen = out[-1]
            if psrc is src:
                gap = off - (poff + plen)
                if type(gap) is int and gap == 0:
                    out[-1] = (src, poff, plen + length)
                    continue
            if type(psrc) is ConstSrc and type(src) is ConstSrc and type(off) is int and type(poff) is int \
                    and type(plen) is int and type(length) is int:
                out[-1] = (const_src(psrc.data[poff:poff + plen] + src.data[off:off + length]), 0, plen + length)
                continue
        out.append((src, off, length))
    return out


def seg_len(segs):
    total = 0
    for seg in segs:
        total = total + seg[2]
    return total


def cut(segs, start, stop):
    """Segments of [start, stop) with 0 <= start <= stop <= length already established."""
    out, pos = [], 0
    if len(segs) == 1:
        src, off, length = segs[0]
        return norm([(src, off + start, stop - start)])
    for src, off, length in segs:
        end = pos + length
        if stop <= pos:
            break
        if start < end:
            lo = start if start > pos else pos
            hi = stop if stop < end else end
            out.append((src, off + (lo - pos), hi - lo))
        pos = end
    return norm(out)


def slice_bounds(item, length):
    """Normalise a step-less slice against a length, as CPython does."""
    step = item.step
    if step is not None and step != 1:
        fail("slice with a step over symbolic bytes")
    start, stop = item.start, item.stop

    def clamp(val, default):
        if val is None:
            return default
        if not isinstance(val, (int, SymInt, SymBool)):
            if hasattr(type(val), "__index__"):
                val = val.__index__()
            else:
                raise TypeError("slice indices must be integers or None or have an __index__ method")
        val = lift(val)
        if val < 0:
            val = val + length
            if val < 0:
                return 0
        if val > length:
            return length
        return val

    lo, hi = clamp(start, 0), clamp(stop, length)
    if hi < lo:
        hi = lo
    return lo, hi


def segs_of(value):
    """Segments of any bytes-like value, or None."""
    if isinstance(value, SymBytes):
        return value.segs
    if isinstance(value, CStr):
        return value.materialise().segs
    if isinstance(value, (bytes, bytearray)):
        return [(const_src(bytes(value)), 0, len(value))] if value else []
    if isinstance(value, memoryview):
        return segs_of(value.tobytes())
    buf = getattr(value, "_buffer_segs", None)
    if buf is not None:
        return buf()
    return None


def make_bytes(segs):
    """SymBytes, or native bytes when the content is concrete."""
    segs = norm(segs)
    if not segs:
        return b""
    if len(segs) == 1 and type(segs[0][0]) is ConstSrc and type(segs[0][1]) is int and type(segs[0][2]) is int:
        return segs[0][0].data[segs[0][1]:segs[0][1] + segs[0][2]]
    return SymBytes(segs)


class BytesBase:
    """Anything that passes for bytes."""

    __slots__ = ()

    def __getattr__(self, name):
        for kind in (bytes, bytearray, memoryview):
            if hasattr(kind, name):
                return no_attr(name, kind)
        return no_attr(name, bytes)

    # Lexicographic order against constant bytes.
    def _below(self, other):
        if not isinstance(other, (bytes, bytearray)):
            if isinstance(other, BytesBase):
                fail("order of two symbolic byte strings")
            return None
        length = strlen_of(self)
        for i, byte in enumerate(bytes(other)):
            if length <= i:
                return True
            mine = self[i]
            if mine != byte:
                return mine < byte
        return False

    def __lt__(self, other):
        below = self._below(other)
        return NotImplemented if below is None else below

    def __ge__(self, other):
        below = self._below(other)
        return NotImplemented if below is None else Not(below)

    def __le__(self, other):
        # Nothing lies between `other` and `other` followed by a NUL.
        if isinstance(other, (bytes, bytearray)):
            return self._below(bytes(other) + b"\0")
        return self.__lt__(other)

    def __gt__(self, other):
        below = self.__le__(other)
        return below if below is NotImplemented else Not(below)

    def _unsupported(self, *args):
        fail("an operation on symbolic bytes")

    __add__ = __radd__ = __mul__ = __rmul__ = __mod__ = __rmod__ = __contains__ = __iter__ = __bytes__ = _unsupported
    __getitem__ = __len__ = _unsupported


class SymBytes(BytesBase):
    """A sequence of slices of byte sources; lengths may be symbolic."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = norm(segs)

    @property
    def key(self):
        return ("bytes",) + tuple((s.id, k(o), k(n)) for s, o, n in self.segs)

    def length(self):
        return seg_len(self.segs)

    def __len__(self):
        length = self.length()
        return length if type(length) is int else core.CTX.decide_value(length)

    def __bool__(self):
        return bool(self.length() != 0)

    def concrete_len(self):
        length = self.length()
        if type(length) is not int:
            length = core.CTX.decide_value(length)
        return length

    def byte(self, pos):
        if type(pos) is int and pos == 0 and self.segs:
            src, off, _ = self.segs[0]
            return field(src, off, 1, False)
        start = 0
        for src, off, length in self.segs:
            if len(self.segs) == 1 or pos < start + length:
                return field(src, off + (pos - start), 1, False)
            start = start + length
        raise IndexError("index out of range")

    def int_at(self, pos, size, signed):
        start = 0
        for src, off, length in self.segs:
            if len(self.segs) == 1 or pos + size <= start + length:
                if pos >= start:
                    return field(src, off + (pos - start), size, signed)
                break
            start = start + length
        return join_bytes([self.byte(pos + i) for i in range(size)], signed)

    def __getitem__(self, item):
        length = self.length()
        if isinstance(item, slice):
            if item.step is not None and item.step != 1:
                data = [self.byte(i) for i in range(*item.indices(self.concrete_len()))]
                return make_bytes([(val_src(data), 0, len(data))])
            lo, hi = slice_bounds(item, length)
            return make_bytes(cut(self.segs, lo, hi))
        if not isinstance(item, (int, SymInt)):
            raise TypeError("byte indices must be integers or slices")
        if item < 0:
            item = item + length
        if item < 0 or item >= length:
            raise IndexError("index out of range")
        return self.byte(item)

    def __iter__(self):
        pos = 0
        while pos < self.length():
            core.CTX.tick()
            yield self.byte(pos)
            pos += 1

    def __add__(self, other):
        segs = segs_of(other)
        return NotImplemented if segs is None else make_bytes(self.segs + segs)

    def __radd__(self, other):
        segs = segs_of(other)
        return NotImplemented if segs is None else make_bytes(segs + self.segs)

    def __mul__(self, times):
        return make_bytes(self.segs * max(0, times.__index__()))

    __rmul__ = __mul__

    def ljust(self, width, fill=b" "):
        """Padded on the right; the padding of a symbolic length is one source of fixed width."""
        length = self.length()
        if length >= width:
            return self
        if type(width) is int and type(length) is not int and len(self.segs) == 1:
            src, off, _ = self.segs[0]
            return make_bytes([(partial_src(src, off, length, ((const_src(bytes(fill) * width), 0, width),)), 0, width)])
        missing = core.CTX.decide_value(width - length) if isinstance(width - length, SymInt) else width - length
        return make_bytes(list(self.segs) + [(const_src(bytes(fill) * missing), 0, missing)])

    def rjust(self, width, fill=b" "):
        length = self.length()
        if length >= width:
            return self
        missing = core.CTX.decide_value(width - length) if isinstance(width - length, SymInt) else width - length
        return make_bytes([(const_src(bytes(fill) * missing), 0, missing)] + list(self.segs))

    @property
    def nbytes(self):
        return self.length()

    obj = property(lambda self: self)
    itemsize, ndim, readonly, format, contiguous = 1, 1, True, "B", True

    def toreadonly(self):
        return self

    def eq(self, other):
        """SymBool for content equality."""
        if isinstance(other, CStr):
            other = other.materialise()
        segs = segs_of(other)
        if segs is None:
            return False
        if SymBytes(segs).key == self.key:
            return True
        mine, theirs = self.length(), seg_len(segs)
        same = mine == theirs
        if same is False:
            return False
        if type(theirs) is not int and type(mine) is not int:
            return opaque_eq(self.key, SymBytes(segs).key)
        size = theirs if type(theirs) is int else mine
        if size > 4096:
            return opaque_eq(self.key, SymBytes(segs).key)
        if type(mine) is not int or type(theirs) is not int:
            core_same = same
            if not core_same:
                return False
        theirs_ = SymBytes(segs)
        return And(same, *[self.byte(i) == theirs_.byte(i) for i in range(size)])

    def __eq__(self, other):
        if segs_of(other) is None:
            return NotImplemented
        return self.eq(other)

    def __ne__(self, other):
        if segs_of(other) is None:
            return NotImplemented
        return Not(self.eq(other))

    def __hash__(self):
        if core.CTX.hash_ok:
            return 0
        fail("hash of symbolic bytes")

    def __contains__(self, item):
        if isinstance(item, (int, SymInt)):
            return any(b == item for b in self)
        return self.find(item) >= 0

    def __repr__(self):
        return "<SymBytes %d segs>" % len(self.segs)

    # bytes API
    def find(self, sub, start=0, end=None):
        if start == 0 and end is None and sub in (b"\0", 0):
            size = self.concrete_len()
            if len(self.segs) == 1 and size <= 1024:
                src, off, _ = self.segs[0]
                slen = strlen(src, off, size)
                return ite(slen == size, -1, slen)
        if isinstance(sub, int):
            sub = bytes([sub])
        size = self.concrete_len()
        for i in range(start, (size if end is None else min(size, end)) - len(sub) + 1):
            core.CTX.tick()
            if And(*[self.byte(i + j) == sub[j] for j in range(len(sub))]):
                return i
        return -1

    def index(self, sub, *args):
        pos = self.find(sub, *args)
        if pos < 0:
            raise ValueError("subsection not found")
        return pos

    def as_cstr(self):
        """Content up to the first NUL."""
        size = self.concrete_len()
        if len(self.segs) == 1:
            return cstr(self.segs[0][0], self.segs[0][1], size)
        return cstr(val_src([self.byte(i) for i in range(size)]), 0, size)

    def split(self, sep=None, maxsplit=-1):
        if sep == b"\0":
            head = self.as_cstr()
            return SplitResult(head)
        return [TextBytes(("split", self.key, sep, maxsplit))]

    def partition(self, sep):
        if sep == b"\0":
            head = self.as_cstr()
            has = strlen_of(head) < self.length()
            if has:
                return head, b"\0", self[strlen_of(head) + 1:]
            return self, b"", b""
        fail("partition of symbolic bytes")

    def rstrip(self, chars=None):
        return TextBytes(("rstrip", self.key, chars))

    def strip(self, chars=None):
        return TextBytes(("strip", self.key, chars))

    def lstrip(self, chars=None):
        return TextBytes(("lstrip", self.key, chars))

    def replace(self, *args):
        return TextBytes(("replace", self.key) + args)

    def startswith(self, prefix, *args):
        if args:
            fail("startswith with bounds")
        if isinstance(prefix, tuple):
            return Or(*[self.startswith(p) for p in prefix])
        if self.length() < len(prefix):
            return False
        return And(*[self.byte(i) == prefix[i] for i in range(len(prefix))])

    def endswith(self, suffix):
        size = self.length()
        if size < len(suffix):
            return False
        return And(*[self.byte(size - len(suffix) + i) == suffix[i] for i in range(len(suffix))])

    def count(self, *args):
        fail("count over symbolic bytes")

    def hex(self, *args):
        return SymStr((Text(("hex", self.key, args)),))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def join(self, items):
        segs = []
        for i, item in enumerate(items):
            if i:
                segs = segs + self.segs
            segs = segs + segs_of(item)
        return make_bytes(segs)

    def tobytes(self):
        return make_bytes(self.segs)

    def __bytes__(self):
        fail("native bytes() of symbolic bytes")

    # memoryview API
    nbytes = property(lambda self: self.length())

    def release(self):
        pass

    def cast(self, fmt):
        if fmt not in ("B", "b", "c"):
            fail("memoryview cast")
        return self

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def tolist(self):
        return list(self)


class SplitResult(list):
    """bytes.split(b'\\0'): only the first part is modelled."""

    def __init__(self, head):
        super().__init__([head])

    def __getitem__(self, item):
        if item == 0:
            return list.__getitem__(self, 0)
        fail("later part of a split")

    def __len__(self):
        fail("number of parts of a split")


class TextBytes(BytesBase):
    """Opaque function of symbolic bytes."""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = ("opaque",) + tuple(key)

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def __eq__(self, other):
        if isinstance(other, TextBytes) and other.key == self.key:
            return True
        if isinstance(other, (bytes, BytesBase)):
            return opaque_eq(self.key, getattr(other, "key", other))
        return NotImplemented

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else Not(res)

    def __bool__(self):
        return bool(Not(opaque_eq(self.key, b"")))

    def __hash__(self):
        fail("hash of symbolic bytes")

    def __getitem__(self, item):
        return TextBytes(("item", self.key, str(item)))

    def strip(self, chars=None):
        return TextBytes(("strip", self.key, chars))

    def rstrip(self, chars=None):
        return TextBytes(("rstrip", self.key, chars))

    def lstrip(self, chars=None):
        return TextBytes(("lstrip", self.key, chars))

    def split(self, sep=None, maxsplit=-1):
        return [TextBytes(("split", self.key, sep, maxsplit))]


WHITE = b" \t\n\r\x0b\x0c"


class Stripped(TextBytes):
    """strip()/lstrip()/rstrip() of a C string: emptiness and being unchanged are exact, the rest is opaque."""

    __slots__ = ("base", "chars", "left", "right")

    def __init__(self, base, chars, left, right):
        kind = {(True, True): "strip", (True, False): "lstrip", (False, True): "rstrip"}[left, right]
        super().__init__((kind, base.key, chars))
        self.base, self.left, self.right = base, left, right
        self.chars = WHITE if chars is None else bytes(chars)

    def _in(self, byte):
        return Or(*[byte == ch for ch in self.chars])

    def empty(self):
        base, res = self.base, True
        for i in reversed(range(base.cap)):
            res = Or(base.byte(i) == 0, And(self._in(base.byte(i)), res))
        return res

    def unchanged(self):
        base = self.base
        conds = []
        if self.left:
            conds.append(Not(self._in(base.byte(0))))
        if self.right:
            # tail(i): the rest from i on does not end with a stripped character.
            tail = Not(self._in(base.byte(base.cap - 1)))
            for i in reversed(range(base.cap - 1)):
                tail = ite_bool(base.byte(i + 1) == 0, Not(self._in(base.byte(i))), tail)
            conds.append(tail)
        return Or(base.byte(0) == 0, And(*conds))

    def __bool__(self):
        return bool(Not(self.empty()))

    def eq(self, other):
        if isinstance(other, CStr) and other.key == self.base.key:
            return self.unchanged()
        if isinstance(other, (bytes, bytearray)) and not other:
            return self.empty()
        if isinstance(other, TextBytes) and other.key == self.key:
            return True
        return opaque_eq(self.key, getattr(other, "key", other))

    def __eq__(self, other):
        if isinstance(other, (bytes, BytesBase)):
            return self.eq(other)
        return NotImplemented

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else Not(res)

    def __hash__(self):
        fail("hash of symbolic bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        codec = canon_codec(encoding)
        if errors == "strict" and not valid_pred(self.base, codec):
            raise UnicodeDecodeError(codec, b"?", 0, 1, "invalid byte")
        return SymStr((Text(("decode", self.key, codec, errors), self, codec, errors),))


def ite_bool(cond, yes, no):
    return And(Or(Not(cond), yes), Or(cond, no))


def opaque_eq(a, b):
    key = tuple(sorted((repr(a), repr(b))))
    return bool_atom("opaque_eq", key, key)


# --------------------------------------------------------------------------- C strings


def strlen(src, off, cap):
    if cap == 0:
        return 0
    if type(src) is ConstSrc and type(off) is int:
        data = src.data[off:off + cap]
        return data.index(0) if 0 in data else len(data)
    return _strlen(src, off, cap)


def _strlen(src, off, cap):
    from .values import _atom, wrap

    return wrap(_atom("strlen", (src, off, cap), (src.id, k(off), cap), 0, cap))


def strlen_of(value):
    if isinstance(value, CStr):
        return strlen(value.src, value.off, value.cap)
    if isinstance(value, bytes):
        return len(value)
    return value.length()


def cstr(src, off, cap):
    if type(cap) is int and cap == 0:
        return b""
    if type(src) is ConstSrc and type(off) is int:
        data = src.data[off:off + cap]
        return data.split(b"\0", 1)[0]
    off = canon(off)
    if type(src) is DSrc:
        src = d_src(src.base, src.start)
    return CStr(src, off, cap)


class CStr(BytesBase):
    """The bytes up to the first NUL of a char array of `cap` bytes."""

    __slots__ = ("src", "off", "cap")

    def __init__(self, src, off, cap):
        self.src, self.off, self.cap = src, off, cap

    @property
    def key(self):
        return ("cstr", self.src.id, k(self.off), self.cap)

    def byte(self, i):
        return field(self.src, self.off + i, 1, False)

    def length(self):
        return strlen(self.src, self.off, self.cap)

    def __len__(self):
        return core.CTX.decide_value(self.length(), cap=400)

    def __bool__(self):
        return bool(self.byte(0) != 0)

    def materialise(self):
        return SymBytes([(self.src, self.off, self.length())])

    def eq(self, other):
        if isinstance(other, CStr):
            if other.key == self.key:
                return True
            if self.src is other.src and self.cap == other.cap:
                diff = other.off - self.off
                if type(diff) is not int:
                    # Same place, or contents that differ somewhere (decided on concrete content by the replay).
                    return Or(eq_(diff), opaque_eq(self.key, other.key))
            return opaque_eq(self.key, other.key)
        if isinstance(other, (bytes, bytearray)):
            other = bytes(other)
            if len(other) > self.cap or 0 in other:
                return False
            conds = [self.byte(i) == b for i, b in enumerate(other)]
            if len(other) < self.cap:
                conds.append(self.byte(len(other)) == 0)
            return And(*conds)
        if isinstance(other, BytesBase):
            return opaque_eq(self.key, other.key)
        return False

    def __eq__(self, other):
        if not isinstance(other, (bytes, bytearray, BytesBase)):
            return NotImplemented
        return self.eq(other)

    def __ne__(self, other):
        if not isinstance(other, (bytes, bytearray, BytesBase)):
            return NotImplemented
        return Not(self.eq(other))

    def __hash__(self):
        if core.CTX.hash_ok:
            return 0
        fail("hash of symbolic bytes")

    def __getitem__(self, item):
        if isinstance(item, slice) and item.step in (None, 1) and item.start in (None, 0) \
                and (item.stop is None or (type(item.stop) is int and item.stop >= 0)):
            return self if item.stop is None else cstr(self.src, self.off, min(self.cap, item.stop))
        if isinstance(item, slice):
            return TextBytes(("slice", self.key, str(item)))
        if item < 0:
            item = item + self.length()
        if item < 0 or item >= self.length():
            raise IndexError("index out of range")
        return self.byte(item)

    def __iter__(self):
        for i in range(self.cap):
            core.CTX.tick()
            if self.byte(i) == 0:
                return
            yield self.byte(i)

    def __add__(self, other):
        return self.materialise() + other

    def __radd__(self, other):
        return other + self.materialise()

    def __contains__(self, item):
        if item in (b"\0", 0):
            return False
        return bool(bool_atom("contains", (repr(self.key), repr(item)), (repr(self.key), repr(item))))

    def __repr__(self):
        return "<CStr %s[%s:+%d]>" % (self.src.key[0], self.off, self.cap)

    def startswith(self, prefix, *args):
        if args:
            fail("startswith with bounds")
        if isinstance(prefix, tuple):
            return Or(*[self.startswith(p) for p in prefix])
        if len(prefix) > self.cap:
            return False
        return And(*[And(self.byte(i) == prefix[i], prefix[i] != 0) for i in range(len(prefix))])

    def endswith(self, suffix):
        return bool_atom("endswith", (repr(self.key), repr(suffix)), (repr(self.key), repr(suffix)))

    def split(self, sep=None, maxsplit=-1):
        if sep == b"\0":
            return [self]
        return [TextBytes(("split", self.key, sep, maxsplit))]

    def partition(self, sep):
        if sep == b"\0":
            return self, b"", b""
        fail("partition of symbolic bytes")

    def rstrip(self, chars=None):
        return self if chars == b"\0" else Stripped(self, chars, False, True)

    def strip(self, chars=None):
        return self if chars == b"\0" else Stripped(self, chars, True, True)

    def lstrip(self, chars=None):
        return self if chars == b"\0" else Stripped(self, chars, True, False)

    def replace(self, old, *rest):
        return self if old == b"\0" else TextBytes(("replace", self.key, old) + rest)

    def find(self, sub, *args):
        if sub in (b"\0", 0):
            return -1
        fail("find in symbolic text")

    def hex(self, *args):
        return SymStr((Text(("hex", self.key, args)),))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode(self, encoding, errors)

    def tobytes(self):
        return self


# --------------------------------------------------------------------------- decoding


def valid_pred(value, codec):
    """SymBool: the bytes decode without error in codec."""
    name = "valid_" + codec.replace("-", "_")
    first = None
    single = False
    if isinstance(value, CStr):
        first = value.byte(0)
        single = value.cap == 1
    elif isinstance(value, SymBytes):
        if value.length() == 0:
            return True
        first = value.byte(0)
        single = type(value.length()) is int and value.length() == 1
    if codec == "latin-1":
        return True
    if single and codec in ("utf-8", "ascii"):
        return first < 128
    base = repr(value.key)

    def axioms(c, atom):
        if first is not None:
            c.axiom(z3.Implies(to_z3(first) == 0, atom.var))
            c.axiom(z3.Implies(to_z3(first) == 255, z3.Not(atom.var)))
        if codec == "utf-8":
            asc = valid_pred(value, "ascii")
            if type(asc) is SymBool:
                c.axiom(z3.Implies(asc.z3(), atom.var))
        c.texts.setdefault(base, {"value": value})[codec] = atom

    return bool_atom(name, (base,), (base,), axioms)


def canon_codec(encoding):
    try:
        name = codecs.lookup(encoding).name
    except LookupError:
        raise
    return {"utf-8": "utf-8", "ascii": "ascii", "iso8859-1": "latin-1"}.get(name, name)


def decode(value, encoding="utf-8", errors="strict"):
    codec = canon_codec(encoding)
    if isinstance(value, TextBytes):
        return SymStr((Text(("decode", value.key, codec, errors)),))
    if isinstance(value, SymBytes) and type(value.length()) is int and value.length() == 0:
        return ""
    valid = valid_pred(value, codec)
    if errors == "strict":
        if not valid:
            raise UnicodeDecodeError(codec, b"?", 0, 1, "invalid byte")
    elif errors not in ("ignore", "replace", "backslashreplace", "surrogateescape", "surrogatepass"):
        if not valid:
            raise LookupError("unknown error handler name %r" % errors)
    return SymStr((Text(("decode", value.key, codec, errors), value, codec, errors),))


class Text:
    """An opaque piece of text with a structural key."""

    __slots__ = ("key", "value", "codec", "errors")

    def __init__(self, key, value=None, codec=None, errors=None):
        self.key, self.value, self.codec, self.errors = key, value, codec, errors

    def eq(self, other):
        if other.key == self.key:
            return True
        if self.value is not None and other.value is not None:
            if isinstance(other.value, Stripped) and not isinstance(self.value, Stripped):
                return other.eq(self)
            same = self.value.eq(other.value)
            if same is True:
                if self.codec == other.codec:
                    if valid_pred(self.value, self.codec) is True:
                        return True
                    # The modes differ exactly on undecodable bytes.
                    return valid_pred(self.value, self.codec)
                return And(valid_pred(self.value, "ascii"))
            return same
        return opaque_eq(self.key, other.key)

    def eq_const(self, text):
        if self.value is not None and self.codec in ("utf-8", "ascii", "latin-1"):
            try:
                raw = text.encode(self.codec)
            except UnicodeEncodeError:
                return opaque_eq(self.key, text)
            same = self.value.eq(raw)
            if self.errors == "ignore" and text == "":
                # Also empty if everything is undecodable.
                return Or(same, And(Not(valid_pred(self.value, self.codec)), opaque_eq(self.key, text)))
            if valid_pred(self.value, self.codec) is True:
                return same
            return Or(same, And(Not(valid_pred(self.value, self.codec)), opaque_eq(self.key, text)))
        return opaque_eq(self.key, text)


class Dec:
    """Decimal text of a symbolic integer."""

    __slots__ = ("num",)

    def __init__(self, num):
        self.num = num

    @property
    def key(self):
        return ("dec", k(self.num))


def make_str(parts):
    out = []
    for part in parts:
        if isinstance(part, SymStr):
            out.extend(part.parts)
        elif isinstance(part, str):
            if part:
                out.append(part)
        else:
            out.append(part)
    merged = []
    for part in out:
        if isinstance(part, str) and merged and isinstance(merged[-1], str):
            merged[-1] += part
        else:
            merged.append(part)
    if not merged:
        return ""
    if len(merged) == 1 and isinstance(merged[0], str):
        return merged[0]
    return SymStr(tuple(merged))


def to_str(value):
    """str(value)."""
    if isinstance(value, (str, SymStr)):
        return value
    if isinstance(value, SymBool):
        return "True" if value else "False"
    if isinstance(value, SymInt):
        return SymStr((Dec(value),))
    if isinstance(value, SymFloat):
        return SymStr((Text(("str", value.key)),))
    if isinstance(value, BytesBase):
        return SymStr((Text(("repr", value.key)),))
    if has_sym(value):
        if type(value) is list:
            return make_str(["["] + _sep(value) + ["]"])
        if type(value) is tuple:
            return make_str(["("] + _sep(value) + [",)" if len(value) == 1 else ")"])
        if type(value) is dict:
            parts = ["{"]
            for i, (key, val) in enumerate(value.items()):
                parts += [", "] if i else []
                parts += [to_repr(key), ": ", to_repr(val)]
            return make_str(parts + ["}"])
        return SymStr((Text(("str", id(value))),))
    return None


def _sep(items):
    out = []
    for i, item in enumerate(items):
        if i:
            out.append(", ")
        out.append(to_repr(item))
    return out


def to_repr(value):
    if isinstance(value, SymStr):
        return make_str(["'", value, "'"])
    res = to_str(value)
    return repr(value) if res is None or isinstance(value, str) else res


SYM = (SymInt, SymBool, SymFloat, BytesBase)


def has_sym(value, depth=3):
    if isinstance(value, SYM) or isinstance(value, SymStr):
        return True
    if depth and type(value) in (list, tuple):
        return any(has_sym(v, depth - 1) for v in value)
    if depth and type(value) is dict:
        return any(has_sym(v, depth - 1) or has_sym(key, 0) for key, v in value.items())
    return False


_DEC = r"(-?\d+)"


class SymStr:
    """Concatenation of constants, decimal numbers and opaque text."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __getattr__(self, name):
        return no_attr(name, str)

    @property
    def key(self):
        return ("str",) + tuple(p if isinstance(p, str) else p.key for p in self.parts)

    def only_dec(self):
        return all(isinstance(p, (str, Dec)) for p in self.parts)

    def concretise(self):
        """Native str, if it only depends on integers."""
        if not self.only_dec():
            fail("native use of symbolic text")
        return "".join(p if isinstance(p, str) else str(core.CTX.decide_value(p.num)) for p in self.parts)

    def eq(self, other):
        if isinstance(other, SymStr):
            if self.key == other.key:
                return True
            if len(self.parts) == len(other.parts) and all(
                    (isinstance(a, str) and a == b) or (isinstance(a, Dec) and isinstance(b, Dec)) or
                    (isinstance(a, Text) and isinstance(b, Text)) for a, b in zip(self.parts, other.parts)):
                if len([p for p in self.parts if not isinstance(p, str)]) == 1 or self.only_dec():
                    conds = []
                    for a, b in zip(self.parts, other.parts):
                        if isinstance(a, Dec):
                            conds.append(a.num == b.num)
                        elif isinstance(a, Text):
                            conds.append(a.eq(b))
                    return And(*conds)
            return opaque_eq(self.key, other.key)
        if len(self.parts) == 1 and isinstance(self.parts[0], Text):
            return self.parts[0].eq_const(other)
        if self.only_dec():
            for a, b in zip(self.parts, self.parts[1:]):
                if isinstance(a, Dec) and isinstance(b, Dec):
                    return opaque_eq(self.key, other)
            pattern = "".join(re.escape(p) if isinstance(p, str) else _DEC for p in self.parts)
            match = re.fullmatch(pattern, other)
            if not match:
                return False
            conds = []
            for part, digits in zip([p for p in self.parts if isinstance(p, Dec)], match.groups()):
                if str(int(digits)) != digits:
                    return False
                conds.append(part.num == int(digits))
            return And(*conds)
        return opaque_eq(self.key, other)

    def __eq__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return self.eq(other)

    def __ne__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return Not(self.eq(other))

    def _order(self, name, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        import operator

        func = getattr(operator, name)
        if self.only_dec():
            res = _table_lift(self, other, func)
            if res is not None:
                return res
            return func(self.concretise(), other.concretise() if isinstance(other, SymStr) else other)
        key = (name, repr(self.key), repr(getattr(other, "key", other)))
        return bool_atom("opaque_ord", key, key)

    def __lt__(self, other):
        return self._order("lt", other)

    def __le__(self, other):
        return self._order("le", other)

    def __gt__(self, other):
        return self._order("gt", other)

    def __ge__(self, other):
        return self._order("ge", other)

    def __hash__(self):
        if core.CTX.hash_ok:
            return 0
        return hash(self.concretise())

    def __bool__(self):
        if any(isinstance(p, (str, Dec)) for p in self.parts):
            return True
        return bool(Not(self.eq("")))

    def __add__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return make_str([self, other])

    def __radd__(self, other):
        if not isinstance(other, (str, SymStr)):
            return NotImplemented
        return make_str([other, self])

    def __len__(self):
        return len(self.concretise())

    def length(self):
        if self.only_dec():
            return len(self.concretise())
        return var("strlen_" + str(abs(hash(repr(self.key)))), 0, None)

    def __contains__(self, item):
        if isinstance(item, str) and self.only_dec() and not any(ch.isdigit() or ch == "-" for ch in item):
            return any(isinstance(p, str) and item in p for p in self.parts)
        if self.only_dec():
            return item in self.concretise()
        key = (repr(self.key), repr(item))
        return bool(bool_atom("str_contains", key, key))

    def __iter__(self):
        return iter(self.concretise())

    def __getitem__(self, item):
        if self.only_dec():
            return self.concretise()[item]
        return SymStr((Text(("item", self.key, str(item))),))

    def __str__(self):
        if self.only_dec():
            return self.concretise()
        fail("native str() of symbolic text")

    def __repr__(self):
        return "<SymStr %r>" % (self.parts,)

    def __format__(self, spec):
        fail("native format() of symbolic text")

    # str API
    def split(self, sep=None, maxsplit=-1):
        if sep is not None and self.only_dec() and not any(ch.isdigit() or ch == "-" for ch in sep):
            pieces, cur, splits = [], [], 0
            for part in self.parts:
                if isinstance(part, str) and (maxsplit < 0 or splits < maxsplit):
                    sub = part.split(sep, -1 if maxsplit < 0 else maxsplit - splits)
                    splits += len(sub) - 1
                    cur.append(sub[0])
                    for piece in sub[1:]:
                        pieces.append(make_str(cur))
                        cur = [piece]
                else:
                    cur.append(part)
            pieces.append(make_str(cur))
            return pieces
        if self.only_dec():
            return self.concretise().split(sep, maxsplit)
        return [SymStr((Text(("split", self.key, sep, maxsplit)),))]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep, maxsplit)
        return self.concretise().rsplit(sep, maxsplit)

    def partition(self, sep):
        parts = self.split(sep, 1)
        return (parts[0], sep, parts[1]) if len(parts) == 2 else (parts[0], "", "")

    def rpartition(self, sep):
        if self.only_dec() and len(self.split(sep)) == 2:
            return self.partition(sep)
        return self.concretise().rpartition(sep)

    def join(self, items):
        out = []
        for i, item in enumerate(items):
            if i:
                out.append(self)
            out.append(item)
        return make_str(out)

    def startswith(self, prefix, *args):
        if isinstance(prefix, tuple):
            return Or(*[self.startswith(p, *args) for p in prefix])
        if not args and isinstance(self.parts[0], str):
            if len(self.parts[0]) >= len(prefix):
                return self.parts[0].startswith(prefix)
            if not prefix.startswith(self.parts[0]):
                return False
        if self.only_dec():
            if not args:
                res = _table_lift(self, prefix, lambda a, b: a.startswith(b))
                if res is not None:
                    return res
            return self.concretise().startswith(prefix, *args)
        key = (repr(self.key), repr(prefix), repr(args))
        return bool_atom("str_startswith", key, key)

    def endswith(self, suffix, *args):
        if isinstance(suffix, tuple):
            return Or(*[self.endswith(p, *args) for p in suffix])
        if not args and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= len(suffix):
            return self.parts[-1].endswith(suffix)
        if self.only_dec():
            return self.concretise().endswith(suffix, *args)
        key = (repr(self.key), repr(suffix), repr(args))
        return bool_atom("str_endswith", key, key)

    def encode(self, encoding="utf-8", errors="strict"):
        if self.only_dec():
            return self.concretise().encode(encoding, errors)
        return TextBytes(("encode", self.key, encoding, errors))

    def _opaque(name):
        def method(self, *args):
            if self.only_dec():
                return getattr(self.concretise(), name)(*args)
            if name in ("strip", "rstrip", "lstrip") and args == ("\0",):
                if self.parts[0].value is not None and isinstance(self.parts[0].value, CStr):
                    return self
            return SymStr((Text((name, self.key) + tuple(repr(a) for a in args)),))

        return method

    for _name in ("strip", "rstrip", "lstrip", "lower", "upper", "title", "replace", "zfill", "ljust", "rjust",
                  "center", "removeprefix", "removesuffix", "casefold", "capitalize", "expandtabs", "translate"):
        locals()[_name] = _opaque(_name)

    def _pred(name):
        def method(self, *args):
            if self.only_dec():
                return getattr(self.concretise(), name)(*args)
            key = (name, repr(self.key), repr(args))
            return bool_atom("str_pred", key, key)

        return method

    for _name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isascii", "isprintable", "isspace",
                  "isupper", "islower", "isidentifier"):
        locals()[_name] = _pred(_name)

    def find(self, *args):
        return self.concretise().find(*args)

    def index(self, *args):
        return self.concretise().index(*args)

    def count(self, *args):
        return self.concretise().count(*args)

    def format(self, *args, **kwargs):
        fail("format on symbolic text")


def to_int(text, base=10):
    """int(str)."""
    if len(text.parts) == 1 and isinstance(text.parts[0], Dec) and base in (10, 0):
        return text.parts[0].num
    return int(text.concretise(), base)


def _table_lift(text, other, func):
    """A predicate of text made of small-range numbers, as an explicit table over those numbers."""
    if not isinstance(other, str):
        return None
    decs = [p for p in text.parts if isinstance(p, Dec)]
    total = 1
    for part in decs:
        lo, hi = part.num.bounds() if isinstance(part.num, SymInt) else (part.num, part.num)
        if lo is None or hi is None:
            return None
        total *= hi - lo + 1
        if total > 70000:
            return None
    if len(decs) > 2 or not decs:
        return None

    def ranges(flags, base, num):
        conds, start = [], None
        for i, flag in enumerate(flags + [False]):
            if flag and start is None:
                start = i
            if not flag and start is not None:
                conds.append(And(num >= base + start, num <= base + i - 1))
                start = None
        return Or(*conds)

    def render(values):
        it = iter(values)
        return "".join(p if isinstance(p, str) else str(next(it)) for p in text.parts)

    lo1, hi1 = decs[0].num.bounds() if isinstance(decs[0].num, SymInt) else (decs[0].num,) * 2
    if len(decs) == 1:
        return ranges([bool(func(render((v,)), other)) for v in range(lo1, hi1 + 1)], lo1, decs[0].num)
    lo2, hi2 = decs[1].num.bounds() if isinstance(decs[1].num, SymInt) else (decs[1].num,) * 2
    groups = {}
    for v1 in range(lo1, hi1 + 1):
        row = tuple(bool(func(render((v1, v2)), other)) for v2 in range(lo2, hi2 + 1))
        groups.setdefault(row, []).append(v1)
    conds = []
    for row, firsts in groups.items():
        flags = [v in firsts for v in range(lo1, hi1 + 1)]
        conds.append(And(ranges(flags, lo1, decs[0].num), ranges(list(row), lo2, decs[1].num)))
    return Or(*conds)


class SymByteArray(SymBytes):
    """bytearray with symbolic content."""

    __slots__ = ()

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def extend(self, other):
        self.segs = norm(self.segs + segs_of(other))

    def __iadd__(self, other):
        self.extend(other)
        return self

    def append(self, value):
        self.segs = norm(self.segs + [(val_src([value]), 0, 1)])

    def clear(self):
        self.segs = []

    def copy(self):
        return SymByteArray(list(self.segs))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __delitem__(self, item):
        length = self.length()
        lo, hi = slice_bounds(item if isinstance(item, slice) else slice(item, item + 1), length)
        self.segs = norm(cut(self.segs, 0, lo) + cut(self.segs, hi, length))

    def __setitem__(self, item, value):
        length = self.length()
        if isinstance(item, slice):
            lo, hi = slice_bounds(item, length)
            new = segs_of(value)
        else:
            if item < 0:
                item = item + length
            lo, hi, new = item, item + 1, [(val_src([value]), 0, 1)]
        self.segs = norm(cut(self.segs, 0, lo) + new + cut(self.segs, hi, length))

    def _write_segs(self, segs):
        """Overwrite the start with segs (same or smaller total length): readinto."""
        self.segs = segs

    def _buffer_size(self):
        return self.length()

    def _buffer_segs(self):
        return self.segs
