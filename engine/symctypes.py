"""ctypes over symbolic memory.

Layout (offsets, sizes, alignment, packing) is computed by the real ctypes on a shadow class built from the same
_fields_; only the content of the memory is symbolic.
"""
import ctypes as real
import types

from . import core
from .core import Unsupported
from .text import (BytesBase, SymByteArray, SymBytes, cstr, cut, make_bytes, norm, seg_len, segs_of, CStr)
from .values import (And, ConstSrc, SymBool, SymFloat, SymInt, const_src, field, float_field, k, lift, partial_src,
                     val_src)


def fail(text):
    core.CTX.fail_path(Unsupported(text))


# --------------------------------------------------------------------------- memory


class Mem:
    """A mutable buffer of concrete or symbolic size, made of source segments."""

    __slots__ = ("segs", "writes")

    def __init__(self, segs):
        self.segs = segs
        self.writes = 0

    def locate(self, off, size):
        """(source, offset) holding [off, off+size), or None if it spans segments."""
        segs = self.segs
        if len(segs) == 1:
            src, soff, _ = segs[0]
            return src, soff + off
        start = 0
        for src, soff, length in segs:
            end = start + length
            if off < end:
                if off + size <= end:
                    return src, soff + (off - start)
                return None
            start = end
        return None

    def integer(self, off, size, signed):
        loc = self.locate(off, size)
        if loc is None:
            return SymBytes(self.segs).int_at(off, size, signed)
        return field(loc[0], loc[1], size, signed)

    def floating(self, off, size):
        loc = self.locate(off, size)
        if loc is None:
            fail("float across buffers")
        return float_field(loc[0], loc[1], size)

    def rope(self, off, size):
        return cut(self.segs, off, off + size)

    def write(self, off, segs, size):
        total = seg_len(self.segs)
        self.segs = norm(cut(self.segs, 0, off) + segs + cut(self.segs, off + size, total))
        self.writes += 1


class SharedMem(Mem):
    """The memory of a bytearray or of a view of something writable."""

    __slots__ = ("owner",)

    def __init__(self, owner):
        self.owner, self.writes = owner, 0

    @property
    def segs(self):
        return self.owner._buffer_segs()

    def write(self, off, segs, size):
        overwrite(self.owner, off, segs, size)
        self.writes += 1


def zeros(size):
    return Mem([(const_src(b"\0" * size), 0, size)] if size else [])


# --------------------------------------------------------------------------- simple types


class SimpleMeta(type):
    def __mul__(cls, length):
        return array_type(cls, length)

    __rmul__ = __mul__


class _SimpleCData(metaclass=SimpleMeta):
    _shadow_ = None

    def __init__(self, value=None):
        self._mem, self._off = zeros(real.sizeof(self._shadow_)), 0
        if value is not None:
            self.value = value

    @property
    def value(self):
        return load(type(self), self._mem, self._off)

    @value.setter
    def value(self, val):
        store(type(self), self._mem, self._off, val)

    def __bool__(self):
        return bool(self.value)

    @classmethod
    def _at(cls, mem, off):
        obj = cls.__new__(cls)
        obj._mem, obj._off = mem, off
        return obj

    @classmethod
    def from_buffer_copy(cls, source, offset=0):
        return _from_copy(cls, source, offset)

    @classmethod
    def from_buffer(cls, source, offset=0):
        return _from_shared(cls, source, offset)

    @classmethod
    def from_address(cls, address):
        mem, off = address.inside(size_of(cls))
        return cls._at(mem, off)

    def _buffer_segs(self):
        return self._mem.rope(self._off, size_of(type(self)))

    def _buffer_size(self):
        return size_of(type(self))

    def __reduce__(self):
        return pickled(self)

    def __setstate__(self, state):
        restore(self, state)

    def _write_segs(self, segs):
        self._mem.write(self._off, segs, self._buffer_size())


SIMPLE = {}
for _name in ("c_bool", "c_byte", "c_char", "c_double", "c_float", "c_int", "c_int16", "c_int32", "c_int64", "c_int8",
              "c_long", "c_longlong", "c_short", "c_size_t", "c_ssize_t", "c_ubyte", "c_uint", "c_uint16", "c_uint32",
              "c_uint64", "c_uint8", "c_ulong", "c_ulonglong", "c_ushort", "c_wchar", "c_void_p", "c_char_p",
              "c_longdouble", "c_time_t"):
    _real = getattr(real, _name, None)
    if _real is None:
        continue
    if _real not in SIMPLE:
        SIMPLE[_real] = SimpleMeta(_real.__name__, (_SimpleCData,), {"_shadow_": _real, "_type_": _real._type_})
    globals()[_name] = SIMPLE[_real]
c_voidp = c_void_p  # noqa: F821

_SIGNED = "bhilq"
_UNSIGNED = "BHILQ?"


def load(ctype, mem, off):
    """Value of a ctypes object as attribute access returns it."""
    if isinstance(ctype, SimpleMeta):
        code = ctype._type_
        size = real.sizeof(ctype._shadow_)
        if code in _SIGNED:
            return mem.integer(off, size, True)
        if code == "?":
            return mem.integer(off, size, False) != 0
        if code in _UNSIGNED:
            return mem.integer(off, size, False)
        if code == "c":
            return make_bytes(mem.rope(off, 1))
        if code in "fd":
            return mem.floating(off, size)
        fail("C type %s" % ctype.__name__)
    if isinstance(ctype, ArrayMeta) and ctype._type_ is c_char:  # noqa: F821
        return array_text(mem, off, ctype._length_)
    return ctype._at(mem, off)


def array_text(mem, off, size):
    loc = mem.locate(off, size)
    if loc is None:
        return SymBytes(mem.rope(off, size)).as_cstr()
    return cstr(loc[0], loc[1], size)


def store(ctype, mem, off, value):
    if isinstance(ctype, SimpleMeta):
        code, size = ctype._type_, real.sizeof(ctype._shadow_)
        if code in _SIGNED + _UNSIGNED:
            num = lift(value)
            if num is None or isinstance(num, SymFloat):
                raise TypeError("an integer is required")
            mem.write(off, [(val_src([(num >> (8 * i)) & 0xFF for i in range(size)]), 0, size)], size)
            return
        if code == "c" and isinstance(value, (bytes, BytesBase)):
            mem.write(off, segs_of(value), 1)
            return
        if type(value) is float and code in "fd":
            mem.write(off, [(const_src(bytes(ctype._shadow_(value))), 0, size)], size)
            return
        fail("assignment to C type %s" % ctype.__name__)
    if isinstance(ctype, ArrayMeta) and ctype._type_ is c_char and isinstance(value, bytes):  # noqa: F821
        if len(value) > ctype._length_:
            raise ValueError("bytes too long (%d, maximum length %d)" % (len(value), ctype._length_))
        data = value + b"\0" if len(value) < ctype._length_ else value
        mem.write(off, [(const_src(data), 0, len(data))], len(data))
        return
    if isinstance(value, (Structure, Array)) and type(value) is ctype:
        mem.write(off, value._buffer_segs(), size_of(ctype))
        return
    if isinstance(ctype, ArrayMeta) and isinstance(value, (tuple, list)):
        for i, item in enumerate(value):
            store(ctype._type_, mem, off + i * size_of(ctype._type_), item)
        return
    fail("assignment to C type %s" % ctype.__name__)


def size_of(ctype):
    if isinstance(ctype, ArrayMeta):
        return size_of(ctype._type_) * ctype._length_
    return real.sizeof(shadow_of(ctype))


def shadow_of(ctype):
    shadow = ctype.__dict__.get("_shadow_")
    if shadow is None:
        for base in ctype.__mro__:
            shadow = base.__dict__.get("_shadow_")
            if shadow is not None:
                break
    if isinstance(ctype, ArrayMeta):
        return shadow_of(ctype._type_) * ctype._length_
    return shadow


def _from_copy(cls, source, offset=0):
    segs = segs_of(source)
    if segs is None:
        raise TypeError("a bytes-like object is required")
    size = size_of(cls)
    total = seg_len(segs)
    if offset < 0:
        raise ValueError("offset cannot be negative")
    if total - offset < size:
        raise ValueError("Buffer size too small (instead of at least needed bytes)")
    return cls._at(Mem(cut(segs, offset, offset + size)), 0)


def _from_shared(cls, source, offset=0):
    size = size_of(cls)
    if isinstance(source, (Structure, Array, _SimpleCData)):
        if source._buffer_size() - offset < size:
            raise ValueError("Buffer size too small")
        obj = cls._at(source._mem, source._off + offset)
        obj.__dict__["_keep"] = source
        return obj
    if hasattr(source, "_write_segs"):
        if offset < 0:
            raise ValueError("offset cannot be negative")
        if source._buffer_size() - offset < size:
            raise ValueError("Buffer size too small")
        return cls._at(SharedMem(source), offset)
    if isinstance(source, (bytearray, memoryview)):
        fail("from_buffer of a native buffer")
    raise TypeError("underlying buffer is not writable")


# --------------------------------------------------------------------------- arrays


class ArrayMeta(type):
    def __mul__(cls, length):
        return array_type(cls, length)

    __rmul__ = __mul__


_ARRAYS = {}


def array_type(elem, length):
    num = lift(length)
    if num is None or isinstance(num, SymFloat):
        raise TypeError("can't multiply sequence by non-int of type '%s'" % type(length).__name__)
    if num < 0:
        raise ValueError("Array length must be >= 0, not %s" % ("?",))
    key = (elem, k(num))
    cls = _ARRAYS.get(key)
    if cls is None:
        cls = ArrayMeta("%s_Array_%s" % (elem.__name__, num if type(num) is int else "n"), (Array,),
                        {"_type_": elem, "_length_": num})
        _ARRAYS[key] = cls
    return cls


class Array(metaclass=ArrayMeta):
    _type_ = None
    _length_ = 0

    def __class_getitem__(cls, item):
        return types.GenericAlias(cls, item)

    def __init__(self, *args):
        self._mem, self._off = zeros(size_of(type(self))), 0
        for i, item in enumerate(args):
            self[i] = item

    @classmethod
    def _at(cls, mem, off):
        obj = cls.__new__(cls)
        obj._mem, obj._off = mem, off
        return obj

    @classmethod
    def from_buffer_copy(cls, source, offset=0):
        return _from_copy(cls, source, offset)

    @classmethod
    def from_buffer(cls, source, offset=0):
        return _from_shared(cls, source, offset)

    @classmethod
    def from_address(cls, address):
        mem, off = address.inside(size_of(cls))
        return cls._at(mem, off)

    def length(self):
        return self._length_

    def __len__(self):
        length = self._length_
        return length if type(length) is int else core.CTX.decide_value(length)

    def _item(self, index):
        return load(self._type_, self._mem, self._off + index * size_of(self._type_))

    def __getitem__(self, index):
        length = self._length_
        if isinstance(index, slice):
            if type(length) is not int or (index.step not in (None, 1)):
                length = len(self)
                data = [self._item(i) for i in range(*slice_native(index, length).indices(length))]
            else:
                data = [self._item(i) for i in range(*slice_native(index, length).indices(length))]
            if self._type_ is c_char:  # noqa: F821
                out = []
                for piece in data:
                    out = out + segs_of(piece)
                return make_bytes(out)
            return data
        if not isinstance(index, (int, SymInt, SymBool)):
            if hasattr(type(index), "__index__"):
                index = index.__index__()
            else:
                raise TypeError("indices must be integers")
        index = lift(index)
        if index < 0:
            index = index + length
        if index < 0 or index >= length:
            raise IndexError("invalid index")
        return self._item(index)

    def __setitem__(self, index, value):
        if isinstance(index, slice):
            bounds = range(*slice_native(index, len(self)).indices(len(self)))
            segs = segs_of(value)
            if self._type_ is c_char and segs is not None and bounds.step == 1:  # noqa: F821
                if seg_len(segs) != len(bounds):
                    raise ValueError("Can only assign sequence of same size")
                self._mem.write(self._off + bounds.start, segs, len(bounds))
                return
            items = list(value)
            if len(items) != len(bounds):
                raise ValueError("Can only assign sequence of same size")
            for pos, item in zip(bounds, items):
                self[pos] = item
            return
        if index < 0:
            index = index + self._length_
        if index < 0 or index >= self._length_:
            raise IndexError("invalid index")
        store(self._type_, self._mem, self._off + index * size_of(self._type_), value)

    def __iter__(self):
        length = self._length_
        if type(length) is int:
            elem, step = self._type_, size_of(self._type_)
            for i in range(length):
                yield load(elem, self._mem, self._off + i * step)
            return
        i = 0
        while i < length:
            core.CTX.tick()
            yield self._item(i)
            i += 1

    @property
    def value(self):
        if self._type_ is not c_char:  # noqa: F821
            raise AttributeError("value")
        return array_text(self._mem, self._off, self._length_)

    @value.setter
    def value(self, val):
        store(type(self), self._mem, self._off, val)

    @property
    def raw(self):
        if self._type_ is not c_char:  # noqa: F821
            raise AttributeError("raw")
        return make_bytes(self._mem.rope(self._off, self._length_))

    def _buffer_segs(self):
        return self._mem.rope(self._off, size_of(type(self)))

    def _buffer_size(self):
        return size_of(type(self))

    def __reduce__(self):
        return pickled(self)

    def __setstate__(self, state):
        restore(self, state)

    def _write_segs(self, segs):
        self._mem.write(self._off, segs, self._buffer_size())


def slice_native(item, length):
    """A slice with native bounds (clamped to the array length before concretising)."""

    def bound(val):
        if isinstance(val, (SymInt, SymBool)):
            val = lift(val)
            if type(val) is int:
                return val
            if val >= length:
                return length
            if val <= -length:
                return -length
            return core.CTX.decide_value(val)
        return val

    return slice(bound(item.start), bound(item.stop), bound(item.step))


# --------------------------------------------------------------------------- structures

_SHADOWS = {}


class Field:
    """Descriptor of one structure field."""

    __slots__ = ("name", "ctype", "offset", "size", "bits")

    def __init__(self, name, ctype, offset, size, bits=None):
        self.name, self.ctype, self.offset, self.size, self.bits = name, ctype, offset, size, bits

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if self.bits is not None:
            width, shift, signed = self.bits
            raw = obj._mem.integer(obj._off + self.offset, self.size, False)
            val = (raw >> shift) & ((1 << width) - 1)
            if signed:
                from .values import signed_of

                val = signed_of(val, width)
            return val
        return load(self.ctype, obj._mem, obj._off + self.offset)

    def __set__(self, obj, value):
        if self.bits is not None:
            fail("assignment to a bit field")
        store(self.ctype, obj._mem, obj._off + self.offset, value)


class StructMeta(type):
    def __new__(mcs, name, bases, ns, **kw):
        cls = super().__new__(mcs, name, bases, dict(ns), **kw)
        if "_fields_" in ns:
            _layout(cls, bases)
        return cls

    def __setattr__(cls, name, value):
        super().__setattr__(name, value)
        if name == "_fields_":
            _layout(cls, cls.__bases__)

    def __mul__(cls, length):
        return array_type(cls, length)

    __rmul__ = __mul__


def _layout(cls, bases):
    fields = cls.__dict__["_fields_"]
    base_shadow = real.Union if issubclass(cls, Union) else real.Structure
    for base in bases:
        if isinstance(base, StructMeta) and base.__dict__.get("_shadow_"):
            base_shadow = base.__dict__["_shadow_"]
    spec = []
    for item in fields:
        if not isinstance(item, (tuple, list)) or not isinstance(item[1], (SimpleMeta, ArrayMeta, StructMeta)):
            raise TypeError("_fields_ must be a sequence of (name, C type) pairs")
        spec.append((item[0], shadow_of(item[1])) + tuple(item[2:]))
    ns = {"_fields_": spec}
    for extra in ("_pack_", "_anonymous_", "_align_"):
        if extra in cls.__dict__:
            ns[extra] = cls.__dict__[extra]
    key = (cls.__name__, base_shadow, tuple(spec), ns.get("_pack_"), ns.get("_align_"))
    shadow = _SHADOWS.get(key)
    if shadow is None:
        shadow = type(cls.__name__, (base_shadow,), ns)
        _SHADOWS[key] = shadow
    type.__setattr__(cls, "_shadow_", shadow)
    for item in fields:
        desc = getattr(shadow, item[0])
        bits = None
        size = desc.size
        if len(item) > 2:
            size, bits = real.sizeof(shadow_of(item[1])), (desc.size >> 16, desc.size & 0xFFFF,
                                                           item[1]._type_ in _SIGNED)
        type.__setattr__(cls, item[0], Field(item[0], item[1], desc.offset, size, bits))


class Structure(metaclass=StructMeta):
    _shadow_ = real.Structure

    def __init__(self, *args, **kwargs):
        self._mem, self._off = zeros(size_of(type(self))), 0
        names = []
        for klass in reversed(type(self).__mro__):
            names += [f[0] for f in klass.__dict__.get("_fields_", ())]
        if len(args) > len(names):
            raise TypeError("too many initializers")
        for name, value in zip(names, args):
            setattr(self, name, value)
        for name, value in kwargs.items():
            setattr(self, name, value)

    @classmethod
    def _at(cls, mem, off):
        obj = cls.__new__(cls)
        obj.__dict__["_mem"], obj.__dict__["_off"] = mem, off
        return obj

    @classmethod
    def from_buffer_copy(cls, source, offset=0):
        return _from_copy(cls, source, offset)

    @classmethod
    def from_buffer(cls, source, offset=0):
        return _from_shared(cls, source, offset)

    @classmethod
    def from_address(cls, address):
        mem, off = address.inside(size_of(cls))
        return cls._at(mem, off)

    def _buffer_segs(self):
        return self._mem.rope(self._off, size_of(type(self)))

    def _buffer_size(self):
        return size_of(type(self))

    def _write_segs(self, segs):
        self._mem.write(self._off, segs, self._buffer_size())

    def __reduce__(self):
        return pickled(self)

    def __setstate__(self, state):
        restore(self, state)


def pickled(obj):
    """As the real classes have it: the type, the attributes and the content."""
    own = {name: val for name, val in obj.__dict__.items() if name not in ("_mem", "_off", "_keep")}
    return _unpickle, (type(obj), (own, make_bytes(obj._buffer_segs())))


def _unpickle(cls, state):
    obj = cls.__new__(cls)
    obj.__setstate__(state)
    return obj


def restore(obj, state):
    own, data = state
    obj.__dict__.update(own)
    size = size_of(type(obj))
    if "_mem" not in obj.__dict__:
        obj.__dict__["_mem"], obj.__dict__["_off"] = zeros(size), 0
    segs = segs_of(data)
    obj._mem.write(obj._off, segs, seg_len(segs))


class Union(Structure):
    _shadow_ = real.Union


class BigEndianStructure:
    def __init_subclass__(cls, **kw):
        raise Unsupported("BigEndianStructure")


LittleEndianStructure = Structure


def sizeof(obj):
    if isinstance(obj, (SimpleMeta, ArrayMeta, StructMeta)):
        return size_of(obj)
    if isinstance(obj, (_SimpleCData, Array, Structure)):
        return size_of(type(obj))
    raise TypeError("this type has no size")


def alignment(obj):
    return real.alignment(shadow_of(obj if isinstance(obj, type) else type(obj)))


def overwrite(dst, off, segs, count):
    """Replace `count` bytes of a writable object from `off`."""
    if isinstance(dst, (Structure, Array, _SimpleCData)):
        dst._mem.write(dst._off + off, segs, count)
        return
    old = dst._buffer_segs()
    dst._write_segs(norm(cut(old, 0, off) + segs + cut(old, off + count, seg_len(old))))


# --------------------------------------------------------------------------- addresses and pointers


class Address:
    """Where an object lies: only differences within it mean anything."""

    def __init__(self, target, off=0):
        self.target, self.off = target, off

    def __add__(self, num):
        return Address(self.target, self.off + num)

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, Address):
            if other.target is not self.target:
                fail("difference of unrelated addresses")
            return self.off - other.off
        return Address(self.target, self.off - other)

    def __bool__(self):
        return True

    @property
    def value(self):
        return self

    contents = property(lambda self: self.target)
    _obj = contents

    def _index(self):
        fail("an address as a number")

    __index__ = __int__ = _index

    def inside(self, size):
        """(memory, offset) of `size` bytes at the address."""
        total = seg_len(self.target._buffer_segs())
        if self.off < 0 or self.off + size > total:
            fail("access outside of the object an address belongs to")
        if isinstance(self.target, (Structure, Array, _SimpleCData)):
            return self.target._mem, self.target._off + self.off
        return SharedMem(self.target), self.off


def address_of(obj):
    if isinstance(obj, Address):
        return obj
    if isinstance(obj, (Structure, Array, _SimpleCData)) or hasattr(obj, "_write_segs"):
        return Address(obj)
    segs = segs_of(obj)
    if segs is None:
        raise TypeError("invalid type")
    return Address(_Constant(segs))


class _Constant:
    """Immutable bytes that an address points to."""

    def __init__(self, segs):
        self.segs = segs

    def _buffer_segs(self):
        return self.segs

    def _buffer_size(self):
        return seg_len(self.segs)

    def _write_segs(self, segs):
        fail("writing to immutable bytes")


def addressof(obj):
    if not isinstance(obj, (Structure, Array, _SimpleCData)):
        raise TypeError("invalid type")
    return Address(obj)


def byref(obj, offset=0):
    return addressof(obj) + offset


_POINTERS = {}


class _Pointer(Address):
    _type_ = None

    def __getitem__(self, index):
        if isinstance(index, slice):
            if index.stop is None or index.start is None and (index.step or 1) < 0:
                raise ValueError("slice stop is required")
            data = [self[i] for i in range(index.start or 0, index.stop, index.step or 1)]
            return b"".join(data) if self._type_ is c_char and all(  # noqa: F821
                isinstance(x, bytes) for x in data) else data
        size = size_of(self._type_)
        mem, off = Address(self.target, self.off + index * size).inside(size)
        return load(self._type_, mem, off)

    @property
    def contents(self):
        mem, off = self.inside(size_of(self._type_))
        return self._type_._at(mem, off)


def POINTER(ctype):
    if ctype not in _POINTERS:
        _POINTERS[ctype] = type("LP_%s" % ctype.__name__, (_Pointer,), {"_type_": ctype})
    return _POINTERS[ctype]


def pointer(obj):
    return POINTER(type(obj))(obj)


def cast(obj, ctype):
    if ctype is c_void_p:  # noqa: F821
        return address_of(obj)
    if not (isinstance(ctype, type) and issubclass(ctype, _Pointer)):
        fail("cast to %s" % ctype.__name__)
    at = address_of(obj)
    return ctype(at.target, at.off)


def string_at(ptr, size=-1):
    at = address_of(ptr)
    if type(size) is int and size < 0:
        fail("string_at without a size")
    if at.off + size > seg_len(at.target._buffer_segs()):
        fail("string_at past the end of an object")
    return make_bytes(cut(at.target._buffer_segs(), at.off, at.off + size))


def memmove(dst, src, count):
    to, segs = address_of(dst), segs_of(src)
    if segs is None:
        at = address_of(src)
        segs = cut(at.target._buffer_segs(), at.off, seg_len(at.target._buffer_segs()))
    if seg_len(segs) < count or to.off + count > to.target._buffer_size():
        fail("memmove past the end of a buffer")
    segs = cut(segs, 0, count)
    if type(count) is not int:
        old = to.target._buffer_segs()
        if len(segs) != 1 or to.off != 0:
            fail("memmove of a symbolic number of bytes")
        base, off, _ = segs[0]
        size = to.target._buffer_size()
        to.target._write_segs([(partial_src(base, off, count, tuple(old)), 0, size)])
        return to
    overwrite(to.target, to.off, segs, count)
    return to


def memset(dst, value, count):
    at = address_of(dst)
    if at.off + count > at.target._buffer_size():
        fail("memset past the end of a buffer")
    count = core.CTX.decide_value(count) if isinstance(count, SymInt) else count
    overwrite(at.target, at.off, [(const_src(bytes([value & 255]) * count), 0, count)], count)
    return at


def create_string_buffer(init, size=None):
    if isinstance(init, (int, SymInt)):
        return array_type(c_char, init)()  # noqa: F821
    segs = segs_of(init)
    length = seg_len(segs) + 1 if size is None else size
    arr = array_type(c_char, length)()  # noqa: F821
    arr._write_segs(norm(segs + [(const_src(b"\0"), 0, 1)]))
    return arr


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if hasattr(real, name):
        raise Unsupported("ctypes.%s" % name)
    raise AttributeError("module 'ctypes' has no attribute %r" % name)
