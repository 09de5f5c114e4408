"""Symbolic values: integers (linear forms over atoms), booleans, floats.

Every atom has a structural key, so two terms built the same way are the same term (hash consing); everything else is
left to the solver.  Python integers are unbounded, so the encoding uses mathematical integers; fixed-width fields
are atoms with their C range.
"""
import math
import z3

from . import core
from .core import Unsupported

# --------------------------------------------------------------------------- sources of bytes


class Source:
    """Something that has a byte at every offset."""

    TABLE = {}

    def __init__(self, key):
        self.key = key
        self.id = len(Source.TABLE)
        Source.TABLE[key] = self


def _intern_source(cls, key, *args):
    src = Source.TABLE.get(key)
    if src is None:
        src = cls(key, *args)
    return src


class FileSrc(Source):
    """Content of a file: byte i is an unconstrained variable."""

    def __init__(self, key, name):
        super().__init__(key)
        self.name = name


def file_src(name):
    return _intern_source(FileSrc, ("file", name), name)


class DSrc(Source):
    """Output of decompressing the stream that starts at offset `start` of `base`."""

    def __init__(self, key, base, start):
        super().__init__(key)
        self.base, self.start = base, start


def d_src(base, start):
    start = canon(start)
    return _intern_source(DSrc, ("dsrc", base.id, k(start)), base, start)


class PartialSrc(Source):
    """First `count` bytes come from base at base_off; all further bytes come from `rest` (zero by default)."""

    def __init__(self, key, base, base_off, count, rest):
        super().__init__(key)
        self.base, self.base_off, self.count, self.rest = base, base_off, count, rest


def partial_src(base, base_off, count, rest):
    return _intern_source(PartialSrc, ("partial", base.id, k(base_off), k(count), tuple(_seg_key(s) for s in rest)),
                          base, base_off, count, rest)


def _seg_key(seg):
    return (seg[0].id, k(seg[1]), k(seg[2]))


class ConstSrc(Source):
    def __init__(self, key, data):
        super().__init__(key)
        self.data = data


def const_src(data):
    return _intern_source(ConstSrc, ("const", data), data)


class ValSrc(Source):
    """A tuple of byte-valued integers (symbolic or not)."""

    def __init__(self, key, vals):
        super().__init__(key)
        self.vals = vals


def val_src(vals):
    vals = tuple(vals)
    if all(type(v) is int for v in vals):
        return const_src(bytes(vals))
    return _intern_source(ValSrc, ("vals", tuple(k(v) for v in vals)), vals)


def no_attr(name, kind):
    """An attribute the native counterpart has but the symbolic value has not is a limit of the engine, not an error
    of the code."""
    if not name.startswith("_") and hasattr(kind, name):
        core.CTX.fail_path(core.Unsupported("%s.%s on a symbolic value" % (kind.__name__, name)))
    raise AttributeError("%r object has no attribute %r" % (kind.__name__, name))


# --------------------------------------------------------------------------- atoms


def k(value):
    """Structural key of an int, SymInt or SymBool."""
    if type(value) is int or type(value) is bool:
        return int(value)
    return value.key


def canon(value):
    """The value with the atoms known to be constant on this path replaced."""
    if type(value) is int or core.CTX is None or not core.CTX.bound:
        return value
    bound = core.CTX.bound
    for atom, _ in value.t:
        if atom in bound:
            break
    else:
        return value
    const, rest = value.c, []
    for atom, coef in value.t:
        val = bound.get(atom)
        if val is None:
            rest.append((atom, coef))
        else:
            const += coef * val
    return SymInt(const, tuple(rest)) if rest else const


def _canonical(atom):
    """The atom with canonical position that holds the same value."""
    if atom.kind == "field":
        src, off, size, signed = atom.args
        coff, csrc = canon(off), src
        if type(src) is DSrc:
            csrc = d_src(src.base, src.start)
        if csrc is src and coff is off:
            return atom
        return _atom("field", (csrc, coff, size, signed), (csrc.id, k(coff), size, signed), atom.lo, atom.hi)
    base, start = atom.args
    cstart = canon(start)
    if cstart is start:
        return atom
    if atom.kind == "valid":
        full = ("valid", base.base.id, k(cstart))
        return BoolAtom.TABLE.get(full) or BoolAtom(full, "valid", (base, cstart))
    return _atom(atom.kind, (base, cstart), (base.id, k(cstart)), atom.lo, atom.hi)


PLACED = ("field", "zlen", "dlen", "valid")


def rebind(c):
    """An atom has become a constant: connect what is materialised with its canonical twin."""
    for atom in list(c.mat):
        if atom.kind in PLACED:
            twin = _canonical(atom)
            if twin is not atom:
                _connect(c, atom, twin)


def _connect(c, atom, twin):
    done = c.notes.setdefault("twins", set())
    if (atom, twin) in done:
        return
    done.add((atom, twin))
    if atom.kind == "valid":
        c.mat.setdefault(twin, True)
        c.axiom(atom.z3var() == twin.z3var())
    else:
        c.axiom(atom.z3var() == ensure(c, twin))


class Atom:
    TABLE = {}
    __slots__ = ("key", "id", "lo", "hi", "var", "kind", "args")

    def __init__(self, key, kind, args, lo, hi):
        self.key, self.kind, self.args, self.lo, self.hi = key, kind, args, lo, hi
        self.id = len(Atom.TABLE)
        self.var = None
        Atom.TABLE[key] = self

    def z3var(self):
        if self.var is None:
            self.var = z3.Int("%s_%d" % (self.kind, self.id))
        return self.var


def _atom(kind, args, key, lo, hi):
    full = (kind,) + key
    atom = Atom.TABLE.get(full)
    if atom is None:
        atom = Atom(full, kind, args, lo, hi)
    return atom


def wrap(atom):
    if core.CTX is not None and core.CTX.bound:
        value = core.CTX.bound.get(atom)
        if value is not None:
            return value
    return SymInt(0, ((atom, 1),))


def var(name, lo=None, hi=None):
    """A named integer input."""
    return wrap(_atom("var", (name,), (name, lo, hi), lo, hi))


def field(src, off, size, signed):
    """The integer stored little-endian in `size` bytes at src[off]."""
    if size == 0:
        return 0
    if type(src) is ConstSrc:
        if type(off) is int:
            return int.from_bytes(src.data[off:off + size], "little", signed=signed)
    elif type(src) is ValSrc:
        if type(off) is int:
            return join_bytes([src.vals[off + i] for i in range(size)], signed)
    off = canon(off)
    if type(src) is DSrc:
        src = d_src(src.base, src.start)
    bits = 8 * size
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    return wrap(_atom("field", (src, off, size, signed), (src.id, k(off), size, signed), lo, hi))


def join_bytes(vals, signed):
    total = 0
    for i, val in enumerate(vals):
        total = total + val * (1 << (8 * i))
    if signed:
        total = signed_of(total, 8 * len(vals))
    return total


def signed_of(value, bits):
    if type(value) is int:
        return value - (1 << bits) if value >> (bits - 1) else value
    return ite(value >= (1 << (bits - 1)), value - (1 << bits), value)


def op(kind, args, lo=None, hi=None):
    return wrap(_atom(kind, args, tuple(k(a) for a in args), lo, hi))


def ite(cond, a, b):
    if type(cond) is bool:
        return a if cond else b
    alo, ahi = bounds(a)
    blo, bhi = bounds(b)
    lo = None if alo is None or blo is None else min(alo, blo)
    hi = None if ahi is None or bhi is None else max(ahi, bhi)
    return op("ite", (cond, a, b), lo, hi)


def bounds(value):
    if type(value) is int:
        return value, value
    return value.bounds()


# --------------------------------------------------------------------------- materialisation


def ensure(c, atom):
    """z3 term of an atom; asserts what defines it the first time it is used on a path."""
    var_ = atom.z3var()
    if atom in c.mat:
        return var_
    c.mat[atom] = True
    if c.bound and atom.kind in PLACED:
        twin = _canonical(atom)
        if twin is not atom:
            _connect(c, atom, twin)
            return var_
    if atom.lo is not None:
        c.axiom(var_ >= atom.lo)
    if atom.hi is not None:
        c.axiom(var_ <= atom.hi)
    kind, args = atom.kind, atom.args
    if kind == "field":
        _define_field(c, atom, var_)
    elif kind == "div":
        c.axiom(var_ == to_z3(args[0]) / to_z3(args[1]))
    elif kind == "mod":
        c.axiom(var_ == to_z3(args[0]) % to_z3(args[1]))
    elif kind == "mul":
        c.axiom(var_ == to_z3(args[0]) * to_z3(args[1]))
    elif kind == "ite":
        c.axiom(var_ == z3.If(args[0].z3(), to_z3(args[1]), to_z3(args[2])))
    elif kind in ("band", "bor", "bxor"):
        a, b = z3.Int2BV(to_z3(args[0]), 72), z3.Int2BV(to_z3(args[1]), 72)
        res = a & b if kind == "band" else a | b if kind == "bor" else a ^ b
        c.axiom(var_ == z3.BV2Int(res, True))
    elif kind == "zlen":
        pass
    elif kind == "dlen":
        # Contract of zlib: the output is at most 1032 times the input.
        c.axiom(var_ <= 1032 * to_z3(op("zlen", args, 8)))
    elif kind == "strlen":
        _define_strlen(c, atom, var_)
    return var_


def _base(off):
    """Split an offset into (symbolic part key, constant)."""
    if type(off) is int:
        return (), off
    return off.key[1], off.c


def _define_field(c, atom, var_):
    src, off, size, signed = atom.args
    if type(src) in (FileSrc, DSrc):
        part, const = _base(off)
        index = c.field_index.setdefault((src.id, part), [])
        clash = False
        for lo, hi, other in index:
            if lo < const + size and const < hi and other is not atom:
                clash = True
                _by_bytes(c, other)
        index.append((const, const + size, atom))
        if clash:
            _by_bytes(c, atom)
    elif size > 1 or signed:
        _by_bytes(c, atom)
    elif type(src) is PartialSrc:
        rest = rope_byte(src.rest, off)
        c.axiom(var_ == z3.If(to_z3(off) < to_z3(src.count), to_z3(field(src.base, src.base_off + off, 1, False)),
                              to_z3(rest)))
    elif type(src) is ConstSrc:
        _table(c, var_, off, list(src.data))
    elif type(src) is ValSrc:
        _table(c, var_, off, list(src.vals))
    else:
        raise Unsupported("byte source %r" % (src.key,))


def _table(c, var_, off, vals):
    if len(vals) > 1024:
        c.fail_path(Unsupported("symbolic offset into a large constant"))
    expr = z3.IntVal(0)
    zoff = to_z3(off)
    for i, val in enumerate(vals):
        expr = z3.If(zoff == i, to_z3(val), expr)
    c.axiom(var_ == expr)


def rope_byte(segs, off):
    """Byte at a concrete or symbolic offset of a segment list with concrete lengths."""
    start = 0
    result = 0
    for src, soff, length in segs:
        if type(off) is int:
            if start <= off < start + length:
                return field(src, soff + (off - start), 1, False)
        else:
            if type(src) is ConstSrc and not any(src.data):
                start += length
                continue
            inside = And(off >= start, off < start + length)
            result = ite(inside, field(src, soff + (off - start), 1, False), result)
        start = start + length
    return result


def _by_bytes(c, atom):
    done = c.notes.setdefault("bytedef", set())
    if atom in done:
        return
    done.add(atom)
    src, off, size, signed = atom.args
    if size == 1 and not signed:
        ensure(c, atom)
        return
    total = z3.IntVal(0)
    top = None
    for i in range(size):
        top = to_z3(field(src, off + i, 1, False))
        total = total + top * (1 << (8 * i))
    if signed:
        total = z3.If(top >= 128, total - (1 << (8 * size)), total)
    c.axiom(atom.z3var() == total)


def _define_strlen(c, atom, var_):
    src, off, cap = atom.args
    expr = z3.IntVal(cap)
    for i in reversed(range(cap)):
        expr = z3.If(to_z3(field(src, off + i, 1, False)) == 0, z3.IntVal(i), expr)
    c.axiom(var_ == expr)


def to_z3(value):
    if type(value) is int:
        return z3.IntVal(value)
    if type(value) is bool:
        return z3.IntVal(int(value))
    return value.z3()


def precise_constraints(c):
    """Exact definition of every byte as an uninterpreted function of its position (aliasing between positions)."""
    groups = {}
    for atom in list(c.mat):
        if not isinstance(atom, Atom):
            continue
        if atom.kind == "field" and type(atom.args[0]) in (FileSrc, DSrc):
            src = atom.args[0]
            root = src if type(src) is FileSrc else ("d", src.base)
            groups.setdefault(root, []).append(atom)
    out = []
    for root, atoms in groups.items():
        bases = {(a.args[0].id, _base(a.args[1])[0]) for a in atoms}
        if len(bases) < 2:
            continue
        if isinstance(root, tuple):
            func = z3.Function("D_%d" % root[1].id, z3.IntSort(), z3.IntSort(), z3.IntSort())
        else:
            func = z3.Function("F_%d" % root.id, z3.IntSort(), z3.IntSort())
        for atom in atoms:
            src, off, size, signed = atom.args
            total, top = z3.IntVal(0), None
            for i in range(size):
                pos = to_z3(off) + i
                top = func(pos) if not isinstance(root, tuple) else func(to_z3(src.start), pos)
                out.append(top >= 0)
                out.append(top <= 255)
                total = total + top * (1 << (8 * i))
            if signed:
                total = z3.If(top >= 128, total - (1 << (8 * size)), total)
            out.append(atom.z3var() == total)
    # Streams: what starts at the same position is the same stream.
    fns = {}
    for item in list(c.mat):
        if isinstance(item, Atom) and item.kind in ("zlen", "dlen"):
            fns.setdefault((item.kind, item.args[0]), []).append((item.args[1], item.z3var()))
        elif isinstance(item, BoolAtom) and item.kind == "valid":
            fns.setdefault((item.kind, item.args[0].base), []).append((item.args[1], item.z3var()))
    for (kind, _), items in fns.items():
        for i, (off1, var1) in enumerate(items):
            for off2, var2 in items[:i]:
                # Positions with the same symbolic part are equal or differ by a constant.
                if k(off1) != k(off2) and _base(off1)[0] != _base(off2)[0]:
                    out.append(z3.Implies(to_z3(off1) == to_z3(off2), var1 == var2))
    return out


# --------------------------------------------------------------------------- integers


def mk(const, terms):
    """SymInt or int from a constant and a dict atom -> coefficient."""
    items = [(a, f) for a, f in terms.items() if f]
    if not items:
        return const
    items.sort(key=_atom_id)
    return SymInt(const, tuple(items))


def _atom_id(item):
    return item[0].id


class SymInt:
    """const + sum(coefficient * atom)."""

    __slots__ = ("c", "t", "_key", "_z")

    def __getattr__(self, name):
        return no_attr(name, int)

    def __init__(self, const, terms):
        self.c, self.t = const, terms
        self._key = None
        self._z = None

    @property
    def key(self):
        if self._key is None:
            self._key = (self.c, tuple((a.id, f) for a, f in self.t))
        return self._key

    def z3(self):
        c = core.CTX
        expr = z3.IntVal(self.c) if self.c or not self.t else None
        for atom, coef in self.t:
            var_ = atom.z3var() if atom in c.mat else ensure(c, atom)
            term = var_ if coef == 1 else var_ * coef
            expr = term if expr is None else expr + term
        return expr

    def bounds(self):
        lo = hi = self.c
        for atom, coef in self.t:
            alo, ahi = (atom.lo, atom.hi) if coef > 0 else (atom.hi, atom.lo)
            lo = None if lo is None or alo is None else lo + coef * alo
            hi = None if hi is None or ahi is None else hi + coef * ahi
        return lo, hi

    def single(self):
        """The atom if this is exactly one atom, else None."""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return self.t[0][0]
        return None

    # arithmetic
    def __add__(self, other):
        other = lift(other)
        if other is None:
            return NotImplemented
        if type(other) is int:
            return SymInt(self.c + other, self.t) if other else self
        if type(other) is SymFloat:
            return NotImplemented
        terms = dict(self.t)
        for atom, coef in other.t:
            terms[atom] = terms.get(atom, 0) + coef
        return mk(self.c + other.c, terms)

    __radd__ = __add__

    def __neg__(self):
        return SymInt(-self.c, tuple((a, -f) for a, f in self.t))

    def __pos__(self):
        return self

    def __sub__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        return self + (-other)

    def __rsub__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        return (-self) + other

    def __mul__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        if type(other) is int:
            if other == 0:
                return 0
            return SymInt(self.c * other, tuple((a, f * other) for a, f in self.t))
        total = self.c * other + SymInt(0, self.t) * other.c if self.c or other.c else 0
        for left, coef in self.t:
            for right, factor in other.t:
                pair = (SymInt(0, ((left, 1),)), SymInt(0, ((right, 1),)))
                if str(pair[0].key) > str(pair[1].key):
                    pair = pair[::-1]
                total = total + op("mul", pair) * (coef * factor)
        return total

    def __rmul__(self, other):
        if isinstance(other, (list, tuple, str, bytes)):
            return other * core.CTX.decide_value(self)
        return self.__mul__(other)

    def _divisor(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return None
        if type(other) is not int:
            if other == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if other < 0:
                return core.CTX.decide_value(other)
        elif other == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return other

    def __floordiv__(self, other):
        other = self._divisor(other)
        if other is None:
            return NotImplemented
        if type(other) is int:
            if other < 0:
                return (-self) // (-other)
            if other == 1:
                return self
            return self._div(other)
        return op("div", (self, other))

    def _div(self, by):
        if by & (by - 1) == 0 and (by.bit_length() - 1) % 8 == 0:
            atom = self.single()
            if atom is not None and atom.kind == "field":
                src, off, size, signed = atom.args
                drop = (by.bit_length() - 1) // 8
                if drop < size:
                    return field(src, off + drop, size - drop, signed)
                if not signed:
                    return 0
        lo, hi = self.bounds()
        if lo is not None and hi is not None and lo // by == hi // by:
            return lo // by
        return op("div", (self, by), None if lo is None else lo // by, None if hi is None else hi // by)

    def _mod(self, by):
        if by == 1:
            return 0
        if by & (by - 1) == 0 and (by.bit_length() - 1) % 8 == 0:
            atom = self.single()
            if atom is not None and atom.kind == "field":
                src, off, size, signed = atom.args
                keep = (by.bit_length() - 1) // 8
                if keep <= size:
                    return field(src, off, keep, False)
                if not signed:
                    return self
        lo, hi = self.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi < by:
            return self
        return op("mod", (self, by), 0, by - 1)

    def __mod__(self, other):
        other = self._divisor(other)
        if other is None:
            return NotImplemented
        if type(other) is int:
            if other < 0:
                return -((-self) % (-other))
            return self._mod(other)
        return op("mod", (self, other), 0)

    def __divmod__(self, other):
        return self // other, self % other

    def __rfloordiv__(self, other):
        if type(other) is bool:
            other = int(other)
        if type(other) is not int:
            return NotImplemented
        by = self._divisor_self()
        return other // by if type(by) is int else op("div", (other, by))

    def __rmod__(self, other):
        if type(other) is bool:
            other = int(other)
        if type(other) is not int:
            return NotImplemented
        by = self._divisor_self()
        return other % by if type(by) is int else op("mod", (other, by), 0)

    def __rdivmod__(self, other):
        return other // self, other % self

    def _divisor_self(self):
        if self == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if self < 0:
            return core.CTX.decide_value(self)
        return self

    def __truediv__(self, other):
        if not isinstance(other, (int, float, SymInt, SymFloat)):
            return NotImplemented
        if not isinstance(other, float) and other == 0:
            raise ZeroDivisionError("division by zero")
        return SymFloat(("truediv", fk(self), fk(other)))

    def __rtruediv__(self, other):
        if not isinstance(other, (int, float)):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("division by zero")
        return SymFloat(("truediv", fk(other), fk(self)))

    def __pow__(self, other, mod=None):
        if mod is None and type(other) is int and 0 <= other <= 8:
            out = 1
            for _ in range(other):
                out = out * self
            return out
        return core.CTX.decide_value(self) ** other

    def __rpow__(self, other):
        return other ** core.CTX.decide_value(self)

    # bits
    def __rshift__(self, other):
        if type(other) is not int:
            other = core.CTX.decide_value(other) if isinstance(other, SymInt) else other
        if type(other) is not int:
            return NotImplemented
        if other < 0:
            raise ValueError("negative shift count")
        return self // (1 << other) if other else self

    def __lshift__(self, other):
        if isinstance(other, SymInt):
            other = core.CTX.decide_value(other)
        if type(other) is not int:
            return NotImplemented
        if other < 0:
            raise ValueError("negative shift count")
        return self * (1 << other)

    def __rrshift__(self, other):
        return other >> core.CTX.decide_value(self)

    def __rlshift__(self, other):
        return other << core.CTX.decide_value(self)

    def __and__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        if type(other) is int:
            if other < 0:
                return self - (self & ~other)
            total, pos, mask = 0, 0, other
            while mask:
                while not mask & 1:
                    mask, pos = mask >> 1, pos + 1
                width = 0
                while mask & 1:
                    mask, width = mask >> 1, width + 1
                total = total + ((self >> pos)._mod_or_int(1 << width)) * (1 << pos)
                pos += width
            return total
        lo1, hi1 = self.bounds()
        lo2, hi2 = other.bounds()
        lo = 0 if (lo1 is not None and lo1 >= 0) or (lo2 is not None and lo2 >= 0) else None
        return op("band", (self, other), lo, None)

    def _mod_or_int(self, by):
        return self % by

    __rand__ = __and__

    def __or__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        if type(other) is int:
            return self + other - (self & other)
        return op("bor", (self, other))

    __ror__ = __or__

    def __xor__(self, other):
        other = lift(other)
        if other is None or type(other) is SymFloat:
            return NotImplemented
        if type(other) is int:
            return self + other - 2 * (self & other)
        return op("bxor", (self, other))

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return -self if self < 0 else self

    # comparisons
    def __eq__(self, other):
        other = lift(other)
        if other is None:
            return NotImplemented
        if type(other) is SymFloat:
            return NotImplemented
        return eq_(self - other)

    def __ne__(self, other):
        other = lift(other)
        if other is None:
            return NotImplemented
        if type(other) is SymFloat:
            return NotImplemented
        return Not(eq_(self - other))

    def __lt__(self, other):
        other = _cmp(other)
        return NotImplemented if other is None else lt_(self - other)

    def __le__(self, other):
        other = _cmp(other, math.floor)
        return NotImplemented if other is None else lt_(self - other - 1)

    def __gt__(self, other):
        other = _cmp(other, math.floor)
        return NotImplemented if other is None else lt_(other - self)

    def __ge__(self, other):
        other = _cmp(other)
        return NotImplemented if other is None else lt_(other - self - 1)

    def __bool__(self):
        return bool(Not(eq_(self)))

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, ndigits=None):
        if ndigits is not None and (type(ndigits) is not int or ndigits < 0):
            core.CTX.fail_path(Unsupported("rounding a symbolic integer to tens"))
        return self

    def __hash__(self):
        if core.CTX.hash_ok:
            return 0
        return hash(core.CTX.decide_value(self, 8))

    def __index__(self):
        return core.CTX.decide_value(self)

    def __int__(self):
        return core.CTX.decide_value(self)

    def __float__(self):
        core.CTX.fail_path(Unsupported("float() of a symbolic integer in native code"))

    def __repr__(self):
        return "<SymInt %s>" % (describe(self),)

    def __str__(self):
        core.CTX.fail_path(Unsupported("native str() of a symbolic integer"))

    def __format__(self, spec):
        core.CTX.fail_path(Unsupported("native format() of a symbolic integer"))

    # int API
    def bit_length(self):
        return core.CTX.decide_value(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import text

        length = int(length)
        bits = 8 * length
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        if self < lo or self > hi:
            raise OverflowError("int too big to convert")
        vals = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            vals.reverse()
        return text.SymBytes([(val_src(vals), 0, length)])

    def is_integer(self):
        return True

    def as_integer_ratio(self):
        return self, 1

    def conjugate(self):
        return self

    numerator = real = property(lambda self: self)
    denominator = property(lambda self: 1)
    imag = property(lambda self: 0)


def describe(value):
    if type(value) is int:
        return str(value)
    parts = [str(value.c)] if value.c or not value.t else []
    for atom, coef in value.t:
        if atom.kind == "field":
            src, off, size, signed = atom.args
            name = "%s%s[%s]" % ("i" if signed else "u", 8 * size, describe(off))
        elif atom.kind == "var":
            name = atom.args[0]
        else:
            name = atom.kind + str(atom.id)
        parts.append(name if coef == 1 else "%d*%s" % (coef, name))
    return "+".join(parts)


def lift(value):
    """int or SymInt (or SymFloat) for a number, None for anything else."""
    kind = type(value)
    if kind is int or kind is SymInt or kind is SymFloat:
        return value
    if kind is bool:
        return int(value)
    if kind is SymBool:
        return value.as_int()
    if isinstance(value, int):
        return int(value)
    return None


def _cmp(value, conv=math.ceil):
    if isinstance(value, float):
        if math.isinf(value):
            return 10 ** 400 if value > 0 else -10 ** 400
        return conv(value)
    value = lift(value)
    return None if type(value) is SymFloat else value


def eq_(diff):
    """SymBool (or bool) for diff == 0."""
    if type(diff) is int:
        return diff == 0
    lo, hi = diff.bounds()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    div = 0
    for _, coef in diff.t:
        div = math.gcd(div, coef)
    if diff.c % div:
        return False
    if div != 1 or diff.t[0][1] < 0:
        sign = -div if diff.t[0][1] < 0 else div
        diff = SymInt(diff.c // sign, tuple((a, f // sign) for a, f in diff.t))
    if len(diff.t) == 1 and diff.t[0][0].kind == "strlen" and diff.c in (0, -1, -2):
        cap = diff.t[0][0].args[2]
        shorter = _shorter(diff.t[0][0], -diff.c + 1) if -diff.c < cap else True
        return And(Not(_shorter(diff.t[0][0], -diff.c)), shorter)
    return SymBool("eq", (diff,))


def _shorter(atom, limit):
    """strlen < limit, in terms of the bytes."""
    src, off, _ = atom.args
    return Or(*[eq_(field(src, off + i, 1, False)) if type(field(src, off + i, 1, False)) is not int
                else field(src, off + i, 1, False) == 0 for i in range(limit)])


def lt_(diff):
    """SymBool (or bool) for diff < 0."""
    if type(diff) is int:
        return diff < 0
    lo, hi = diff.bounds()
    if lo is not None and lo >= 0:
        return False
    if hi is not None and hi < 0:
        return True
    if len(diff.t) == 1 and diff.t[0][0].kind == "strlen":
        atom, coef = diff.t[0]
        if coef == 1 and -diff.c <= min(3, atom.args[2]):
            return _shorter(atom, -diff.c)
        if coef == -1 and diff.c + 1 <= min(3, atom.args[2]):
            return Not(_shorter(atom, diff.c + 1))
    return SymBool("lt", (diff,))


# --------------------------------------------------------------------------- booleans


class BoolAtom:
    TABLE = {}

    def __init__(self, key, kind, args):
        self.key, self.kind, self.args = key, kind, args
        self.id = len(BoolAtom.TABLE)
        self.var = z3.Bool("%s_%d" % (kind, self.id))
        BoolAtom.TABLE[key] = self

    def z3var(self):
        return self.var


def bool_atom(kind, args, key, axioms=None):
    full = (kind,) + key
    atom = BoolAtom.TABLE.get(full)
    if atom is None:
        atom = BoolAtom(full, kind, args)
    return SymBool("atom", (atom, axioms))


def bool_var(name):
    """A named boolean input."""
    return bool_atom("bool", (name,), (name,))


class SymBool:
    """A symbolic truth value.  bool() of it forks."""

    __slots__ = ("kind", "args", "_key")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args
        self._key = None

    @property
    def key(self):
        if self._key is None:
            if self.kind == "atom":
                self._key = ("atom", self.args[0].id)
            elif self.kind == "z3":
                self._key = ("z3", self.args[0].get_id())
            else:
                self._key = (self.kind,) + tuple(a.key for a in self.args)
        return self._key

    def neg_key(self):
        neg = Not(self)
        return neg.key if type(neg) is SymBool else None

    def z3(self):
        kind, args = self.kind, self.args
        if kind == "eq":
            return args[0].z3() == 0
        if kind == "lt":
            return args[0].z3() < 0
        if kind == "atom":
            atom, axioms = args
            c = core.CTX
            if atom not in c.mat:
                c.mat[atom] = True
                if atom.kind == "valid" and c.bound:
                    twin = _canonical(atom)
                    if twin is not atom:
                        _connect(c, atom, twin)
                if axioms:
                    axioms(c, atom)
            return atom.var
        if kind == "not":
            return z3.Not(args[0].z3())
        if kind == "and":
            return z3.And(*[a.z3() for a in args])
        if kind == "or":
            return z3.Or(*[a.z3() for a in args])
        return args[0]

    def __bool__(self):
        return core.CTX.decide(self)

    def as_int(self):
        return ite(self, 1, 0)

    def __and__(self, other):
        if isinstance(other, (bool, SymBool)):
            return And(self, other)
        return self.as_int() & other

    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (bool, SymBool)):
            return Or(self, other)
        return self.as_int() | other

    __ror__ = __or__

    def __xor__(self, other):
        if isinstance(other, (bool, SymBool)):
            return Not(Iff(self, other))
        return self.as_int() ^ other

    __rxor__ = __xor__

    def __invert__(self):
        return ~self.as_int()

    def __eq__(self, other):
        if isinstance(other, (bool, SymBool)):
            return Iff(self, other)
        if isinstance(other, (int, SymInt)):
            return self.as_int() == other
        return NotImplemented

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else Not(res)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __add__(self, other):
        return self.as_int() + other

    __radd__ = __add__

    def __sub__(self, other):
        return self.as_int() - other

    def __rsub__(self, other):
        return other - self.as_int()

    def __mul__(self, other):
        return self.as_int() * other

    __rmul__ = __mul__

    def __lt__(self, other):
        return self.as_int() < other

    def __le__(self, other):
        return self.as_int() <= other

    def __gt__(self, other):
        return self.as_int() > other

    def __ge__(self, other):
        return self.as_int() >= other

    def _arith(name):  # pylint: disable=no-self-argument
        def method(self, *args):
            return getattr(self.as_int(), name)(*args)

        return method

    for _name in ("abs", "ceil", "divmod", "float", "floor", "floordiv", "lshift", "mod", "neg", "pos", "pow", "rdivmod",
                  "rfloordiv", "rlshift", "rmod", "round", "rpow", "rrshift", "rshift", "rtruediv", "truediv", "trunc"):
        locals()["__%s__" % _name] = _arith("__%s__" % _name)
    del _arith, _name

    def __repr__(self):
        return "<SymBool %s %s>" % (self.kind, ",".join(repr(a) for a in self.args if not callable(a)))

    def __str__(self):
        core.CTX.fail_path(Unsupported("native str() of a symbolic truth value"))


def Not(cond):
    if type(cond) is bool:
        return not cond
    if cond.kind == "not":
        return cond.args[0]
    if cond.kind == "lt":
        return lt_(-cond.args[0] - 1)
    return SymBool("not", (cond,))


def And(*conds):
    out = []
    for cond in conds:
        if cond is True:
            continue
        if cond is False:
            return False
        out.append(cond)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def Or(*conds):
    out = []
    for cond in conds:
        if cond is False:
            continue
        if cond is True:
            return True
        out.append(cond)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def Iff(a, b):
    if type(a) is bool:
        a, b = b, a
    if type(b) is bool:
        return (a if b else Not(a)) if type(a) is SymBool else a == b
    if a.key == b.key:
        return True
    return And(Or(Not(a), b), Or(Not(b), a))


def Implies(a, b):
    return Or(Not(a), b)


# --------------------------------------------------------------------------- floats


def fk(value):
    if isinstance(value, SymFloat):
        return value.key
    if isinstance(value, (SymInt, SymBool)):
        return ("i", value.key)
    return ("n", repr(float(value)))


class SymFloat:
    """A C float/double field or an opaque function of such values (floats are not interpreted)."""

    __slots__ = ("key", "raw")

    def __getattr__(self, name):
        return no_attr(name, float)

    def __init__(self, key, raw=None):
        self.key, self.raw = key, raw

    def _bin(name):
        def method(self, other):
            if not isinstance(other, (int, float, SymInt, SymFloat, SymBool)):
                return NotImplemented
            return SymFloat((name, self.key, fk(other)))

        def rmethod(self, other):
            if not isinstance(other, (int, float, SymInt, SymFloat, SymBool)):
                return NotImplemented
            return SymFloat((name, fk(other), self.key))

        return method, rmethod

    __add__, __radd__ = _bin("add")
    __sub__, __rsub__ = _bin("sub")
    __mul__, __rmul__ = _bin("mul")
    __truediv__, __rtruediv__ = _bin("div")
    __floordiv__, __rfloordiv__ = _bin("fdiv")
    __mod__, __rmod__ = _bin("mod")
    __pow__, __rpow__ = _bin("pow")

    def __neg__(self):
        return SymFloat(("neg", self.key))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(("abs", self.key))

    def __round__(self, ndigits=None):
        if ndigits is None:
            return var("round" + str(hash(self.key)))
        return SymFloat(("round", self.key, ndigits))

    def _pred(self, name, other):
        if not isinstance(other, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        return bool_atom("fpred", (name, self.key, fk(other)), (name, self.key, fk(other)))

    def __eq__(self, other):
        if isinstance(other, SymFloat):
            if other.key == self.key:
                return True
            if self.raw is not None and other.raw is not None:
                return self.raw == other.raw
        if not isinstance(other, (int, float, SymInt, SymFloat, SymBool)):
            return NotImplemented
        return self._pred("eq", other)

    def __ne__(self, other):
        res = self.__eq__(other)
        return res if res is NotImplemented else Not(res)

    def __lt__(self, other):
        return self._pred("lt", other)

    def __le__(self, other):
        return self._pred("le", other)

    def __gt__(self, other):
        return self._pred("gt", other)

    def __ge__(self, other):
        return self._pred("ge", other)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        core.CTX.fail_path(Unsupported("hash of a symbolic float"))

    def __float__(self):
        core.CTX.fail_path(Unsupported("native float() of a symbolic float"))

    def __int__(self):
        core.CTX.fail_path(Unsupported("native int() of a symbolic float"))

    def __format__(self, spec):
        core.CTX.fail_path(Unsupported("native format() of a symbolic float"))

    def __repr__(self):
        return "<SymFloat %r>" % (self.key,)

    def is_integer(self):
        return bool(self._pred("is_integer", 0))


def float_field(src, off, size):
    raw = field(src, off, size, False)
    if type(raw) is int:
        import struct as _struct

        return _struct.unpack("<f" if size == 4 else "<d", raw.to_bytes(size, "little"))[0]
    return SymFloat(("float", raw.key), raw)
