"""Load the package under test from /repo's source, instrumented for symbolic execution.

The source is parsed on every run; calls, subscripts, membership tests, `%` and f-strings go through hooks that keep
symbolic values symbolic where CPython would demand native ones.  Everything else is executed by CPython unchanged.
"""
import ast
import builtins
import copy as real_copy
import functools as real_functools
import hashlib
import itertools as real_itertools
import os
import sys as real_sys
import threading as real_threading
import types

from . import core, env as env_mod, points, symctypes, symio, text
from .core import Unsupported
from .text import BytesBase, CStr, Dec, SymByteArray, SymBytes, SymStr, Text, has_sym, make_str, segs_of, to_int, to_repr
from .text import to_str
from .values import And, Iff, Not, Or, SymBool, SymFloat, SymInt, ite, lift, to_z3

SYM_ALL = (SymInt, SymBool, SymFloat, BytesBase, SymStr)
for _kind in SYM_ALL:
    # Immutable, like what they stand for.
    _kind.__copy__ = lambda self: self
    _kind.__deepcopy__ = lambda self, memo: self


def fail(msg):
    core.CTX.fail_path(Unsupported(msg))


# --------------------------------------------------------------------------- AST

NO_HOOK_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "property", "staticmethod",
                 "classmethod", "isinstance", "issubclass", "hasattr", "setattr", "TypeVar", "NamedTuple", "__pt__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.scope = []

    def _sx(self, name, *args, keywords=()):
        func = ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr=name, ctx=ast.Load())
        return ast.Call(func=func, args=list(args), keywords=list(keywords))

    # functions: note which were executed
    def _function(self, node):
        self.scope.append(node.name)
        name = self.module + "." + ".".join(self.scope)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for stmt in node.body:
            res = self.visit(stmt)
            body.extend(res if isinstance(res, list) else [res])
        mark = ast.Expr(value=self._sx("fn", ast.Constant(value=name)))
        pos = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                    and isinstance(body[0].value.value, str)) else 0
        body.insert(pos, mark)
        node.body = body
        self.scope.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        if node.bases:
            bases = self._sx("bases", *[self.visit(b) for b in node.bases])
            node.bases = [ast.Starred(value=bases, ctx=ast.Load())]
        for keyword in node.keywords:
            keyword.value = self.visit(keyword.value)
            if keyword.arg == "metaclass":
                keyword.value = self._sx("native", keyword.value)
        body = []
        for stmt in node.body:
            res = self.visit(stmt)
            body.extend(res if isinstance(res, list) else [res])
        node.body = body
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    # loops: unwinding bound
    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=self._sx("tick")))
        return node

    visit_While = _loop

    def visit_For(self, node):
        return self._loop(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_HOOK_CALLS:
            return node
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id="__sx__", ctx=ast.Load()), attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            if isinstance(node.ctx, ast.Store) or isinstance(node.ctx, ast.Del):
                node.slice = self._sx("key", node.value if _pure(node.value) else ast.Constant(value=None), node.slice) \
                    if not isinstance(node.slice, (ast.Slice, ast.Tuple)) else node.slice
            return node
        index = node.slice
        if isinstance(index, ast.Slice):
            none = ast.Constant(value=None)
            index = self._sx("slice", index.lower or none, index.upper or none, index.step or none)
        elif isinstance(index, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in index.elts):
            return node
        return self._sx("getitem", node.value, index)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return self._sx("contains" if isinstance(node.ops[0], ast.In) else "not_contains", node.left,
                            node.comparators[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._sx("mod", node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for value in node.values:
            if isinstance(value, ast.Constant):
                parts.append(value)
            else:
                spec = self.visit(value.format_spec) if value.format_spec is not None else ast.Constant(value="")
                parts.append(ast.Tuple(elts=[self.visit(value.value), ast.Constant(value=value.conversion), spec],
                                       ctx=ast.Load()))
        return self._sx("fstr", *parts)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node

    def visit_MatchValue(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


def _pure(node):
    return isinstance(node, (ast.Name, ast.Attribute)) and (isinstance(node, ast.Name) or _pure(node.value))


# --------------------------------------------------------------------------- hooks


class Hooks:
    """Target of the rewritten source (`__sx__`)."""

    def __init__(self):
        self.symkey_dicts = {}

    def fn(self, name):
        core.CTX.functions.add(name)
        if core.CTX.dead:
            raise core.CTX.dead

    @staticmethod
    def native(cls):
        return cls._native if isinstance(cls, ShimMeta) else cls

    def bases(self, *classes):
        return tuple(self.native(cls) for cls in classes)

    def tick(self):
        c = core.CTX
        c.ticks += 1
        if c.ticks > c.max_ticks or c.dead or not c.ticks & 1023:
            c.tick()

    def slice(self, lower, upper, step):
        return slice(lower, upper, step)

    def key(self, container, index):
        """Key of a subscript store."""
        if isinstance(index, SYM_ALL) or (type(index) is tuple and has_sym(index)):
            if isinstance(container, dict) or container is None:
                return self.dict_key(container if container is not None else {}, index, store=True)
        elif isinstance(container, dict) and id(container) in self.symkey_dicts:
            return self.dict_key(container, index, store=True)
        return index

    def dict_key(self, container, index, store=False):
        """The existing key equal to a symbolic one (forking on equality), or a fresh wrapper to store under."""
        for existing in list(container):
            if type(existing) is SymKey:
                if self.same_key(existing.value, index):
                    return existing
            elif self.same_key(existing, index):
                return existing
        if not store:
            return _MISSING
        if not isinstance(index, SYM_ALL) and not (type(index) is tuple and has_sym(index)):
            return index
        self.symkey_dicts[id(container)] = container
        return SymKey(index)

    @staticmethod
    def same_key(a, b):
        if a is b:
            return True
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            return all(Hooks.same_key(x, y) for x, y in zip(a, b))
        try:
            return bool(a == b)
        except RecursionError:
            raise

    def getitem(self, obj, index):
        kind = type(obj)
        if kind is dict or isinstance(obj, dict):
            if isinstance(index, SYM_ALL) or (type(index) is tuple and has_sym(index)) or id(obj) in self.symkey_dicts:
                key = self.dict_key(obj, index)
                if key is _MISSING:
                    missing = getattr(type(obj), "__missing__", None)
                    if missing is not None:
                        factory = getattr(obj, "default_factory", None)
                        if factory is not None:
                            value = factory()
                            obj[self.dict_key(obj, index, store=True)] = value
                            return value
                    raise KeyError(index)
                return dict.__getitem__(obj, key)
            return obj[index]
        if kind in (list, tuple, str, bytes, range, memoryview):
            if type(index) is slice and (isinstance(index.start, SymInt) or isinstance(index.stop, SymInt)
                                         or isinstance(index.step, SymInt)):
                if kind is bytes:
                    return SymBytes(segs_of(obj))[index]
                return obj[symctypes.slice_native(index, len(obj))]
            if isinstance(index, (SymInt, SymBool)):
                num = lift(index)
                if type(num) is not int:
                    if num >= len(obj) or num < -len(obj):
                        raise IndexError("%s index out of range" % kind.__name__)
                return obj[num]
            return obj[index]
        return obj[index]

    def contains(self, item, container):
        if isinstance(container, (dict, set, frozenset)):
            if isinstance(item, SYM_ALL) or (type(item) is tuple and has_sym(item)) or \
                    id(container) in self.symkey_dicts:
                return self.dict_key(container, item) is not _MISSING
        elif isinstance(container, (type({}.keys()),)):
            if isinstance(item, SYM_ALL):
                return any(bool(item == (x.value if type(x) is SymKey else x)) for x in container)
        elif isinstance(container, str) and isinstance(item, SymStr):
            return item.concretise() in container
        elif isinstance(container, (bytes, bytearray)) and isinstance(item, (SymInt, BytesBase)):
            if isinstance(item, SymInt):
                return any(bool(item == x) for x in container)
            fail("symbolic bytes in bytes")
        elif isinstance(container, range) and isinstance(item, (SymInt, SymBool)):
            num = lift(item)
            if container.step == 1:
                return bool(num >= container.start) and bool(num < container.stop)
            return any(bool(num == x) for x in container)
        elif isinstance(container, SymRange):
            return container.has(item)
        return item in container

    def not_contains(self, item, container):
        return not self.contains(item, container)

    def mod(self, left, right):
        if isinstance(left, str) and has_sym(right):
            return percent(left, right)
        if isinstance(left, SymStr):
            fail("% on symbolic text")
        return left % right

    def fstr(self, *parts):
        out = []
        symbolic = False
        for part in parts:
            if type(part) is not tuple:
                out.append(part)
                continue
            value, conv, spec = part
            piece = fmt(value, conv, spec)
            if isinstance(piece, SymStr):
                symbolic = True
            out.append(piece)
        return make_str(out) if symbolic else "".join(out)

    def call(self, func, /, *args, **kwargs):
        handler = NATIVE_FUNCS.get(func) if isinstance(func, _HASHABLE) else None
        if handler is not None:
            if any(has_sym(a, 1) for a in args) or any(has_sym(a, 1) for a in kwargs.values()):
                return handler(*args, **kwargs)
            return func(*args, **kwargs)
        if type(func) is types.BuiltinFunctionType:
            owner = func.__self__
            kind = type(owner)
            if kind is str or kind is bytes:
                if func.__name__ == "join" and args:
                    args = (list(args[0]),)
                if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
                    return str_method(owner, func.__name__, args, kwargs)
            elif isinstance(owner, dict) and func.__name__ in DICT_METHODS:
                if (args and (isinstance(args[0], SYM_ALL) or (type(args[0]) is tuple and has_sym(args[0])))) or \
                        id(owner) in self.symkey_dicts:
                    return self.dict_method(owner, func.__name__, args, kwargs)
            elif isinstance(owner, set) and func.__name__ in ("add", "discard", "remove") and args and \
                    isinstance(args[0], SYM_ALL):
                key = self.dict_key(owner, args[0], store=func.__name__ == "add")
                if key is _MISSING:
                    if func.__name__ == "remove":
                        raise KeyError(args[0])
                    return None
                return func(key)
            elif kind is list and func.__name__ in ("insert", "pop") and args and isinstance(args[0], SymInt):
                args = (core.CTX.decide_value(args[0]),) + args[1:]
        return func(*args, **kwargs)

    def dict_method(self, owner, name, args, kwargs):
        if name == "get":
            key = self.dict_key(owner, args[0])
            return (args[1] if len(args) > 1 else None) if key is _MISSING else dict.__getitem__(owner, key)
        if name == "setdefault":
            key = self.dict_key(owner, args[0])
            if key is _MISSING:
                value = args[1] if len(args) > 1 else None
                dict.__setitem__(owner, self.dict_key(owner, args[0], store=True), value)
                return value
            return dict.__getitem__(owner, key)
        if name == "pop":
            key = self.dict_key(owner, args[0])
            if key is _MISSING:
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            return dict.pop(owner, key)
        if name == "__getitem__":
            return self.getitem(owner, args[0])
        if name == "__contains__":
            return self.contains(args[0], owner)
        if name == "items":
            return [(key.value if type(key) is SymKey else key, val) for key, val in dict.items(owner)]
        if name == "keys":
            return [key.value if type(key) is SymKey else key for key in dict.keys(owner)]
        if name in ("values", "clear", "copy"):
            return getattr(dict, name)(owner)
        fail("dict.%s with symbolic keys" % name)


_HASHABLE = (types.BuiltinFunctionType, types.FunctionType, type, types.MethodType, types.MethodDescriptorType)
_MISSING = object()
DICT_METHODS = {"get", "setdefault", "pop", "__getitem__", "__contains__", "items", "keys", "values", "update", "copy",
                "clear", "popitem"}


class SymKey:
    """A symbolic key stored in a native dict."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


NATIVE_FUNCS = {}


def fmt(value, conv, spec):
    """One f-string field."""
    if conv == 114:
        res = to_repr(value)
    elif conv == 115:
        res = to_str(value)
        res = str(value) if res is None else res
    else:
        res = None
        if has_sym(value):
            if isinstance(value, SymBool):
                value = bool(value)
                return format(value, spec)
            if isinstance(value, SymInt) and spec in ("", "d"):
                return to_str(value)
            if isinstance(value, SymStr) and spec in ("", "s"):
                return value
            if spec == "":
                return to_str(value)
            if isinstance(spec, SymStr):
                fail("symbolic format specification")
            key = value.key if hasattr(value, "key") else id(value)
            return SymStr((Text(("format", key, spec)),))
    if res is not None:
        if isinstance(res, SymStr):
            return res if not spec else SymStr((Text(("format", res.key, spec)),))
        return format(res, spec)
    return format(value, spec)


def percent(template, args):
    import re

    if not isinstance(args, tuple):
        if isinstance(args, dict):
            fail("% with a mapping")
        args = (args,)
    out, pos, used = [], 0, 0
    for match in re.finditer(r"%(?:%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))", template):
        out.append(template[pos:match.start()])
        pos = match.end()
        if match.group(0) == "%%":
            out.append("%")
            continue
        if used >= len(args):
            raise TypeError("not enough arguments for format string")
        value, used = args[used], used + 1
        flags, code = match.group(1), match.group(2)
        if not has_sym(value):
            out.append(match.group(0) % (value,))
        elif code in "di" and not flags and isinstance(value, (SymInt, SymBool)):
            out.append(to_str(lift(value)))
        elif code == "s" and not flags:
            out.append(to_str(value))
        elif code == "r" and not flags:
            out.append(to_repr(value))
        else:
            if code in "dixXo" and not isinstance(value, (SymInt, SymBool, SymFloat)):
                raise TypeError("%%%s format: a real number is required" % code)
            out.append(SymStr((Text(("percent", match.group(0), getattr(value, "key", id(value)))),)))
    if used < len(args):
        raise TypeError("not all arguments converted during string formatting")
    out.append(template[pos:])
    return make_str(out)


def str_method(owner, name, args, kwargs):
    """Method of a native str/bytes called with symbolic arguments."""
    if isinstance(owner, bytes):
        if name == "join":
            out = []
            for i, item in enumerate(args[0]):
                if i:
                    out += segs_of(owner)
                segs = segs_of(item)
                if segs is None:
                    raise TypeError("sequence item %d: expected a bytes-like object" % i)
                out += segs
            return text.make_bytes(out)
        if name in ("startswith", "endswith", "find", "index", "count", "replace", "split"):
            return getattr(SymBytes(segs_of(owner)), name)(*args)
        fail("bytes.%s with symbolic arguments" % name)
    if name == "join":
        out = []
        for i, item in enumerate(args[0]):
            if i:
                out.append(owner)
            if not isinstance(item, (str, SymStr)):
                raise TypeError("sequence item %d: expected str instance" % i)
            out.append(item)
        return make_str(out)
    if name == "format":
        import string

        out, auto = [], 0
        for literal, field_name, spec, conv in string.Formatter().parse(owner):
            out.append(literal)
            if field_name is None:
                continue
            first = field_name.replace("[", ".").split(".", 1)[0]
            if first == "":
                value, auto = args[auto], auto + 1
            elif first.isdigit():
                value = args[int(first)]
            else:
                value = kwargs[first]
            rest = field_name[len(first):]
            while rest:
                if rest.startswith("."):
                    attr = rest[1:].replace("[", ".").split(".", 1)[0]
                    value, rest = getattr(value, attr), rest[1 + len(attr):]
                else:
                    idx, rest = rest[1:].split("]", 1)
                    value = value[int(idx) if idx.isdigit() else idx]
            out.append(fmt(value, {None: -1, "r": 114, "s": 115, "a": 114}[conv], spec))
        return make_str(out)
    if name in ("startswith", "endswith", "__eq__", "__contains__", "find", "index", "count"):
        arg = args[0]
        if isinstance(arg, SymStr) and not arg.only_dec():
            fail("str.%s with symbolic text" % name)
    conv = [a.concretise() if isinstance(a, SymStr) else a for a in args]
    if name in ("__add__",):
        return make_str([owner, args[0]])
    return getattr(owner, name)(*conv, **kwargs)


# --------------------------------------------------------------------------- builtins


class ShimMeta(type):
    """Stands in for a builtin type; symbolic values count as instances."""

    NATIVE = {}

    def __new__(mcs, name, bases, ns, native=None, sym=(), call=None):
        shims = [b for b in bases if isinstance(b, ShimMeta)]
        if shims:
            real_bases = tuple(b._native if isinstance(b, ShimMeta) else b for b in bases)
            return types.new_class(name, real_bases, {}, lambda n: n.update(ns))
        cls = super().__new__(mcs, name, bases, ns)
        cls._native, cls._sym, cls._call = native, sym, staticmethod(call)
        ShimMeta.NATIVE[native] = cls
        return cls

    def __init__(cls, name, bases, ns, **kw):
        super().__init__(name, bases, ns)

    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._native) or isinstance(obj, cls._sym)

    def __subclasscheck__(cls, sub):
        if isinstance(sub, ShimMeta):
            sub = sub._native
        return issubclass(sub, cls._native) or issubclass(sub, cls._sym)

    def __call__(cls, *args, **kwargs):
        return cls._call(*args, **kwargs)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, "_native"), name)

    def __eq__(cls, other):
        return cls is other or other is type.__getattribute__(cls, "_native")

    def __hash__(cls):
        return hash(type.__getattribute__(cls, "_native"))

    def __repr__(cls):
        return repr(cls._native)

    def __class_getitem__(cls, item):
        return cls._native[item]

    def __getitem__(cls, item):
        return cls._native[item]

    def __iter__(cls):
        raise TypeError("'type' object is not iterable")


def _int(*args, **kwargs):
    if args:
        value = args[0]
        if isinstance(value, (SymInt, SymBool)):
            return lift(value)
        if isinstance(value, SymStr):
            return to_int(value, *args[1:])
        if isinstance(value, SymFloat):
            from .values import var

            return var("trunc_%x" % (hash(repr(value.key)) & 0xFFFFFFFF))
        if isinstance(value, BytesBase):
            fail("int() of symbolic bytes")
    return int(*args, **kwargs)


def int_from_bytes(data=b"", byteorder="big", *, signed=False):
    segs = segs_of(data)
    if segs is None:
        if isinstance(data, (list, tuple)):
            segs = [(text.val_src(data), 0, len(data))]
        else:
            return int.from_bytes(data, byteorder, signed=signed)
    rope = SymBytes(segs)
    size = rope.concrete_len()
    if size > 16:
        fail("int.from_bytes of more than 16 bytes")
    if byteorder == "little":
        return rope.int_at(0, size, signed) if size else 0
    from .values import join_bytes

    return join_bytes([rope.byte(size - 1 - i) for i in range(size)], signed)


def _str(*args, **kwargs):
    if args and not kwargs:
        if len(args) == 1:
            res = to_str(args[0])
            if res is not None:
                return res
        elif isinstance(args[0], BytesBase):
            return args[0].decode(*args[1:])
    elif args and isinstance(args[0], BytesBase):
        return args[0].decode(kwargs.get("encoding", *args[1:2] or ("utf-8",)), kwargs.get("errors", "strict"))
    return str(*args, **kwargs)


def _bytes(*args, **kwargs):
    if args and len(args) == 1:
        value = args[0]
        if isinstance(value, CStr):
            return value
        segs = segs_of(value)
        if segs is not None:
            return text.make_bytes(segs)
        if isinstance(value, (SymInt, SymBool)):
            num = core.CTX.decide_value(value)
            return bytes(num)
        if isinstance(value, (list, tuple)) and has_sym(value):
            return text.make_bytes([(text.val_src(value), 0, len(value))])
        if isinstance(value, types.GeneratorType):
            return _bytes(list(value))
    if args and isinstance(args[0], SymStr):
        return args[0].encode(*args[1:], **kwargs)
    return bytes(*args, **kwargs)


def _bytearray(*args, **kwargs):
    if not args:
        return SymByteArray([])
    value = args[0]
    segs = segs_of(value)
    if segs is not None:
        return SymByteArray(list(segs))
    if isinstance(value, SymInt):
        value = core.CTX.decide_value(value)
    return SymByteArray(segs_of(bytes(*((value,) + args[1:]), **kwargs)))


def _memoryview(value):
    if isinstance(value, (SymBytes, CStr)) and not isinstance(value, SymByteArray):
        return value
    if isinstance(value, bytes):
        return memoryview(value)
    segs = segs_of(value)
    if segs is not None:
        if hasattr(value, "_write_segs"):
            return BufferView(value)
        return text.make_bytes(segs)
    return memoryview(value)


class BufferView(SymBytes):
    """Writable memoryview (of a part) of a structure, array or bytearray: shares its content."""

    __slots__ = ("target", "off", "size")

    def __init__(self, target, off=0, size=None):
        if isinstance(target, BufferView):
            size = target.size if size is None else size
            target, off = target.target, target.off + off
        self.target, self.off = target, off
        self.size = target._buffer_size() if size is None else size

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle 'memoryview' object")

    def __copy__(self):
        return self.__reduce_ex__(4)

    def __deepcopy__(self, memo):
        return self.__reduce_ex__(4)

    @property
    def segs(self):
        return text.cut(self.target._buffer_segs(), self.off, self.off + self.size)

    readonly = False

    def length(self):
        return self.size

    def _buffer_size(self):
        return self.size

    def _buffer_segs(self):
        return self.segs

    def _write_segs(self, segs):
        symctypes.overwrite(self.target, self.off, segs, self.size)

    def toreadonly(self):
        return text.make_bytes(self.segs)

    def tobytes(self):
        return text.make_bytes(self.segs)

    def __getitem__(self, item):
        if isinstance(item, slice) and item.step in (None, 1):
            lo, hi = text.slice_bounds(item, self.size)
            return BufferView(self.target, self.off + lo, hi - lo)
        return super().__getitem__(item)

    def __setitem__(self, item, value):
        if isinstance(item, slice):
            if item.step not in (None, 1):
                fail("assignment to a stepped memoryview slice")
            lo, hi = text.slice_bounds(item, self.size)
            new = segs_of(value)
            if new is None:
                raise TypeError("a bytes-like object is required")
            if text.seg_len(new) != hi - lo:
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        else:
            if item < 0:
                item = item + self.size
            if item < 0 or item >= self.size:
                raise IndexError("index out of bounds on dimension 1")
            lo, hi, new = item, item + 1, [(text.val_src([value]), 0, 1)]
        symctypes.overwrite(self.target, self.off + lo, new, hi - lo)


def _bool(*args):
    return bool(*args)


def _float(*args):
    if args and isinstance(args[0], (SymInt, SymBool)):
        return SymFloat(("float_of", args[0].key))
    if args and isinstance(args[0], SymFloat):
        return args[0]
    if args and isinstance(args[0], SymStr):
        fail("float() of symbolic text")
    return float(*args)


def _type(*args, **kwargs):
    if len(args) == 1 and not kwargs:
        value = args[0]
        for sym, shim in TYPE_SHIMS:
            if isinstance(value, sym):
                return shim
        return ShimMeta.NATIVE.get(type(value), type(value))
    name, bases, ns = args
    meta = type
    for base in bases:
        if not issubclass(meta, type(base)):
            meta = type(base)
    return meta(name, bases, ns, **kwargs)


def _dict_from(*args, **kwargs):
    return dict(*args, **kwargs)


int_ = ShimMeta("int", (), {"from_bytes": staticmethod(int_from_bytes)}, native=int, sym=(SymInt, SymBool), call=_int)
bool_ = ShimMeta("bool", (), {}, native=bool, sym=(SymBool,), call=_bool)
float_ = ShimMeta("float", (), {}, native=float, sym=(SymFloat,), call=_float)
str_ = ShimMeta("str", (), {}, native=str, sym=(SymStr,), call=_str)
bytes_ = ShimMeta("bytes", (), {}, native=bytes, sym=(SymBytes, CStr, text.TextBytes), call=_bytes)
bytearray_ = ShimMeta("bytearray", (), {}, native=bytearray, sym=(SymByteArray,), call=_bytearray)
memoryview_ = ShimMeta("memoryview", (), {}, native=memoryview, sym=(BufferView,), call=_memoryview)
type_ = ShimMeta("type", (), {}, native=type, sym=(), call=_type)
TYPE_SHIMS = [(SymByteArray, bytearray_), (SymInt, int_), (SymBool, bool_), (SymFloat, float_), (SymStr, str_),
              (BytesBase, bytes_)]


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i, step = self.start, self.step
        rising = bool(step > 0)
        while (i < self.stop) if rising else (i > self.stop):
            core.CTX.tick()
            yield i
            i = i + step

    def length(self):
        """Number of elements, symbolic for a constant step."""
        if type(self.step) is int:
            span = self.stop - self.start if self.step > 0 else self.start - self.stop
            step = abs(self.step)
            return ite(span > 0, (span + (step - 1)) // step, 0)
        return sum(1 for _ in self)

    def __bool__(self):
        return bool(self.start < self.stop) if bool(self.step > 0) else bool(self.start > self.stop)

    def count(self, item):
        return 1 if self.has(item) else 0

    def has(self, item):
        if type(self.step) is int and self.step == 1:
            return bool(item >= self.start) and bool(item < self.stop)
        return any(bool(item == x) for x in self)

    def __contains__(self, item):
        return self.has(item)

    def __len__(self):
        return sum(1 for _ in self)

    def __reversed__(self):
        return reversed(list(self))

    def __getitem__(self, item):
        if isinstance(item, slice):
            return list(self)[symctypes.slice_native(item, len(self))]
        length = self.length()
        if item < 0:
            item = item + length
        if item < 0 or item >= length:
            raise IndexError("range object index out of range")
        return self.start + item * self.step


def _range(*args):
    args = tuple(lift(a) if isinstance(a, (SymInt, SymBool)) else a for a in args)
    if any(isinstance(a, SymInt) for a in args):
        if len(args) == 1:
            return SymRange(0, args[0], 1)
        start, stop = args[0], args[1]
        step = args[2] if len(args) > 2 else 1
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        return SymRange(start, stop, step)
    return range(*args)


range_ = ShimMeta("range", (), {}, native=range, sym=(SymRange,), call=_range)


def _len(obj):
    if isinstance(obj, (SymBytes, CStr, SymStr, symctypes.Array, SymRange)):
        return obj.length()
    return len(obj)


def _hex(value):
    if isinstance(value, (SymInt, SymBool)):
        return SymStr((Text(("hex", value.key)),))
    return hex(value)


def _conv(name, native):
    def func(value):
        if isinstance(value, (SymInt, SymBool)):
            return SymStr((Text((name, value.key)),))
        return native(value)

    return func


def _repr(value):
    res = to_repr(value) if has_sym(value) else None
    return repr(value) if res is None else res


def _format(value, spec=""):
    return fmt(value, -1, spec)


def _chr(value):
    if isinstance(value, SymInt):
        if value < 0 or value > 0x10FFFF:
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr((Text(("chr", value.key)),))
    return chr(value)


def _ord(value):
    if isinstance(value, BytesBase):
        if value.length() != 1:
            raise TypeError("ord() expected a character")
        return value[0]
    if isinstance(value, SymStr):
        fail("ord() of symbolic text")
    return ord(value)


def _round(value, ndigits=None):
    if isinstance(value, (SymInt,)) and (ndigits is None or (type(ndigits) is int and ndigits >= 0)):
        return value
    return round(value, ndigits) if ndigits is not None else round(value)


def _isinstance(obj, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if isinstance(cls, tuple):
        return any(_isinstance(obj, c) for c in cls)
    if getattr(cls, "__origin__", None) is not None and hasattr(cls, "__args__") and not isinstance(cls, type):
        import typing

        if typing.get_origin(cls) is typing.Union:
            return any(_isinstance(obj, c) for c in typing.get_args(cls))
    if cls is int:
        cls = int_
    elif cls is bytes:
        cls = bytes_
    elif cls is str:
        cls = str_
    return isinstance(obj, cls)


def _getattr(obj, name, *default):
    if isinstance(name, SymStr):
        name = name.concretise()
    return getattr(obj, name, *default)


def _sum(items, start=0):
    for item in items:
        start = start + item
    return start


def _any(items):
    if isinstance(items, BytesBase) and not isinstance(items, CStr):
        size = items.length()
        if type(size) is int and size:
            # Is any byte not zero: one question.
            return not items.eq(bytes(size))
    return any(items)


def _divmod(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return a // b, a % b
    return divmod(a, b)


def _pow(base, exp, mod=None):
    return pow(base, exp) if mod is None else pow(base, exp, mod)


def _next(it, *default):
    return next(it, *default)


# --------------------------------------------------------------------------- module stubs


def functools_module():
    mod = types.ModuleType("functools")
    for name in dir(real_functools):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_functools, name))

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize) and not isinstance(maxsize, int):
            return memo(maxsize, 128)
        return lambda func: memo(func, maxsize)

    def memo(func, maxsize=None):
        entries = []

        def wrapper(*args, **kwargs):
            call = args + tuple(sorted(kwargs.items()))
            for pos, (known, result) in enumerate(entries):
                if len(known) == len(call) and all(same(a, b) for a, b in zip(known, call)):
                    entries.append(entries.pop(pos))
                    return result
            result = func(*args, **kwargs)
            entries.append((call, result))
            if maxsize is not None and len(entries) > maxsize:
                del entries[0]
            return result

        wrapper.cache_clear = entries.clear

        def same(a, b):
            if a is b:
                return True
            if isinstance(a, (symctypes.Structure, symctypes.Array)) or isinstance(b, (symctypes.Structure,
                                                                                      symctypes.Array)):
                return False
            if type(a) is tuple and type(b) is tuple:
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            return bool(a == b)

        wrapper.__wrapped__ = func
        wrapper.__name__ = getattr(func, "__name__", "wrapper")
        return wrapper

    mod.lru_cache = lru_cache
    mod.cache = memo

    def singledispatch(func):
        registry = []

        def dispatch(arg):
            best = None
            for cls, impl in registry:
                if _isinstance(arg, cls) and (best is None or _subclass(cls, best[0])):
                    best = (cls, impl)
            return best[1] if best else func

        def wrapper(*args, **kwargs):
            return dispatch(args[0])(*args, **kwargs)

        def register(cls, impl=None):
            if impl is not None:
                registry.append((cls, impl))
                return impl
            if isinstance(cls, types.FunctionType):
                import typing

                hints = cls.__annotations__
                first = hints[next(iter(hints))]
                if isinstance(first, str):
                    first = eval(first, cls.__globals__)  # pylint: disable=eval-used
                registry.append((first, cls))
                return cls
            return lambda f: register(cls, f)

        wrapper.register, wrapper.dispatch = register, dispatch
        wrapper.__wrapped__ = func
        return wrapper

    def _subclass(a, b):
        a = a._native if isinstance(a, ShimMeta) else a
        b = b._native if isinstance(b, ShimMeta) else b
        return issubclass(a, b)

    mod.singledispatch = singledispatch
    return mod


def itertools_module():
    mod = types.ModuleType("itertools")
    for name in dir(real_itertools):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_itertools, name))

    def islice(iterable, *args):
        args = tuple(lift(a) if isinstance(a, (SymInt, SymBool)) else a for a in args)
        if not any(isinstance(a, SymInt) for a in args):
            return real_itertools.islice(iterable, *args)
        start, stop, step = (0, args[0], 1) if len(args) == 1 else (args + (1,))[:3] if len(args) < 3 else args
        start = 0 if start is None else start
        if start < 0 or (stop is not None and stop < 0):
            raise ValueError("Indices for islice() must be None or an integer: 0 <= x <= sys.maxsize.")

        def gen():
            it = iter(iterable)
            pos = 0
            nxt = start
            while stop is None or nxt < stop:
                core.CTX.tick()
                while pos < nxt:
                    try:
                        next(it)
                    except StopIteration:
                        return
                    pos += 1
                try:
                    item = next(it)
                except StopIteration:
                    return
                pos += 1
                yield item
                nxt = nxt + (step or 1)

        return gen()

    def repeat(obj, times=None):
        if times is None:
            return real_itertools.repeat(obj)
        if not isinstance(times, SymInt):
            return real_itertools.repeat(obj, times)
        return (obj for _ in _range(times))

    def accumulate(iterable, func=None, *, initial=None):
        import operator

        return real_itertools.accumulate(iterable, func or operator.add, initial=initial)

    mod.islice, mod.repeat, mod.accumulate = islice, repeat, accumulate
    return mod


def copy_module():
    mod = types.ModuleType("copy")
    for name in dir(real_copy):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_copy, name))
    return mod


# --------------------------------------------------------------------------- loader

REPO = os.environ.get("ATOPARSER_REPO", "/repo")
PACKAGE = "atoparser"
_CODE = {}


class ModelLock:
    """A lock between the interrupted and the interrupting thread; waiting for the former rules the schedule out."""

    def __init__(self, reentrant=False):
        self._reentrant, self._owner, self._depth = reentrant, None, 0

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    def acquire(self, blocking=True, timeout=-1):
        me = real_threading.get_ident()
        if self._depth and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if self._owner == me:
                raise points.Endless()
            core.CTX.fail_path(core.PathInfeasible())
        self._owner, self._depth = me, self._depth + 1
        return True

    def release(self):
        if not self._depth:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1

    def locked(self):
        return bool(self._depth)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


def threading_module():
    mod = types.ModuleType("threading")
    for name in dir(real_threading):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_threading, name))
    mod.Lock = ModelLock
    mod.RLock = lambda: ModelLock(True)
    return mod


def compile_module(path, name, interruptible=False, optimize=-1):
    with open(path, "rb") as fh:
        source = fh.read()
    key = (path, hashlib.sha256(source).hexdigest(), interruptible, optimize)
    code = _CODE.get(key)
    if code is None:
        tree = ast.parse(source, path)
        if interruptible:
            tree = points.insert(tree, name)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True, optimize=optimize)
        _CODE[key] = code
    return code


class World:
    """One instrumented instance of the package with its own module state and environment."""

    def __init__(self, environment=None):
        self.env = environment or env_mod.Env()
        self.modules = {}
        self.hooks = Hooks()
        self.builtins = self._builtins()
        self.stubs = {}
        self.point = None  # called at every interruption point, if there are any
        self.optimize = -1  # as with -O or -OO

    def _builtins(self):
        table = dict(vars(builtins))
        table.update({
            "__import__": self._import, "int": int_, "bool": bool_, "float": float_, "str": str_, "bytes": bytes_,
            "bytearray": bytearray_, "memoryview": memoryview_, "type": type_, "range": range_, "len": _len,
            "hex": _hex, "oct": _conv("oct", oct), "bin": _conv("bin", bin), "repr": _repr, "ascii": _repr,
            "format": _format, "chr": _chr, "ord": _ord, "round": _round, "isinstance": _isinstance,
            "getattr": _getattr, "sum": _sum, "any": _any, "divmod": _divmod, "pow": _pow, "print": self.env.print,
            "open": self.env.open,
        })
        return table

    def stub(self, name):
        if name in self.stubs:
            return self.stubs[name]
        maker = {
            "ctypes": lambda: symctypes, "zlib": symio.zlib_module, "struct": symio.struct_module,
            "io": self._io, "functools": functools_module, "itertools": itertools_module, "copy": copy_module,
            "gzip": self.env.gzip_module, "json": self.env.json_module, "argparse": self.env.argparse_module,
            "sys": self.env.sys_module, "pathlib": self.env.pathlib_module, "os": self.env.os_module,
            "importlib": self._importlib, "threading": threading_module,
            "tempfile": self.env.tempfile_module, "shutil": self.env.shutil_module,
            "locale": self.env.locale_module,
        }.get(name)
        if maker is None:
            return None
        self.stubs[name] = maker()
        return self.stubs[name]

    def _io(self):
        mod = symio.io_module()
        mod.open = self.env.open
        return mod

    def _importlib(self):
        import importlib

        mod = types.ModuleType("importlib")
        for name in dir(importlib):
            if not name.startswith("__"):
                setattr(mod, name, getattr(importlib, name))

        def import_module(name, package=None):
            if name.startswith("."):
                level = len(name) - len(name.lstrip("."))
                base = package.rsplit(".", level - 1)[0] if level > 1 else package
                name = base + "." + name.lstrip(".")
            if isinstance(name, SymStr):
                name = name.concretise()
            if name == PACKAGE or name.startswith(PACKAGE + "."):
                return self.load(name)
            stub = self.stub(name)
            return stub if stub is not None else importlib.import_module(name)

        mod.import_module = import_module
        return mod

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                package = package.rpartition(".")[0]
            name = package + ("." + name if name else "")
        if name == PACKAGE or name.startswith(PACKAGE + "."):
            mod = self.load(name)
            if fromlist:
                for item in fromlist:
                    if item != "*" and not hasattr(mod, item):
                        try:
                            self.load(name + "." + item)
                        except ModuleNotFoundError:
                            pass
                return mod
            return self.modules[name.partition(".")[0]]
        stub = self.stub(name)
        if stub is not None:
            return stub
        head = name.partition(".")[0]
        if head in ("ctypes", "os") and "." in name:
            if fromlist:
                return builtins.__import__(name, globals, locals, fromlist, 0)
            return self.stub(head)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        mod = self.modules.get(name)
        if mod is not None:
            return mod
        parent, _, child = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            init = os.path.join(path, "__init__.py")
            is_pkg, file = True, init
        else:
            is_pkg, file = False, path + ".py"
        if not os.path.exists(file) and not is_pkg:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        mod = types.ModuleType(name)
        mod.__file__ = file
        mod.__package__ = name if is_pkg else parent
        if is_pkg:
            mod.__path__ = [path]
        mod.__dict__["__builtins__"] = self.builtins
        mod.__dict__["__sx__"] = self.hooks
        if self.point is not None:
            mod.__dict__["__pt__"] = self.point
        self.modules[name] = mod
        real_sys.modules[name] = mod
        if os.path.exists(file):
            try:
                exec(compile_module(file, name, self.point is not None, self.optimize), mod.__dict__)  # pylint: disable=exec-used
            except BaseException:
                del self.modules[name]
                raise
        if parent:
            setattr(self.modules[parent], child, mod)
        return mod
