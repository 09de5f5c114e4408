"""One-off: transcribe the structure declarations of a checkout into C headers (spec/c/*.h).

Run once against the pinned tree; its output was then committed and is the reference from then on.
It is kept to document where the headers come from; no check runs it.
"""
import ctypes
import os
import sys

repo, out = sys.argv[1], sys.argv[2]
sys.path.insert(0, repo)
from atoparser import utils  # noqa: E402

CN = {
    ctypes.c_char: "char", ctypes.c_ubyte: "unsigned char", ctypes.c_byte: "signed char", ctypes.c_float: "float", ctypes.c_int: "int", ctypes.c_uint: "unsigned int",
    ctypes.c_long: "long", ctypes.c_ulong: "unsigned long", ctypes.c_short: "short",
    ctypes.c_ushort: "unsigned short", ctypes.c_longlong: "long long",
}


def emit(cls, done, lines):
    if cls in done:
        return done[cls]
    body = []
    for field in cls._fields_:
        name, typ = field[0], field[1]
        dim = ""
        while isinstance(typ, type) and issubclass(typ, ctypes.Array):
            dim += f"[{typ._length_}]"
            typ = typ._type_
        if issubclass(typ, ctypes.Structure):
            tname = "struct " + emit(typ, done, lines)
        else:
            tname = CN[typ]
        body.append(f"    {tname} {name}{dim};")
    base = name = cls.__name__
    n = 2
    while name in done.values():
        name, n = f"{base}_{n}", n + 1
    done[cls] = name
    lines.append(f"struct {name} {{\n" + "\n".join(body) + "\n};\n")
    return name


for mod in utils._VERSIONS:
    H = mod.Header
    ver = H.supported_version
    done, lines = {}, []
    roots = {}
    for key, cls in (("Header", H), ("Record", H.Record), ("SStat", H.SStat), ("TStat", H.TStat), ("CStat", H.CStat)):
        if cls is not None:
            roots[key] = emit(cls, done, lines)
    with open(os.path.join(out, f"atop_{ver.replace('.', '_')}.h"), "w") as fh:
        fh.write(f"/* On-disk structures of Atop {ver} logs, x86-64 Linux. */\n")
        for key, name in roots.items():
            fh.write(f"/* root {key} = struct {name} */\n")
        fh.write("\n" + "\n".join(lines))
