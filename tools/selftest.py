"""Checks of the machinery itself, without judging the package: run by setup_cmd.

1. spec/layouts.json is what gcc computes from spec/c.
2. The structures of the specification agree with logs written by the real Atop (the repository's sample logs):
   every section is one stream of the announced length whose content has the specified size, up to the end of file.
3. The engine's ctypes model agrees with ctypes on every specified structure, for constant contents.
4. The engine's zlib realisation: streams of every requested length decompress to the requested content.
"""
import ctypes
import gzip
import glob
import os
import random
import subprocess
import sys
import zlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from checks import layout as L  # noqa: E402
from checks.domain import CBytes  # noqa: E402
from checks.compare import View  # noqa: E402
from engine import core, realise, symctypes, text, values  # noqa: E402

REPO = os.environ.get("ATOPARSER_REPO", "/repo")


def layouts():
    subprocess.run([sys.executable, os.path.join(ROOT, "spec", "gen_layouts.py"), "--check"], check=True)


def sample_logs():
    count = 0
    for path in sorted(glob.glob(os.path.join(REPO, "atoparser", "test", "files", "*.log.gz"))):
        with gzip.open(path) as fh:
            data = fh.read()
        ver = next(v for v in L.VERSIONS if L.numbers(v) == (data[5] & 127, data[4]))
        hdr = View.root(ver, "Header", CBytes(data))
        assert hdr.value("magic") == L.MAGIC, path
        for name, size in L.lengths(ver).items():
            assert hdr.value(name) == size, (path, name, hdr.value(name), size)
        pos = 480
        while pos < len(data):
            rec = View.root(ver, "Record", CBytes(data), pos)
            pos += L.root_size(ver, "Record")
            names = ["scomplen", "pcomplen"] + (["ccomplen", "icomplen"] if ver in L.CG_VERSIONS else [])
            parts = []
            for name in names:
                length = rec.value(name)
                if name in ("ccomplen", "icomplen") and not length:
                    parts.append(b"")
                    continue
                dec = zlib.decompressobj()
                parts.append(dec.decompress(data[pos:pos + length]))
                assert dec.eof and not dec.unused_data, (path, name)
                pos += length
            assert len(parts[0]) == L.root_size(ver, "SStat"), path
            assert len(parts[1]) == rec.value(L.count_field(ver)) * L.root_size(ver, "TStat"), path
            if ver in L.CG_VERSIONS:
                off = pids = 0
                for _ in range(rec.value("ncgroups")):
                    view = View.root(ver, "CStat", CBytes(parts[2]), off)
                    off += view.value("gen.structlen")
                    pids += view.value("gen.nprocs")
                assert off == len(parts[2]) and 4 * pids == len(parts[3]), path
            count += 1
        assert pos == len(data), path
    return count


def build(mod, ver, struct, cache):
    """The structure as classes of a ctypes-like module."""
    if (ver, struct) not in cache:
        ints = {(1, True): mod.c_byte, (1, False): mod.c_ubyte, (2, True): mod.c_short, (2, False): mod.c_ushort,
                (4, True): mod.c_int, (4, False): mod.c_uint, (8, True): mod.c_longlong, (8, False): mod.c_ulonglong}
        fields = []
        for item in L.fields(ver, struct):
            kind = item["kind"]
            if kind == "int":
                ctype = ints[item["size"], item["signed"]]
            elif kind == "float":
                ctype = mod.c_float if item["size"] == 4 else mod.c_double
            elif kind == "char":
                ctype = mod.c_char
            elif kind == "text":
                ctype = mod.c_char * item["size"]
            elif kind == "struct":
                ctype = build(mod, ver, item["struct"], cache)
            elif kind == "array":
                ctype = build(mod, ver, item["struct"], cache) * item["count"]
            else:
                ctype = mod.c_char * item["size"]
            fields.append((item["name"], ctype))
        cache[ver, struct] = type(mod.Structure)(struct, (mod.Structure,), {"_fields_": fields})
    return cache[ver, struct]


def same(left, right, where):
    if isinstance(left, ctypes.Structure):
        for name, _ in left._fields_:
            same(getattr(left, name), getattr(right, name), where + "." + name)
    elif isinstance(left, ctypes.Array):
        assert len(left) == len(right), where
        for i in sorted({0, 1, len(left) // 2, len(left) - 1} & set(range(len(left)))):
            same(left[i], right[i], "%s[%d]" % (where, i))
    elif isinstance(left, float):
        assert left == right or left != left, (where, left, right)
    elif isinstance(left, bytes):
        res = right.eq(left) if hasattr(right, "eq") else right == left
        assert res is True or bool(res), (where, left, right)
    else:
        assert type(right) is int and left == right, (where, left, right)


def ctypes_model():
    rng = random.Random(5)
    native, model, count = {}, {}, 0
    c = core.Context()
    c._begin_path([])
    c.todo = []
    core.CTX = c
    for ver in L.VERSIONS:
        for kind in ("Header", "Record", "SStat", "TStat") + (("CStat",) if ver in L.CG_VERSIONS else ()):
            name = L.root(ver, kind)
            real, sym = build(ctypes, ver, name, native), build(symctypes, ver, name, model)
            size = L.root_size(ver, kind)
            assert ctypes.sizeof(real) == size and symctypes.sizeof(sym) == size, (ver, kind)
            for item in L.fields(ver, name):
                assert getattr(real, item["name"]).offset == item["off"], (ver, kind, item["name"])
                assert getattr(sym, item["name"]).offset == item["off"], (ver, kind, item["name"])
            data = bytes(rng.randrange(256) for _ in range(size))
            same(real.from_buffer_copy(data), sym.from_buffer_copy(data), ver + "." + kind)
            count += 1
    core.CTX = None
    return count


def streams():
    count = 0
    for size in (0, 1, 100, 70000):
        for kind in realise.FILLERS:
            data = bytes(realise.filler(kind, size))
            low = len(realise.make_stream(data, len(zlib.compress(data, 9))) or zlib.compress(data, 9))
            for zlen in range(low + 40, low + 80):
                out = realise.make_stream(data, zlen)
                assert out is not None and len(out) == zlen and zlib.decompress(out) == data, (size, kind, zlen)
                count += 1
    return count


def main():
    layouts()
    print("sample logs: %d samples agree with the specification" % sample_logs())
    print("ctypes model: %d structures agree with ctypes" % ctypes_model())
    print("streams: %d built" % streams())


if __name__ == "__main__":
    main()
