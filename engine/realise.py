"""From a solver model to concrete inputs.

describe() evaluates the current path's inputs under one model; build() turns the description into real files: field
values at their offsets, zlib streams of exactly the modelled compressed and decompressed lengths, filler elsewhere.
"""
import ast
import os
import zlib

import z3

from . import core
from .values import Atom, BoolAtom, DSrc, FileSrc, k, to_z3

MAX_FILE = 1 << 26
MAX_DATA = 1 << 28


def _soft(c, streams):
    """Preferences that keep concrete inputs small; dropped one by one when the path contradicts them."""
    from .symio import stream_atoms

    prefs = []
    for name, (_, size) in c.files.items():
        if type(size) is not int:
            prefs.append(to_z3(size) <= MAX_FILE)
    for sym in c.soft:
        prefs.append(sym.z3() if hasattr(sym, "z3") else z3.BoolVal(bool(sym)))
    for base, start, _ in streams:
        _, zlen, dlen = stream_atoms(base, start)
        if type(zlen) is not int:
            # Room for the compressed form of any filler.
            low = 20000 if type(dlen) is not int else max(20000, dlen // 40)
            prefs.append(z3.And(to_z3(zlen) >= low, to_z3(zlen) <= 3 * low))
            if type(dlen) is not int:
                prefs.append(to_z3(dlen) <= 3000000)
        if type(start) is not int:
            prefs.append(to_z3(start) <= 5000000)
    for atom in list(c.mat):
        if isinstance(atom, Atom) and atom.kind == "var" and str(atom.args[0]).startswith("pos"):
            prefs.append(atom.z3var() <= 5000)
    return prefs


def _streams(c):
    """The streams this path depends on."""
    used = {(base, k(start)) for base, start, _ in c.zcalls}
    for atom in list(c.mat) + list(c.bound):
        if atom.kind in ("zlen", "dlen"):
            used.add((atom.args[0], k(atom.args[1])))
        elif atom.kind == "valid":
            used.add((atom.args[0].base, k(atom.args[1])))
        elif atom.kind == "field" and type(atom.args[0]) is DSrc:
            used.add((atom.args[0].base, k(atom.args[0].start)))
    seen, out = set(), []
    for base, start, length in list(c.spec_streams) + list(c.zcalls):
        if (base, k(start)) not in seen and (base, k(start)) in used:
            seen.add((base, k(start)))
            out.append((base, start, length))
    return out


def describe(c):
    """Concrete description of one assignment of the current path; None if there is none."""
    from .symio import stream_atoms

    solver = c.solver
    solver.push()
    try:
        streams = _streams(c)
        prefs = _soft(c, streams)
        for base, start, _ in streams:
            valid, zlen, dlen = stream_atoms(base, start)
            for term in (zlen, dlen, start):
                to_z3(term)
            valid.z3()
        solver.set("timeout", 5000)
        kept = list(prefs)
        if solver.check(*kept) != z3.sat:
            kept = []
            for pref in prefs:
                if solver.check(*(kept + [pref])) == z3.sat:
                    kept.append(pref)
            if solver.check(*kept) != z3.sat:
                return None
        model = solver.model()

        def num(term):
            if type(term) is int:
                return term
            val = model.eval(to_z3(term), model_completion=True)
            return val.as_long()

        out = {"ints": {}, "bools": {}, "files": {}}
        for name, (src, size) in c.files.items():
            out["files"][name] = {"size": num(size), "bytes": [], "streams": [], "invalid": []}
        by_src = {src: out["files"][name] for name, (src, _) in c.files.items()}
        dmap = {}
        spec = {(base, k(start)) for base, start, _ in c.spec_streams}
        for base, start, length in streams:
            if base not in by_src:
                continue
            valid, zlen, dlen = stream_atoms(base, start)
            desc = {"start": num(start), "zlen": num(zlen), "dlen": num(dlen), "length": num(length),
                    "valid": z3.is_true(model.eval(valid.z3(), model_completion=True)), "bytes": [],
                    "invalid": [], "spec": (base, k(start)) in spec}
            if (base, k(start)) in c.zparts:
                desc["part"] = num(c.zparts[(base, k(start))])
            dmap.setdefault((base, desc["start"]), desc)
            by_src[base]["streams"].append(desc)
        for atom in list(c.mat):
            if isinstance(atom, BoolAtom):
                if atom.kind == "bool":
                    out["bools"][atom.args[0]] = z3.is_true(model.eval(atom.var, model_completion=True))
                continue
            if atom.kind == "var":
                out["ints"][str(atom.args[0])] = num_atom(model, atom)
            elif atom.kind == "field":
                src, off, size, _ = atom.args
                val = num_atom(model, atom)
                item = [num(off), (val % (1 << (8 * size))).to_bytes(size, "little").hex()]
                if type(src) is FileSrc and src in by_src:
                    by_src[src]["bytes"].append(item)
                elif type(src) is DSrc:
                    desc = dmap.get((src.base, num(src.start)))
                    if desc is not None:
                        desc["bytes"].append(item)
        for atom, val in c.bound.items():
            if atom.kind == "var":
                out["ints"][str(atom.args[0])] = val
        for entry in c.texts.values():
            value = entry["value"]
            atom = entry.get("utf-8")
            # None: whatever the filler has there.
            ok = None if atom is None else z3.is_true(model.eval(atom.var, model_completion=True))
            if hasattr(value, "cap"):
                segs = [(value.src, value.off, value.cap)]
            else:
                segs = getattr(value, "segs", [])
            for src, off, length in segs:
                item = [num(off), num(length), ok]
                if type(src) is FileSrc and src in by_src:
                    by_src[src]["invalid"].append(item)
                elif type(src) is DSrc:
                    desc = dmap.get((src.base, num(src.start)))
                    if desc is not None:
                        desc["invalid"].append(item)
        return out
    finally:
        solver.set("timeout", c.query_ms)
        solver.pop()


def num_atom(model, atom):
    return model.eval(atom.z3var(), model_completion=True).as_long()


# --------------------------------------------------------------------------- concrete content

FILLERS = ("mixed", "high", "zero", "text", "ones", "marks", "words")
# Text that programs treat specially: marks, compositions, ligatures, separators, controls, quotes, placeholders, paths.
MARKS = ("\ufeff", "e\u0301", "\ufb01", "\u2028", "\x85", "\u00a0", "\u0130", "\u00df", "\u200b", "\x1b[1m", "\x7f", "\u212b",
         "\"'`", "\\n", "<&>", "%s", "{0}", "$HOME", "~", "../", "#;", "\U0001f600", "-", "\uff21", "\r\n", "\t", " ")
# Undecodable: surrogates, overlong forms, beyond the last character, lone and missing continuations.
BROKEN = b"\xed\xa0\x80a\xc0\x80\xf4\x90\x80\x80b\xc3(\x80\xe2\x82 \xf0\x9f\x98"
_WORDS = []


def words():
    """The short texts that occur in the package."""
    if not _WORDS:
        from . import rewrite

        found = {}
        base = os.path.join(rewrite.REPO, rewrite.PACKAGE)
        for folder, _, files in sorted(os.walk(base)):
            for name in sorted(files):
                if name.endswith(".py") and os.path.basename(folder) not in ("test", "tests"):
                    _literals(os.path.join(folder, name), found)
        special = [word for word in found if not word.isidentifier()]
        _WORDS.extend((special + [word for word in found if word.isidentifier()])[:48] or ["word"])
    return _WORDS


def _literals(file, found):
    with open(file, "rb") as fh:
        source = fh.read()
    try:
        tree = ast.parse(source)
    except SyntaxError:
        return
    for node in ast.walk(tree):
        value = getattr(node, "value", None) if isinstance(node, ast.Constant) else None
        if isinstance(value, bytes):
            value = value.decode("utf-8", "ignore")
        if isinstance(value, str) and 1 <= len(value) <= 12 and "\0" not in value:
            found.setdefault(value.encode("utf-8", "ignore").decode())


def _parts(kind):
    return words() if kind == "words" else MARKS


def filler(kind, size, phase=0):
    """Phase: streams at different places of a file have different contents."""
    if kind in ("marks", "words"):
        data, turn = bytearray(), 0
        parts = _parts(kind)
        while len(data) < min(size, 4099):
            # Numbers, texts and terminators in turns; a different text after each.
            data += parts[turn % len(parts)].encode() + b"a" + (b"\0" * (turn % 4) if turn % 3 == 0 else b"")
            if kind == "marks" and turn % 7 == 3:
                data += BROKEN
            turn += 1
        return _rotated(data, size, phase)
    if kind == "zero":
        return bytearray(size)
    if kind == "ones":
        return bytearray(b"\xff" * size)
    if kind == "mixed":
        pattern = bytes((i * 97 + 13) % 251 for i in range(251))
    elif kind == "high":
        pattern = bytes((i * 57 + 129) % 255 + 1 for i in range(253))
    else:
        pattern = b"ab c-Xy9_ \tqZ\xc3\xa97/(k) \xe2\x82\xacw" + bytes([0]) + b"  tail \n" + b"m" * 90
        pattern = pattern[:101]
    return _rotated(bytearray(pattern), size, phase)


def _rotated(pattern, size, phase):
    if not pattern:
        return bytearray(size)
    phase %= len(pattern)
    return (pattern * ((size + phase) // len(pattern) + 1))[phase:phase + size]


def content(size, pins, texts, kind, phase=0):
    """Bytes with the pinned ones set and the text regions (in)valid as asked."""
    data = filler(kind, size, phase)
    pinned = bytearray(size)
    for off, hexed in pins:
        raw = bytes.fromhex(hexed)
        for i, byte in enumerate(raw):
            if 0 <= off + i < size:
                data[off + i] = byte
                pinned[off + i] = 1
    for off, length, ok in texts:
        if off < 0 or off + length > size or ok is None and kind not in ("marks", "words"):
            continue
        _text_region(data, pinned, off, length, ok, kind)
    return data


def _special_text(off, length, ok, kind):
    parts = _parts(kind)
    if ok is False:
        lead = parts[off // 4 % len(parts)].encode() if kind == "words" else MARKS[0].encode()
        return ((lead if len(lead) + 3 <= length else b"") + BROKEN * (length // len(BROKEN) + 1))[:length]
    out, turn = MARKS[0].encode() if kind == "marks" and length > 3 else b"", off // 4 + length
    while True:
        part = parts[turn % len(parts)].encode()
        if len(out) + len(part) + 1 > length:
            return (out + b"a" * length)[:length]
        out += part + b"b" * (turn % 2)
        turn += 1


def _text_region(data, pinned, off, length, ok, kind):
    if kind in ("marks", "words"):
        for i, byte in enumerate(_special_text(off, length, ok, kind)):
            # Also where the model has some character, but not where it has the end.
            if not pinned[off + i] or data[off + i]:
                data[off + i] = byte
    for i in range(off, off + length) if kind not in ("marks", "words") else ():
        if not pinned[i]:
            if ok:
                data[i] = 0 if kind == "zero" else (32 if kind == "text" and i % 5 == 0 else 97 + i % 26)
            else:
                data[i] = 0xFF if kind != "mixed" else (0xFF if i % 3 else 98)
    if ok is not False:
        return
    raw = bytes(data[off:off + length]).split(b"\0", 1)[0]
    try:
        raw.decode()
    except UnicodeDecodeError:
        return
    for i in range(off, off + length):
        if not pinned[i]:
            data[i] = 0xFF
            return


def make_stream(data, zlen, ended=True):
    """A zlib stream of exactly zlen bytes that decompresses to data; None if that is out of reach.

    Not ended: all of the data comes out, but the end of the stream does not."""
    raw = bytes(data)
    best = None
    for level in (9, 1):
        comp = zlib.compressobj(level)
        body = comp.compress(raw) + comp.flush(zlib.Z_FULL_FLUSH)
        if best is None or len(body) < len(best):
            best = body
    if not ended:
        pad = zlen - len(best)
        return best + b"\x00\x00\x00\xff\xff" * (pad // 5) + b"\x00" * (pad % 5) if pad >= 0 else None
    adler = zlib.adler32(raw).to_bytes(4, "big")
    for final in (b"\x03\x00", b"\x01\x00\x00\xff\xff"):
        pad = zlen - len(best) - len(final) - 4
        for six in range(0, 6):
            rest = pad - 6 * six
            if rest >= 0 and rest % 5 == 0:
                # Empty fixed-Huffman block followed by an empty stored block; then empty stored blocks.
                padding = b"\x02\x00\x00\x00\xff\xff" * six + b"\x00\x00\x00\xff\xff" * (rest // 5)
                stream = best + padding + final + adler
                try:
                    if zlib.decompress(stream) == raw and len(stream) == zlen:
                        return stream
                except zlib.error:
                    pass
    plain = zlib.compress(raw, 9)
    return plain if len(plain) == zlen else None


def build(desc, kind):
    """Concrete inputs: {"ints", "bools", "files": name -> bytes}; notes what could not be honoured."""
    files, notes = {}, []
    for name, fdesc in desc["files"].items():
        size = fdesc["size"]
        if size > MAX_FILE:
            notes.append("%s: %d bytes is too large to build" % (name, size))
            size = MAX_FILE
        extent = size
        placed = []
        for sdesc in sorted(fdesc["streams"], key=lambda s: not s["spec"]):
            start, zlen = sdesc["start"], sdesc["zlen"]
            if start < 0 or start > MAX_FILE:
                continue
            if any(start < stop and begin < start + max(zlen, 1) for begin, stop, _ in placed):
                if sdesc["spec"]:
                    notes.append("%s: overlapping streams" % name)
                continue
            if sdesc["dlen"] > MAX_DATA or zlen > MAX_FILE:
                notes.append("%s: stream too large" % name)
                continue
            if sdesc["valid"]:
                data = content(sdesc["dlen"], sdesc["bytes"], sdesc["invalid"], kind, start)
                stream = make_stream(data, zlen)
                if stream is None:
                    stream = make_stream(content(sdesc["dlen"], sdesc["bytes"], sdesc["invalid"], "zero"), zlen)
                if stream is None:
                    notes.append("%s: no stream of %d bytes for %d" % (name, zlen, sdesc["dlen"]))
                    continue
            else:
                length = max(1, min(sdesc["length"], 1 << 20))
                stream = None
                if sdesc.get("part"):
                    data = content(min(sdesc["part"], MAX_DATA), sdesc["bytes"], sdesc["invalid"], kind)
                    stream = make_stream(data, length, ended=False)
                if stream is not None:
                    pass
                elif kind in ("mixed", "zero") or length < 12:
                    stream = b"\xff" * length
                else:
                    # Right header and content, wrong checksum.
                    stream = bytearray(make_stream(filler(kind, 64), length) or b"\xff" * length)
                    stream[-1] ^= 0x55
                    stream = bytes(stream)
            placed.append((start, start + len(stream), stream))
            extent = max(extent, start + len(stream))
        data = content(min(max(extent, size), 2 * MAX_FILE), fdesc["bytes"], fdesc["invalid"], kind)
        for start, stop, stream in placed:
            data[start:stop] = stream
        files[name] = bytes(data[:size])
    return {"ints": desc["ints"], "bools": desc["bools"], "files": files, "notes": notes}
