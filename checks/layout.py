"""The specification of Atop's on-disk structures: /verif/spec/layouts.json, generated from C headers by gcc."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "spec", "layouts.json")) as _fh:
    DATA = json.load(_fh)

VERSIONS = ["1.26"] + ["2.%d" % i for i in range(3, 13)]
NEWEST = "2.12"
CG_VERSIONS = ["2.11", "2.12"]
MAGIC = 0xFEEDBEEF


def numbers(ver):
    major, minor = ver.split(".")
    return int(major), int(minor)


def root(ver, kind):
    return DATA[ver]["roots"][kind]


def fields(ver, struct):
    return DATA[ver]["structs"][struct]["fields"]


def named(ver, struct):
    return [f for f in fields(ver, struct) if not f.get("reserved")]


def size(ver, struct):
    return DATA[ver]["structs"][struct]["size"]


def root_size(ver, kind):
    return size(ver, root(ver, kind))


def find(ver, struct, path):
    """(offset, field) of a dotted path below a structure."""
    off = 0
    item = None
    for part in path.split("."):
        item = next(f for f in fields(ver, struct) if f["name"] == part)
        off += item["off"]
        struct = item.get("struct")
    return off, item


def count_field(ver):
    """Name of the record field that announces the number of tasks."""
    return "nlist" if ver == "1.26" else "ndeviat"


def tlen_field(ver):
    """Name of the header field that announces the task length."""
    return "pstatlen" if ver == "1.26" else "tstatlen"


def lengths(ver):
    """Header fields holding structure lengths, with the size the version's layout has."""
    out = {"rawheadlen": root_size(ver, "Header"), "rawreclen": root_size(ver, "Record"),
           "sstatlen": root_size(ver, "SStat"), tlen_field(ver): root_size(ver, "TStat")}
    if ver in CG_VERSIONS:
        out["cstatlen"] = root_size(ver, "CStat")
    return out


def counters(ver, struct, prefix=""):
    """Every counter field below a structure: (path, capacity, array path)."""
    out = []
    for item in named(ver, struct):
        if item["kind"] == "struct":
            out += counters(ver, item["struct"], prefix + item["name"] + ".")
        elif item["kind"] == "array":
            if item.get("counter"):
                out.append((prefix + item["counter"], item["count"], prefix + item["name"]))
    return out
