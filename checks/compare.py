"""Comparison of what the package returns with the specified structure content."""
from . import layout as L
from .domain import SymDom


class View:
    """A structure of a version at an offset of some content."""

    def __init__(self, ver, struct, data, off=0):
        self.ver, self.struct, self.data, self.off = ver, struct, data, off

    @classmethod
    def root(cls, ver, kind, data, off=0):
        return cls(ver, L.root(ver, kind), data, off)

    def sub(self, item, index=None):
        off = self.off + item["off"]
        if index is not None:
            off = off + index * L.size(self.ver, item["struct"])
        return View(self.ver, item["struct"], self.data, off)

    def leaf(self, item):
        off = self.off + item["off"]
        kind = item["kind"]
        if kind == "int":
            return self.data.int(off, item["size"], item["signed"])
        if kind == "float":
            return self.data.float(off, item["size"])
        if kind == "char":
            return self.data.raw(off, 1)
        return self.data.text(off, item["size"])

    def value(self, path):
        """Specified value of a dotted path, e.g. "cpu.nrcpu" or "dsk.dsk[3].name"."""
        view = self
        for part in path.split("."):
            name, _, index = part.partition("[")
            item = next(f for f in L.fields(view.ver, view.struct) if f["name"] == name)
            if item["kind"] == "struct":
                view = view.sub(item)
            elif item["kind"] == "array":
                view = view.sub(item, int(index[:-1]))
            else:
                return view.leaf(item)
        return view


def struct(dom, obj, view, label):
    """Every named field of obj has the specified value (arrays: at every index)."""
    for item in L.named(view.ver, view.struct):
        name = label + "." + item["name"]
        out = dom.call(getattr, obj, item["name"])
        if not out.ok:
            dom.expect(False, name, out.describe())
            continue
        val, kind = out.value, item["kind"]
        if kind == "struct":
            struct(dom, val, view.sub(item), name)
        elif kind == "array":
            size = dom.call(dom.length, val)
            if not size.ok:
                dom.expect(False, name, "no length")
                continue
            dom.expect(size.value == item["count"], name, "length")
            for i in dom.indices(name, item["count"]):
                elem = dom.call(dom.at, val, i)
                if not elem.ok:
                    dom.expect(False, name, "element " + elem.describe())
                    break
                struct(dom, elem.value, view.sub(item, i), name + "[]")
        elif kind in ("int", "float", "char", "text"):
            dom.same(val, view.leaf(item), name)
        else:
            raise NotImplementedError(kind)


def prims(dom, obj, data, off, count, size, label):
    """obj is a sequence of `count` signed integers of `size` bytes."""
    got = dom.call(dom.length, obj)
    if not got.ok:
        dom.expect(False, label, "no length")
        return
    dom.expect(got.value == count, label, "length")
    dom.flush()
    for i in dom.indices(label, count):
        elem = dom.call(dom.at, obj, i)
        if not elem.ok:
            dom.expect(False, label, "element " + elem.describe())
            return
        dom.same(elem.value, data.int(off + i * size, size, True), label + "[]")


def plain(dom, obj, view, label, counts="spec"):
    """obj is the plain dictionary of the structure: all named fields, nothing else."""
    if type(obj) is not dict:
        dom.expect(False, label, "not a dict: %s" % type(obj).__name__)
        return
    items = L.named(view.ver, view.struct)
    names = {item["name"] for item in items}
    have = set()
    for key in obj:
        have.add(key if type(key) is str else repr(type(key)))
    if have != names:
        dom.expect(False, label, "keys: missing %s, extra %s" % (sorted(names - have), sorted(have - names)))
    for item in items:
        if item["name"] not in have:
            continue
        name = label + "." + item["name"]
        val, kind = obj[item["name"]], item["kind"]
        if kind == "struct":
            plain(dom, val, view.sub(item), name)
        elif kind == "array":
            array(dom, val, view, item, name)
        elif kind in ("char", "text"):
            raw = view.leaf(item)
            if kind == "char":
                dom.same(val, dom.decoded(raw), name)
            else:
                dom.same(val, dom.decoded(raw), name)
        else:
            dom.same(val, view.leaf(item), name)


def expected_count(view, item):
    """Number of entries conversion must emit: the array's own counter, limited to its capacity."""
    if not item.get("counter"):
        return item["count"]
    counter = next(f for f in L.fields(view.ver, view.struct) if f["name"] == item["counter"])
    num = view.leaf(counter)
    if num < item["count"]:
        return num
    return item["count"]


def array(dom, val, view, item, name):
    if type(val) is not list:
        dom.expect(False, name, "not a list: %s" % type(val).__name__)
        return
    want = expected_count(view, item)
    dom.expect(want == len(val), name, "number of entries (%d emitted)" % len(val))
    dom.flush()
    for i, elem in enumerate(val):
        if i >= item["count"]:
            break
        plain(dom, elem, view.sub(item, i), "%s[%d]" % (name, i))
