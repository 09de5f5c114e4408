"""Harness C31: the bytes of decoded structures."""
from . import layout as L
from .props2 import convert, parser
from .props3 import Log, step


def same_bytes(dom, obj, view, size, label):
    """The memory of obj is the size bytes from the start of view on, reserved fields and padding included."""
    out = dom.call(dom.content, obj)
    dom.expect(out.ok, label, out.describe())
    dom.flush()
    got = dom.length(out.value)
    dom.expect(got == size, label, "%s bytes" % (got,))
    dom.flush()
    for index in dom.indices(label, size):
        dom.same(dom.at(out.value, index), view.data.int(view.off + index, 1, False), "%s[%s]" % (label, "byte"))
    dom.flush()


def parts(dom, log, hdr, items, label):
    ver = log.ver
    same_bytes(dom, hdr, log.header, L.root_size(ver, "Header"), label + ".header")
    for number, ((smp, ntasks, ncgroups), item) in enumerate(zip(log.samples, items)):
        name = "%s[%d]." % (label, number)
        same_bytes(dom, item[0], smp.rec, L.root_size(ver, "Record"), name + "record")
        same_bytes(dom, item[1], smp.sstat(), L.root_size(ver, "SStat"), name + "sstat")
        dom.expect(len(item[2]) == ntasks and len(item[3]) == ncgroups, name + "lists")
        dom.flush()
        for i, task in enumerate(item[2]):
            same_bytes(dom, task, smp.task(i), L.root_size(ver, "TStat"), "%ststat[%d]" % (name, i))
        for i, (view, _, procs) in enumerate(smp.cgroups(ncgroups)[0] if ncgroups else ()):
            same_bytes(dom, item[3][i].cstat, view, L.root_size(ver, "CStat"), "%scgroup[%d]" % (name, i))


def c31_log(dom, ver, check, version=None):
    """Header, records, statistics, tasks and cgroups of a log: as read, then after they were converted and reported."""
    log = Log(dom, "F", ver, 2, fixed=True, tasks=2, version=version)
    dom.settle()
    pkg = dom.package()
    raw = dom.open(log.file)
    out = dom.call(pkg.get_header, raw, check)
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    hdr = out.value
    gen = pkg.generate_statistics(raw, hdr)
    items = [step(dom, gen, "sample"), step(dom, gen, "sample")]
    parts(dom, log, hdr, items, "read")
    if check and version is None:
        dom.expect(dom.call(hdr.check_compatibility).ok, "check_compatibility")
    for obj in (hdr, items[0][0], *items[0][2]):
        convert(dom, obj)
    for name in ("MEM", "CPU", "PRC", "PRM") if ver == "1.26" else ():
        entries = dom.call(lambda: list(parser(dom, name)(hdr, *items[0][:3])))
        dom.expect(entries.ok, name, entries.describe())
    parts(dom, log, hdr, items, "kept")
    dom.witness("bytes")
