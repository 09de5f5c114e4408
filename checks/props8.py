"""Harnesses C29 and C30: copies of decoded structures; what the output depends on."""
import copy

from . import compare, layout as L, logs
from .props2 import convert, entry, plain_cgroup
from .props3 import Log, command, judge, layout_text, step
from .props5 import Arranged

WAYS = ("copy", "deepcopy", "bytes", "buffer", "pickle")


def duplicate(dom, way, objs, label):
    """Copies of all objects, made in one of the ways; earlier copies and then the originals are overwritten."""
    def one(obj):
        if way == "copy":
            return copy.copy(obj)
        if way == "deepcopy":
            return copy.deepcopy(obj)
        if way == "bytes":
            return type(obj).from_buffer_copy(dom.content(obj))
        return type(obj).from_buffer(dom.buffer(dom.content(obj)))

    for spoil in (False,) if way == "pickle" else (True, False):
        out = dom.call(dom.pickled, list(objs)) if way == "pickle" else dom.call(lambda: [one(obj) for obj in objs])
        dom.expect(out.ok, label + " by " + way, out.describe())
        dom.flush()
        for obj in out.value if spoil else ():
            dom.wipe(obj)
    for obj in objs:
        dom.wipe(obj)
    return out.value


def asked(dom, hdr, label, wanted, order):
    """The version's parts, whichever is asked for first."""
    names = ["semantic_version", "major_version", "minor_version"]
    for name in names[order:] + names[:order]:
        val = dom.call(getattr, hdr, name)
        dom.expect(val.ok, label + "." + name, val.describe())
        dom.flush()
        dom.same(val.value, wanted[name], label + "." + name)


def c29_log(dom, ver, way, version=None):
    """The header is copied and the original given up; a log is read with the copy; each sample is copied."""
    log = Log(dom, "F", ver, 1, fixed=True, version=version)
    dom.settle()
    major, minor = L.numbers(log.version)
    wanted = {"semantic_version": "%d.%d" % (major, minor), "major_version": major, "minor_version": minor}
    raw = dom.open(log.file, 0, disk=True)
    out = dom.call(dom.package().get_header, raw, check_compatibility=version is None)
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    if dom.bool("asked before"):
        asked(dom, out.value, "original", wanted, 0)
    hdr, = duplicate(dom, way, [out.value], "header")
    asked(dom, hdr, "copy", wanted, dom.choose("order", 3))
    compare.struct(dom, hdr, log.header, "copy")
    compare.plain(dom, convert(dom, hdr), log.header, "copy.converted")
    if version is None:
        check = dom.call(hdr.check_compatibility)
        dom.expect(check.ok, "copy.check_compatibility", check.describe())
    if way == "pickle":
        raw = dom.open(log.file, logs.HEADER_SIZE, disk=True)
    gen = dom.package().generate_statistics(raw, hdr)
    item = step(dom, gen, "sample")
    judge(dom, log, hdr, [item], "sample")
    end = dom.call(next, gen)
    dom.expect(end.raised(StopIteration), "end", end.describe())
    dom.flush()
    smp, ntasks, ncgroups = log.samples[0]
    parts = [("Record", item[0], smp.rec), ("SStat", item[1], smp.sstat())]
    parts += [("TStat", task, smp.task(i)) for i, task in enumerate(item[2])]
    copies = duplicate(dom, way, [obj for _, obj, _ in parts], "sample")
    for (kind, _, spec), obj in zip(parts, copies):
        compare.struct(dom, obj, spec, kind + ".copy")
        compare.plain(dom, convert(dom, obj), spec, kind + ".converted")
    dom.flush()
    if ncgroups and way in ("copy", "deepcopy"):
        got = dom.call(lambda: [getattr(copy, way)(cgroup) for cgroup in item[3]])
        dom.expect(got.ok, "cgroup", got.describe())
        dom.flush()
        if way == "deepcopy":
            for cgroup in item[3]:
                dom.wipe(cgroup.cstat)
                dom.wipe(cgroup.proclist)
        smp.compare_cgroups(got.value, ncgroups, "cgroup.copy")
        for i, (view, off, procs) in enumerate(smp.cgroups(ncgroups)[0]):
            plain_cgroup(dom, convert(dom, got.value[i]), view, smp.sections[3].stream.data, off,
                         logs.pick(dom, procs, 1), "cgroup.converted")
    dom.witness("copied")


def c29_header(dom, ver, way):
    """Any header that is read without the compatibility check."""
    file = dom.file("H")
    dom.assume(file.size == logs.HEADER_SIZE)
    spec = compare.View.root(ver, "Header", file.view)
    dom.bind(spec.value("magic"), L.MAGIC)
    major, minor = L.numbers(ver)
    dom.bind(spec.value("aversion"), 0x8000 | major << 8 | minor)
    out = dom.call(dom.package().get_header, dom.open(file, 0, disk=True), check_compatibility=False)
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    fits = True
    for name, size in L.lengths(ver).items():
        if fits and spec.value(name) != size:
            fits = False
    hdr, = duplicate(dom, way, [out.value], "header")
    compare.struct(dom, hdr, spec, "copy")
    compare.plain(dom, convert(dom, hdr), spec, "copy.converted")
    check = dom.call(hdr.check_compatibility)
    dom.expect(check.ok if fits else check.raised(ValueError), "check_compatibility", check.describe())
    dom.flush()
    dom.witness("compatible" if fits else "incompatible")


def c29_decoded(dom, ver, way):
    """The sections of a sample are decoded with copies of the header and of the record."""
    log = Log(dom, "F", ver, 1, fixed=True)
    dom.settle()
    raw = dom.open(log.file, 0, disk=True)
    out = dom.call(dom.package().get_header, raw)
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    record = dom.call(dom.package().get_record, raw, out.value)
    dom.expect(record.ok, "record", record.describe())
    dom.flush()
    hdr, rec = duplicate(dom, way, [out.value, record.value], "header and record")
    smp, ntasks, ncgroups = log.samples[0]
    if way == "pickle":
        raw = dom.open(log.file, logs.HEADER_SIZE + L.root_size(ver, "Record"), disk=True)
    pkg = dom.package()
    got = [rec]
    for func in (pkg.get_sstat, pkg.get_tstat) + ((pkg.get_cstat,) if ver in L.CG_VERSIONS else ()):
        part = dom.call(func, raw, hdr, rec)
        dom.expect(part.ok, "section", part.describe())
        dom.flush()
        got.append(part.value)
    smp.compare(tuple(got + ([] if ver in L.CG_VERSIONS else [[]])), ntasks, ncgroups, "sample")
    dom.flush()
    dom.witness("copied")


def c29_parseables(dom, way, names):
    """Parseables of copies."""
    scene = Arranged(dom, 1).build()
    dom.settle()
    objs = [scene.hdr, scene.rec, scene.sst] + scene.tasks
    got = duplicate(dom, way, objs, "sample")
    scene.hdr, scene.rec, scene.sst = got[:3]
    scene.tasks = got[3:]
    for name in names:
        scene.judge(list(scene.start(name)), name, name)
    dom.witness("copied")


# --------------------------------------------------------------------------- C30

NAMES = [("a.log", False), ("./logs/gr\u00f6\u00dfe.log", False), ("my log.gz", True), ("\u65e5\u8a8c.gz.1", True),
         ("$HOME \u00e9.log", False)]


def c30_output(dom, ver, requested, name, version=None):
    """Arbitrary surroundings: the documents are those specified, as ASCII text."""
    dom.surroundings()
    log = Log(dom, "F", ver, 1, version=version, fixed=True)
    log.name, compressed = NAMES[name]
    if requested and log.version == "1.26":
        log.devices(requested, 1, fixed=True)
    dom.settle()
    pretty, tasks, cgroups = [bool(dom.bool(flag)) for flag in ("pretty", "tasks", "cgroups")]
    argv = [log.name] + (["-P"] + list(requested) if requested else []) + (["-p"] if pretty else []) + \
        (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else [])
    files = {log.name: (log.file, compressed)}
    docs, txt = command(dom, argv, files)
    dom.expect(len(docs) == 1, "documents", "%d" % len(docs))
    dom.flush()
    if requested:
        log.parsed(docs[0], requested, "doc")
    else:
        log.plain(docs[0], tasks, cgroups, "doc")
    layout_text(dom, txt, docs, pretty)
    dom.ascii(txt, "ASCII")
    dom.flush()
    if requested and log.version != "1.26":
        # The words of the error entry are free, but they are the same ones everywhere.
        dom.elsewhere()
        again, txt2 = command(dom, argv, files, "elsewhere")
        dom.same(again, docs, "elsewhere")
        dom.expect(txt2 == txt, "elsewhere", "another text")
        dom.flush()
    dom.witness("printed")
