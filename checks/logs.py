"""Specified structure of a log: header, records and their compressed sections."""
from . import compare, layout as L
from .compare import View
from .domain import And, Implies, Not, Or

HEADER_SIZE = 480


def bind_header(dom, ver, view, off=0, lengths=True, version=True):
    """The content at off is the header of a log written by Atop `ver`."""
    hdr = View.root(ver, "Header", view, off)
    dom.bind(hdr.value("magic"), L.MAGIC)
    if version:
        major, minor = L.numbers(ver)
        dom.bind(hdr.value("aversion"), 0x8000 | major << 8 | minor)
    if lengths:
        for name, size in L.lengths(ver).items():
            dom.bind(hdr.value(name), size)
    return hdr


def header(dom, ver, name="H", **kwargs):
    """An arbitrary accepted header of the version, read by the package."""
    file = dom.file(name, HEADER_SIZE)
    spec = bind_header(dom, ver, file.view, **kwargs)
    pkg = dom.package()
    out = dom.call(pkg.get_header, dom.open(file))
    if not out.ok:
        dom.expect(False, "header.accepted", out.describe())
        dom.flush()
    return out.value, spec


class Section:
    def __init__(self, name, start, length, stream):
        self.name, self.start, self.length, self.stream = name, start, length, stream

    @property
    def end(self):
        return self.start + self.length


class Sample:
    """The specified location and content of one sample."""

    def __init__(self, dom, ver, file, pos):
        self.dom, self.ver, self.file, self.pos = dom, ver, file, pos
        self.rec = View.root(ver, "Record", file.view, pos)
        self.body = pos + L.root_size(ver, "Record")
        self._sections = []

    def length_names(self):
        names = ["scomplen", "pcomplen"]
        return names + ["ccomplen", "icomplen"] if self.ver in L.CG_VERSIONS else names

    def section(self, index):
        """The section of that index; its position follows from the lengths announced for those before it."""
        names = self.length_names()
        while len(self._sections) <= index:
            name = names[len(self._sections)]
            pos = self._sections[-1].end if self._sections else self.body
            length = self.rec.value(name)
            if name in ("ccomplen", "icomplen") and length == 0:
                length = 0
            self._sections.append(Section(name, pos, length, self.file.stream(pos, length)))
        return self._sections[index]

    @property
    def sections(self):
        self.section(len(self.length_names()) - 1)
        return self._sections

    @property
    def end(self):
        return self.sections[-1].end

    @property
    def ntasks(self):
        return self.rec.value(L.count_field(self.ver))

    @property
    def ncgroups(self):
        return self.rec.value("ncgroups")

    def sstat(self):
        return View.root(self.ver, "SStat", self.section(0).stream.data)

    def task(self, i, tlen=None):
        tlen = L.root_size(self.ver, "TStat") if tlen is None else tlen
        return View.root(self.ver, "TStat", self.section(1).stream.data, i * tlen)

    def cgroups(self, count):
        """(CStat view, process-id offset, process count) per entry, and the total number of ids."""
        out, off, pids = [], 0, 0
        for _ in range(count):
            view = View.root(self.ver, "CStat", self.sections[2].stream.data, off)
            procs = view.value("gen.nprocs")
            out.append((view, pids * 4, procs))
            off = off + view.value("gen.structlen")
            pids = pids + procs
        return out, pids

    # premises
    def intact(self, section):
        """The section holds one valid stream of exactly the announced length."""
        dom = self.dom
        if section.name in ("ccomplen", "icomplen") and section.length == 0:
            return
        dom.assume(section.stream.valid)
        dom.assume(section.stream.zlen == section.length)
        if type(section.stream.dlen) is not int or section.stream.dlen <= 2000000:
            dom.prefer(section.length <= 60000)

    def complete(self, max_tasks, max_cgroups, exact=None, empty_sections=True):
        """The sample is undamaged and its payloads hold what the record announces; returns (tasks, cgroups)."""
        dom, ver = self.dom, self.ver
        if not empty_sections and ver in L.CG_VERSIONS:
            dom.assume(self.rec.value("ccomplen") > 0)
            dom.assume(self.rec.value("icomplen") > 0)
        dom.assume(self.ntasks <= max_tasks)
        if ver in L.CG_VERSIONS:
            dom.assume(self.ncgroups <= max_cgroups)
        for section in self.sections:
            self.intact(section)
        dom.assume(self.sections[0].stream.dlen >= L.root_size(ver, "SStat"))
        ntasks = pick(dom, self.ntasks, max_tasks)
        dom.assume(self.sections[1].stream.dlen >= ntasks * L.root_size(ver, "TStat"))
        ncgroups = 0
        if ver in L.CG_VERSIONS:
            ncgroups = pick(dom, self.ncgroups, max_cgroups)
            self.cgroup_premises(ncgroups)
        return ntasks, ncgroups

    def fixed(self, i):
        """The i-th sample of a long log: complete, contents arbitrary, announced lengths and counts constant."""
        dom, ver = self.dom, self.ver
        ntasks, ncgroups = i % 3, i % 2 if ver in L.CG_VERSIONS else 0
        clen = L.root_size(ver, "CStat") + 8 if ncgroups else 0
        sizes = [L.root_size(ver, "SStat"), ntasks * L.root_size(ver, "TStat"), clen, 4 * ncgroups]
        dom.bind(self.ntasks, ntasks)
        if ver in L.CG_VERSIONS:
            dom.bind(self.ncgroups, ncgroups)
        for name, size in zip(self.length_names(), sizes):
            dom.bind(self.rec.value(name), (20000 if size > 4 else 200) + (i * 7 + len(name)) % 5)
        for section, size in zip(self.sections, sizes):
            dom.assume(section.stream.valid)
            dom.bind(section.stream.zlen, section.length)
            dom.bind(section.stream.dlen, size)
        for view, _, procs in self.cgroups(ncgroups)[0] if ncgroups else ():
            dom.bind(view.value("gen.structlen"), clen)
            dom.bind(procs, 1)
        return ntasks, ncgroups

    def cgroup_premises(self, ncgroups):
        dom = self.dom
        cgroups, pids = self.cgroups(ncgroups)
        csize = L.root_size(self.ver, "CStat")
        csec, isec = self.sections[2], self.sections[3]
        for view, _, procs in cgroups:
            dom.assume(view.value("gen.structlen") >= 0)
            dom.assume(procs >= 0)
            dom.prefer(procs <= 20)
            dom.prefer(And(view.value("gen.structlen") >= csize + 8, view.value("gen.structlen") <= csize + 200))
            dom.assume(csec.length > 0)
            dom.assume(view.off + csize <= csec.stream.dlen)
        if isec.length == 0:
            dom.assume(pids == 0)
        else:
            dom.assume(pids * 4 <= isec.stream.dlen)

    # judgement
    def compare(self, got, ntasks, ncgroups, label="sample", light=False):
        """got = (record, sstat, tasks, cgroups) as the package yields them."""
        dom = self.dom
        if not isinstance(got, tuple) or len(got) != 4:
            dom.expect(False, label, "not a tuple of four")
            return
        record, sstat, tasks, cgroups = got
        compare.struct(dom, record, self.rec, label + ".record")
        self.compare_sstat(sstat, label + ".sstat", light)
        self.compare_tasks(tasks, ntasks, label + ".tstat")
        self.compare_cgroups(cgroups, ncgroups, label + ".cgroup")

    def compare_sstat(self, sstat, label, light=False):
        compare.struct(self.dom, sstat, self.sstat(), label)

    def compare_tasks(self, tasks, ntasks, label, tlen=None):
        dom = self.dom
        size = dom.call(dom.length, tasks)
        if not size.ok:
            dom.expect(False, label, "no length")
            return
        dom.expect(size.value == ntasks, label, "number of tasks (%s)" % (size.value,))
        dom.flush()
        for i in range(min(ntasks, size.value)):
            compare.struct(dom, tasks[i], self.task(i, tlen), "%s[%d]" % (label, i))

    def compare_cgroups(self, cgroups, ncgroups, label):
        dom = self.dom
        size = dom.call(dom.length, cgroups)
        if not size.ok:
            dom.expect(False, label, "no length")
            return
        dom.expect(size.value == ncgroups, label, "number of cgroups (%s)" % (size.value,))
        dom.flush()
        if not ncgroups:
            return
        spec, _ = self.cgroups(ncgroups)
        for i, (view, off, procs) in enumerate(spec[:size.value]):
            compare.struct(dom, cgroups[i].cstat, view, "%s[%d].cstat" % (label, i))
            compare.prims(dom, cgroups[i].proclist, self.sections[3].stream.data, off, procs, 4,
                          "%s[%d].proclist" % (label, i))


def pick(dom, value, limit):
    """A native int for a value already assumed to be in 0..limit (one path per value)."""
    if type(value) is int:
        return value
    for i in range(limit):
        if value == i:
            return i
    return limit


def drain(dom, gen, limit, fh=None):
    """Iterate: list of (yielded value, file position), and the outcome that ended the iteration."""
    out = []
    it = dom.call(iter, gen)
    if not it.ok:
        return out, it
    for _ in range(limit):
        step = dom.call(next, it.value)
        if not step.ok:
            return out, step
        out.append((step.value, fh.tell() if fh is not None else None))
    return out, None
