"""Harnesses C16-C18: the command, and independence of decoded logs."""
import re

from . import compare, layout as L, logs
from .compare import View
from .domain import And, Not, Or
from .logs import HEADER_SIZE, Sample, drain, pick
from .props2 import CORES, DEVICES, SYSTEM, TASKS, convert, entry, plain_cgroup, set_counters
from .props2 import _element as element

# The parseables the command offers.
OFFERED = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRG", "PRM", "PRN", "SWP"]


class Log:
    """A specified log: header, complete samples, and how it ends."""

    def __init__(self, dom, name, ver, count, ending="exact", version=None, tasks=1, counter=1, fixed=False,
                 long=False):
        self.dom, self.ver = dom, ver
        long = long or count > 5
        self.file = file = dom.file(name)
        self.version = version or ver
        self.header = logs.bind_header(dom, ver, file.view, version=version is None)
        if version is not None:
            major, minor = L.numbers(version)
            dom.bind(self.header.value("aversion"), 0x8000 | major << 8 | minor)
        self.samples = []
        pos = HEADER_SIZE
        for i in range(count):
            smp = Sample(dom, ver, file, pos)
            if long:
                self.samples.append((smp,) + smp.fixed(i))
                set_counters(dom, ver, smp.sstat(), counter)
                pos = smp.end
                continue
            limit = tasks if i == 0 else 0
            if fixed:
                dom.bind(smp.ntasks, limit)
                if ver in L.CG_VERSIONS:
                    dom.bind(smp.ncgroups, limit)
            ntasks, ncgroups = smp.complete(limit, limit, empty_sections=False)
            set_counters(dom, ver, smp.sstat(), counter)
            for view, _, procs in smp.cgroups(ncgroups)[0] if ncgroups else ():
                dom.assume(procs <= 1)
                if fixed:
                    dom.bind(procs, 1)
            self.samples.append((smp, ntasks, ncgroups))
            pos = smp.end
        self.end = pos
        if ending == "exact":
            dom.assume(file.size == pos)
        else:
            self.broken(Sample(dom, ver, file, pos), ending)
        dom.prefer(file.size <= 2000000)

    def broken(self, smp, ending):
        """After the complete samples: a sample cut at any byte, or with a damaged section."""
        dom, file, ver = self.dom, self.file, self.ver
        if ending == "short":
            # Intact, but with fewer tasks than announced.
            dom.bind(smp.ntasks, 2)
            for name, section in zip(smp.length_names(), smp.sections):
                dom.bind(smp.rec.value(name), 20000)
                dom.assume(section.stream.valid)
                dom.bind(section.stream.zlen, 20000)
            dom.bind(smp.sections[0].stream.dlen, L.root_size(ver, "SStat"))
            dom.bind(smp.sections[1].stream.dlen, L.root_size(ver, "TStat"))
            dom.assume(file.size == smp.end)
            return
        recsize = L.root_size(ver, "Record")
        dom.assume(file.size > smp.pos)
        if file.size < smp.pos + recsize:
            dom.assume(ending == "cut")
            at, item = L.find(ver, L.root(ver, "Record"), "scomplen")
            if file.size >= smp.pos + at + item["size"]:
                dom.assume(smp.rec.value("scomplen") >= 8)
            return
        for name in smp.length_names():
            dom.assume(smp.rec.value(name) >= 8)
        dom.assume(smp.ntasks == 0)
        if ver in L.CG_VERSIONS:
            dom.assume(smp.ncgroups == 0)
        sizes = [L.root_size(ver, "SStat"), 0, 0, 0]
        for section, need in zip(smp.sections, sizes):
            if ending == "cut":
                if section.end > file.size:
                    dom.assume(section.stream.valid if dom.symbolic else True)
                    dom.assume(section.stream.zlen >= section.length)
                    return
            elif dom.bool("damaged:" + section.name):
                dom.assume(section.end <= file.size)
                dom.assume(Not(section.stream.valid))
                return
            smp.intact(section)
            dom.assume(section.stream.dlen >= need)
        dom.assume(False)

    # what the command must print
    def plain(self, doc, tasks, cgroups, label):
        """Without parseables: one object per sample."""
        dom = self.dom
        if not self.listed(doc, len(self.samples), label):
            return
        for i, ((smp, ntasks, ncgroups), got) in enumerate(zip(self.samples, doc)):
            name = "%s[%d]" % (label, i)
            want = {"header", "record", "sstat"} | ({"tstat"} if tasks else set()) | ({"cgroup"} if cgroups else set())
            if type(got) is not dict or set(got) != want:
                dom.expect(False, name, "keys: %s" % (sorted(map(str, got)) if type(got) is dict else type(got)))
                dom.flush()
                return
            compare.plain(dom, got["header"], self.header, name + ".header")
            compare.plain(dom, got["record"], smp.rec, name + ".record")
            compare.plain(dom, got["sstat"], smp.sstat(), name + ".sstat")
            if tasks and self.listed(got["tstat"], ntasks, name + ".tstat"):
                for j, task in enumerate(got["tstat"]):
                    compare.plain(dom, task, smp.task(j), "%s.tstat[%d]" % (name, j))
            if cgroups and self.listed(got["cgroup"], ncgroups, name + ".cgroup") and ncgroups:
                for j, (view, off, procs) in enumerate(smp.cgroups(ncgroups)[0]):
                    plain_cgroup(dom, got["cgroup"][j], view, smp.sections[3].stream.data, off, pick(dom, procs, 1),
                                 "%s.cgroup[%d]" % (name, j))
            dom.flush()

    def listed(self, obj, count, label):
        dom = self.dom
        if type(obj) is not list:
            dom.expect(False, label, "not a list: %s" % type(obj).__name__)
            dom.flush()
            return False
        dom.expect(len(obj) == count, label, "%d entries instead of %d" % (len(obj), count))
        dom.flush()
        return len(obj) == count

    def devices(self, requested, limit=1, fixed=False):
        """Bound the number of devices of the requested parseables; must precede the run."""
        self.counts = []
        for smp, _, _ in self.samples:
            table = {}
            for name in sorted(set(requested) & set(DEVICES)):
                path = DEVICES[name][0]
                _, item = L.find(self.ver, L.root(self.ver, "SStat"), path)
                noff, _ = L.find(self.ver, item["struct"], "name")
                views = {"s": smp.sstat()}
                count = 0
                while True:
                    view = element(_Views(views), path, count)
                    first = view.data.int(view.off + noff, 1, False)
                    if count == limit:
                        self.dom.assume(first == 0)
                        break
                    if fixed:
                        self.dom.assume(first != 0)
                    elif first == 0:
                        break
                    count += 1
                table[name] = count
            self.counts.append(table)

    def parsed(self, doc, requested, label):
        """With parseables: the entries of each requested one per sample, in request order."""
        dom = self.dom
        if self.version != "1.26":
            self.refused(doc, label)
            return
        want = []
        for i, ((smp, ntasks, _), counts) in enumerate(zip(self.samples, self.counts)):
            views = {"h": self.header, "r": smp.rec, "s": smp.sstat()}
            for name in requested:
                if name in SYSTEM:
                    want.append((name, SYSTEM[name], views, None))
                elif name in CORES:
                    path, rules = CORES[name]
                    for j in range(1):
                        want.append((name, rules, dict(views, e=element(_Views(views), path, j)), j))
                elif name in DEVICES:
                    path, rules = DEVICES[name]
                    for j in range(counts[name]):
                        want.append((name, rules, dict(views, e=element(_Views(views), path, j)), j))
                else:
                    for j in range(ntasks):
                        want.append((name, TASKS[name], dict(views, t=smp.task(j)), j))
        if not self.listed(doc, len(want), label):
            return
        for i, (got, (name, rules, views, index)) in enumerate(zip(doc, want)):
            where = "%s[%d].%s" % (label, i, name)
            if type(got) is not dict or got.get("parseable") != name:
                dom.expect(False, where, "not labelled with its parseable")
                dom.flush()
                return
            entry(dom, got, rules, views, where, index, extra=("parseable",))
        dom.flush()

    def refused(self, doc, label):
        dom = self.dom
        if not self.listed(doc, 1, label):
            return
        got = doc[0]
        texts = [str(v) for v in got.values()] if type(got) is dict else []
        dom.expect(type(got) is dict and "error" in got, label, "not an error entry")
        dom.expect(any(self.version in t for t in texts), label, "version not named")
        dom.expect(any(self.name in t for t in texts), label, "file not named")
        dom.flush()


class _Views:
    def __init__(self, views):
        self.views = views


def command(dom, argv, files, label="command"):
    """Run the command: documents and text; it must complete."""
    out, docs, txt = dom.run_main(argv, files)
    dom.expect(out.status == 0, label, out.describe() if not out.ok else "%r" % (out.value,))
    dom.expect(docs is not None, label, "output is not a sequence of JSON documents")
    dom.flush()
    return docs, txt


def layout_text(dom, txt, docs, pretty):
    """One line per document, or an indented one."""
    lines = txt.splitlines()
    if not pretty:
        dom.expect(len(lines) == len(docs), "compact", "%d lines for %d documents" % (len(lines), len(docs)))
        return
    if any(docs):
        dom.expect(len(lines) > len(docs), "pretty", "%d lines for %d documents" % (len(lines), len(docs)))
        deep = [line for line in lines if line[:1] in (" ", "\t")]
        dom.expect(bool(deep), "pretty", "no indentation")


# --------------------------------------------------------------------------- C16

NAMES = [("atop.log", False), ("atop.log.gz", True), ("logs/atop_20240101", False), ("logs/x.gz.1", True)]


def c16_full(dom, ver, count, ending, name, tasks, cgroups, pretty=False, version=None):
    """Without parseables."""
    log = Log(dom, "F", ver, count, ending, version)
    dom.settle()
    name, compressed = NAMES[name]
    argv = [name] + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else []) + \
        (["--pretty-print"] if pretty else [])
    docs, txt = command(dom, argv, {name: (log.file, compressed)})
    dom.expect(len(docs) == 1, "documents", "%d" % len(docs))
    dom.flush()
    log.plain(docs[0], tasks, cgroups, "doc")
    layout_text(dom, txt, docs, pretty)
    dom.witness("%d samples, %s" % (count, ending))


def c16_parse(dom, count, ending, name, requested, pretty=False):
    """1.26 with parseables."""
    log = Log(dom, "F", "1.26", count, ending)
    log.devices(requested)
    dom.settle()
    name, compressed = NAMES[name]
    argv = [name, "-P"] + list(requested) + (["--pretty-print"] if pretty else [])
    docs, txt = command(dom, argv, {name: (log.file, compressed)})
    dom.expect(len(docs) == 1, "documents", "%d" % len(docs))
    dom.flush()
    log.parsed(docs[0], requested, "doc")
    layout_text(dom, txt, docs, pretty)
    dom.witness("%d samples, %s" % (count, ending))


def c16_long(dom, ver, count, name, requested, tasks=False, cgroups=False):
    """Many samples, with constant lengths and counts."""
    log = Log(dom, "F", ver, count, long=True)
    log.devices(requested, fixed=True)
    dom.settle()
    name, compressed = NAMES[name]
    argv = [name] + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else []) + \
        (["-P"] + list(requested) if requested else [])
    docs, txt = command(dom, argv, {name: (log.file, compressed)})
    dom.expect(len(docs) == 1, "documents", "%d" % len(docs))
    dom.flush()
    if requested:
        log.parsed(docs[0], requested, "doc")
    else:
        log.plain(docs[0], tasks, cgroups, "doc")
    dom.witness("%d samples" % count)


def c16_refused(dom, ver, name, requested, version=None):
    """Parseables on a log of another version: a single error entry, whatever the log holds."""
    log = Log(dom, "F", ver, 1, "exact", version)
    dom.settle()
    log.name, compressed = NAMES[name]
    docs, txt = command(dom, [log.name, "-P"] + list(requested), {log.name: (log.file, compressed)})
    dom.expect(len(docs) == 1, "documents", "%d" % len(docs))
    dom.flush()
    log.parsed(docs[0], requested, "doc")
    dom.witness("refused")


def squeeze(txt):
    """The text without white space outside of JSON strings."""
    return re.sub(r'("(?:[^"\\]|\\.)*")|\s+', lambda m: m.group(1) or "", txt)


def c16_pretty(dom, ver, count, requested, tasks, cgroups, fixed=True):
    """The same log printed both ways: the texts differ in white space only."""
    log = Log(dom, "F", ver, count, fixed=fixed)
    if requested and ver == "1.26":
        log.devices(requested, fixed=fixed)
    dom.settle()
    argv = ["a.log"] + (["-P"] + list(requested) if requested else []) + (["--tstats"] if tasks else []) + \
        (["--cstats"] if cgroups else [])
    # -p ends the list of parseables in the first position as well as in the last.
    docs, txt = command(dom, argv, {"a.log": (log.file, False)})
    docs2, txt2 = command(dom, argv + ["-p"], {"a.log": (log.file, False)})
    layout_text(dom, txt, docs, False)
    layout_text(dom, txt2, docs2, True)
    dom.expect(squeeze(txt) == squeeze(txt2), "pretty", "the documents differ in more than white space")
    dom.witness("printed both ways")


# --------------------------------------------------------------------------- C17


def spelling(dom, name, choices):
    return choices[dom.choose(name, len(choices))]


def c17_options(dom, versions, requested, place, spell=False):
    """Every combination of options (symbolic choices) over one or more files, in one order of arguments."""
    shelf, files = [], {}
    for i, ver in enumerate(versions):
        log = Log(dom, "F%d" % i, ver, 1, fixed=True)
        log.name = "log%d%s" % (i, ".gz" if i % 2 else "")
        if requested and ver == "1.26":
            log.devices(requested, 1, fixed=True)
        files[log.name] = (log.file, i % 2 == 1)
        shelf.append(log)
    order = shelf
    if len(shelf) > 1 and not spell and dom.bool("reversed"):
        order = shelf[::-1]
    if len(shelf) > 1 and not spell and dom.bool("repeated"):
        order = order + [order[0]]
    dom.settle()
    pretty = dom.bool("pretty")
    tasks = dom.bool("tstats")
    cgroups = dom.bool("cstats")
    forms = ["-p", "--pretty-print", "--pretty"]
    pretty_opt = forms[0] if not spell else spelling(dom, "pretty spelling", forms) if pretty else None
    opts = ([pretty_opt] if pretty else []) + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else [])
    if opts and dom.bool("reversed options"):
        opts = opts[::-1]
    names = [log.name for log in order]
    parse = []
    if requested:
        forms = ["-P", "--parseables"]
        parse = [spelling(dom, "parseables spelling", forms) if spell else forms[0]] + list(requested)
    if place == "after":
        argv = names + opts + parse
    elif place == "before":
        # The list of parseables must be ended by another option.
        argv = parse + opts + names if opts or not parse else names + parse
    else:
        argv = opts[:1] + names + parse + opts[1:]
    docs, txt = command(dom, argv, files)
    dom.expect(len(docs) == len(order), "documents", "%d documents for %d files" % (len(docs), len(order)))
    dom.flush()
    for i, (log, doc) in enumerate(zip(order, docs)):
        if requested:
            log.parsed(doc, requested, "doc%d" % i)
        else:
            log.plain(doc, tasks, cgroups, "doc%d" % i)
    layout_text(dom, txt, docs, pretty)
    dom.witness("options " + ("with" if requested else "without") + " parseables")


# --------------------------------------------------------------------------- C18


def opened(dom, log):
    pkg = dom.package()
    fh = dom.open(log.file)
    hdr = dom.call(pkg.get_header, fh)
    dom.expect(hdr.ok, "header", hdr.describe())
    dom.flush()
    gen = dom.call(lambda: iter(pkg.generate_statistics(fh, hdr.value)))
    dom.expect(gen.ok, "iteration", gen.describe())
    dom.flush()
    return hdr.value, gen.value


def judge(dom, log, hdr, got, label):
    compare.struct(dom, hdr, log.header, label + ".header")
    version = dom.call(getattr, hdr, "semantic_version")
    dom.expect(version.ok and version.value == log.version, label + ".semantic_version", version.describe())
    for i, ((smp, ntasks, ncgroups), item) in enumerate(zip(log.samples, got)):
        smp.compare(item, ntasks, ncgroups, "%s[%d]" % (label, i))
    dom.flush()


def converted(dom, log, hdr, item, label):
    smp = log.samples[0][0]
    out = [convert(dom, hdr), convert(dom, item[0])]
    compare.plain(dom, out[0], log.header, label + ".header")
    compare.plain(dom, out[1], smp.rec, label + ".record")
    if log.samples[0][1]:
        out.append(convert(dom, item[2][0]))
        compare.plain(dom, out[-1], smp.task(0), label + ".tstat")
    dom.flush()
    return out


def step(dom, gen, label):
    out = dom.call(next, gen)
    dom.expect(out.ok, label, out.describe())
    dom.flush()
    return out.value


def c18_interleaved(dom, first, second, version=None):
    """Two logs read in turns; everything returned keeps its values; reading again gives the same."""
    one = Log(dom, "A", first, 2)
    two = Log(dom, "B", second, 2, version=version)
    dom.settle()
    hdr1, gen1 = opened(dom, one)
    got1 = [step(dom, gen1, "A[0]")]
    before = converted(dom, one, hdr1, got1[0], "A.before")
    hdr2, gen2 = opened(dom, two)
    got2 = [step(dom, gen2, "B[0]")]
    got1.append(step(dom, gen1, "A[1]"))
    got2.append(step(dom, gen2, "B[1]"))
    for gen in (gen1, gen2):
        end = dom.call(next, gen)
        dom.expect(end.raised(StopIteration), "end", end.describe())
    dom.flush()
    judge(dom, one, hdr1, got1, "A")
    judge(dom, two, hdr2, got2, "B")
    # Changing a converted dictionary changes neither the structure nor later conversions.
    for part in before:
        for key in list(part):
            if type(part[key]) is dict:
                part[key].clear()
        part.clear()
    converted(dom, one, hdr1, got1[0], "A.after")
    converted(dom, two, hdr2, got2[0], "B.after")
    # Reading the first log again, after everything else.
    hdr3, gen3 = opened(dom, one)
    got3 = [step(dom, gen3, "A.again[0]"), step(dom, gen3, "A.again[1]")]
    judge(dom, one, hdr3, got3, "A.again")
    judge(dom, one, hdr1, got1, "A.kept")
    dom.witness("interleaved")


def c18_lengths(dom, ver):
    """Between two readings of a log, one of the same version with other structure lengths is read unchecked."""
    one = Log(dom, "A", ver, 1, fixed=True)
    file = dom.file("B")
    spec = logs.bind_header(dom, ver, file.view, lengths=False)
    tlen = spec.value(L.tlen_field(ver))
    dom.assume(tlen >= L.root_size(ver, "TStat"))
    dom.prefer(And(tlen > L.root_size(ver, "TStat"), tlen <= L.root_size(ver, "TStat") + 100))
    if ver in L.CG_VERSIONS:
        dom.assume(spec.value("cstatlen") >= L.root_size(ver, "CStat"))
    smp = Sample(dom, ver, file, HEADER_SIZE)
    dom.bind(smp.ntasks, 2)
    ntasks, ncgroups = smp.complete(2, 1, empty_sections=False)
    dom.assume(smp.sections[1].stream.dlen >= 2 * tlen)
    dom.assume(file.size == smp.end)
    dom.prefer(file.size <= 2000000)
    dom.settle()
    pkg = dom.package()
    for turn in range(2):
        hdr1, gen1 = opened(dom, one)
        got1 = [step(dom, gen1, "A[0]")]
        judge(dom, one, hdr1, got1, "A")
        fh = dom.open(file)
        out = dom.call(pkg.get_header, fh, check_compatibility=False)
        dom.expect(out.ok, "B.header", out.describe())
        dom.flush()
        gen2 = iter(pkg.generate_statistics(fh, out.value))
        record, sstat, tasks, cgroups = step(dom, gen2, "B[0]")
        compare.struct(dom, out.value, spec, "B.header")
        compare.struct(dom, record, smp.rec, "B.record")
        smp.compare_sstat(sstat, "B.sstat")
        smp.compare_tasks(tasks, ntasks, "B.tstat", tlen)
        smp.compare_cgroups(cgroups, ncgroups, "B.cgroup")
        dom.flush()
    judge(dom, one, hdr1, got1, "A.kept")
    dom.witness("other lengths")


class Switching:
    """A file whose reads let another reader run, as the reads of a thread do."""

    def __init__(self, fh, turns, other):
        self._fh, self._turns, self._other = fh, turns, other
        self._reads = 0

    def _switch(self, result):
        self._reads += 1
        if self._reads in self._turns:
            self._other()
        return result

    def read(self, size=-1):
        return self._switch(self._fh.read(size))

    def readinto(self, buf):
        return self._switch(self._fh.readinto(buf))

    def tell(self):
        return self._fh.tell()

    def seek(self, *args):
        return self._fh.seek(*args)

    def readable(self):
        return True

    seekable = readable

    @property
    def closed(self):
        return self._fh.closed


def c18_switched(dom, first, second, stepwise):
    """While a read of log A is in progress, log B is read: all of it, or its header and then its sample."""
    pkg = dom.package()
    one = Log(dom, "A", first, 1, fixed=True, tasks=1 if stepwise else 2)
    two = Log(dom, "B", second, 1, fixed=True, tasks=2 if stepwise else 1)
    dom.settle()
    raw2 = dom.open(two.file)
    headers, gens, got2 = [], [], []

    def other():
        if not headers:
            out = dom.call(pkg.get_header, raw2)
            dom.expect(out.ok, "B.header", out.describe())
            dom.flush()
            headers.append(out.value)
            if stepwise:
                return
        gens.append(iter(pkg.generate_statistics(raw2, headers[0])))
        got2.append(step(dom, gens[0], "B[0]"))

    at = dom.choose("at", 8 if first in L.CG_VERSIONS else 6) + 1
    raw1 = Switching(dom.open(one.file), (at, at + 1) if stepwise else (at,), other)
    hdr = dom.call(pkg.get_header, raw1)
    dom.expect(hdr.ok, "A.header", hdr.describe())
    dom.flush()
    gen = dom.call(lambda: iter(pkg.generate_statistics(raw1, hdr.value)))
    dom.expect(gen.ok, "A.iteration", gen.describe())
    dom.flush()
    got1 = [step(dom, gen.value, "A[0]")]
    end = dom.call(next, gen.value)
    dom.expect(end.raised(StopIteration), "A.end", end.describe())
    judge(dom, one, hdr.value, got1, "A")
    if got2:
        judge(dom, two, headers[0], got2, "B")
        end = dom.call(next, gens[0])
        dom.expect(end.raised(StopIteration), "B.end", end.describe())
        dom.witness("switched")


def c18_long(dom, first, second, count):
    """Two long logs read in turns, everything kept to the end."""
    one, two = Log(dom, "A", first, count), Log(dom, "B", second, count)
    dom.settle()
    hdr1, gen1 = opened(dom, one)
    hdr2, gen2 = opened(dom, two)
    got1, got2 = [], []
    for i in range(count):
        got1.append(step(dom, gen1, "A[%d]" % i))
        got2.append(step(dom, gen2, "B[%d]" % i))
    judge(dom, one, hdr1, got1, "A")
    judge(dom, two, hdr2, got2, "B")
    dom.witness("kept")


def c18_headers(dom, versions):
    """Many headers read in a row, each kept."""
    pkg = dom.package()
    kept = []
    for i, ver in enumerate(versions):
        kept.append((ver,) + logs.header(dom, ver, "H%d" % i))
    for i, (ver, hdr, spec) in enumerate(kept):
        compare.struct(dom, hdr, spec, "header%d" % i)
        version = dom.call(getattr, hdr, "semantic_version")
        dom.expect(version.ok and version.value == ver, "semantic_version", ver)
        for kind in ("Record", "TStat"):
            view, data = dom.memory(L.root_size(ver, kind), "%s%d" % (kind, i))
            obj = dom.call(lambda: getattr(hdr, kind).from_buffer_copy(data))
            dom.expect(obj.ok, kind, obj.describe())
            dom.flush()
            compare.struct(dom, obj.value, View.root(ver, kind, view), "%s%d" % (kind, i))
    dom.witness("headers kept")


def c18_rejected(dom, ver, other):
    """A file that is not a log, and one whose iteration was abandoned or failed, leave no trace."""
    one = Log(dom, "A", ver, 1)
    bad = dom.file("X")
    two = Log(dom, "B", other, 0, "damage")
    magic = View.root(L.NEWEST, "Header", bad.view).value("magic")
    dom.assume(Or(bad.size < HEADER_SIZE, magic != L.MAGIC))
    dom.prefer(bad.size <= 5000)
    dom.settle()
    pkg = dom.package()
    hdr1, gen1 = opened(dom, one)
    out = dom.call(pkg.get_header, dom.open(bad))
    dom.expect(out.raised(ValueError), "rejected", out.describe())
    hdr2, gen2 = opened(dom, two)
    out = dom.call(next, gen2)
    dom.expect(out.raised(dom.zlib_error), "damaged", out.describe())
    dom.flush()
    got1 = [step(dom, gen1, "A[0]")]
    judge(dom, one, hdr1, got1, "A")
    compare.struct(dom, hdr2, two.header, "B.header")
    dom.witness("unaffected")


def c18_tolerated(dom, ver, other):
    """Any file that starts with the magic number, read with or without the compatibility check, leaves no trace."""
    one = Log(dom, "A", ver, 1)
    bad = dom.file("X")
    spec = View.root(other, "Header", bad.view)
    dom.assume(bad.size >= HEADER_SIZE)
    dom.prefer(bad.size <= 5000)
    dom.bind(spec.value("magic"), L.MAGIC)
    major, minor = L.numbers(other)
    dom.assume(Or(spec.value("aversion") == (0x8000 | major << 8 | minor),
                  spec.value("aversion") == (major << 8 | minor)))
    dom.settle()
    pkg = dom.package()
    hdr1, gen1 = opened(dom, one)
    check = dom.choose("compatibility check", 2)
    out = dom.call(pkg.get_header, dom.open(bad), bool(check))
    if out.ok:
        odd = out.value
        compare.struct(dom, odd, spec, "X")
    else:
        dom.expect(check == 1 and out.raised(ValueError), "rejected", out.describe())
    dom.flush()
    got1 = [step(dom, gen1, "A[0]")]
    judge(dom, one, hdr1, got1, "A")
    # Headers and records of every layout still select their own structures.
    again = [(v,) + logs.header(dom, v, "again:" + v) for v in dict.fromkeys((ver, other, L.NEWEST))]
    for v, hdr, want in again:
        compare.struct(dom, hdr, want, "again")
        view, data = dom.memory(L.root_size(v, "Record"), "record:" + v)
        obj = dom.call(lambda: hdr.Record.from_buffer_copy(data))
        dom.expect(obj.ok, "Record", obj.describe())
        dom.flush()
        compare.struct(dom, obj.value, View.root(v, "Record", view), "again.record")
    if out.ok:
        compare.struct(dom, odd, spec, "X.kept")
    hdr2, gen2 = opened(dom, one)
    got2 = [step(dom, gen2, "A.again[0]")]
    judge(dom, one, hdr2, got2, "A.again")
    dom.witness("tolerated")
