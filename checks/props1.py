"""Harnesses C01-C09: decoding and framing."""
import errno

from . import compare, layout as L, logs
from .compare import View
from .domain import And, Implies, Not, Or
from .logs import HEADER_SIZE, Sample, drain, pick


# --------------------------------------------------------------------------- C01, C02


def c01_header(dom, ver, check):
    """All header bytes symbolic except magic, version and (if compatibility is checked) the lengths."""
    file = dom.file("H")
    dom.assume(file.size >= HEADER_SIZE)
    dom.prefer(file.size <= 5000)
    spec = View.root(ver, "Header", file.view)
    dom.bind(spec.value("magic"), L.MAGIC)
    major, minor = L.numbers(ver)
    word = spec.value("aversion")
    # The version word is 0x8000 | major << 8 | minor in Atop's logs; the top bit is left open.
    dom.assume(Or(word == (major << 8 | minor), word == (0x8000 | major << 8 | minor)))
    if check:
        for name, size in L.lengths(ver).items():
            dom.assume(spec.value(name) == size)
    fh = dom.open(file)
    pkg = dom.package()
    out = dom.call(pkg.get_header, fh) if check else dom.call(pkg.get_header, fh, check_compatibility=False)
    dom.expect(out.ok, "accepted", out.describe())
    dom.flush()
    if not out.ok:
        return
    compare.struct(dom, out.value, spec, "header")
    dom.same(fh.tell(), HEADER_SIZE, "consumed")
    version = dom.call(getattr, out.value, "semantic_version")
    dom.expect(version.ok, "semantic_version", version.describe())
    if version.ok:
        dom.expect(version.value == "%d.%d" % (major, minor), "semantic_version")
    for name, num in (("major_version", major), ("minor_version", minor)):
        val = dom.call(getattr, out.value, name)
        if val.ok:
            dom.same(val.value, num, name)
    # Asking again changes nothing.
    again = dom.call(getattr, out.value, "semantic_version")
    dom.expect(again.ok and again.value == "%d.%d" % (major, minor), "semantic_version.again")
    compare.struct(dom, out.value, spec, "header.again")
    dom.witness("header compared")


def c02_accept(dom, check):
    """Every byte and the size of the file symbolic: acceptance is exactly the specified predicate."""
    file = dom.file("H")
    dom.prefer(file.size <= 5000)
    judge_header(dom, dom.package(), file, check)


def c02_again(dom, ver, earlier):
    """As above, after a header of the version was read: accepted, refused for its lengths, or read unchecked."""
    before = dom.file("B", HEADER_SIZE)
    spec = logs.bind_header(dom, ver, before.view, lengths=earlier == "accepted")
    if earlier != "accepted":
        dom.assume(Or(*[spec.value(name) != size for name, size in L.lengths(ver).items()]))
    pkg = dom.package()
    out = dom.call(pkg.get_header, dom.open(before), **({"check_compatibility": False} if earlier == "unchecked" else {}))
    dom.expect(out.raised(ValueError) if earlier == "refused" else out.ok, "earlier header", out.describe())
    dom.flush()
    judge_header(dom, pkg, dom.file("H"), None)


def judge_header(dom, pkg, file, check):
    fh = dom.open(file)
    if check is None:
        out = dom.call(pkg.get_header, fh)
    else:
        out = dom.call(pkg.get_header, fh, check_compatibility=check)
    complete = file.size >= HEADER_SIZE
    if not complete:
        judge_rejected(dom, out, "incomplete header")
        return
    newest = View.root(L.NEWEST, "Header", file.view)
    if newest.value("magic") != L.MAGIC:
        judge_rejected(dom, out, "wrong magic")
        return
    word = newest.value("aversion")
    low, high = file.int(4, 1, False), file.int(5, 1, False)
    layout = L.NEWEST
    for ver in L.VERSIONS:
        major, minor = L.numbers(ver)
        if And(low == minor, Or(high == major, high == major + 128)):
            layout = ver
            break
    spec = View.root(layout, "Header", file.view)
    good = And(*[spec.value(name) == size for name, size in L.lengths(layout).items()])
    if check is not False and not good:
        judge_rejected(dom, out, "incompatible lengths")
        return
    dom.expect(out.ok, "accepted", "a genuine compatible header: " + out.describe())
    dom.flush()
    if out.ok:
        dom.expect(word == word, "word")
        compare.struct(dom, out.value, spec, "header")
        layout_of(dom, out.value, layout)
        dom.witness("accepted " + ("own" if layout != L.NEWEST else "newest"))


def judge_rejected(dom, out, why):
    dom.expect(out.raised(ValueError), "rejected", "%s: %s" % (why, out.describe()))
    dom.flush()
    dom.witness("rejected: " + why)


def layout_of(dom, hdr, ver):
    """The header selects the structures of its version."""
    for kind in ("Record", "SStat", "TStat") + (("CStat",) if ver in L.CG_VERSIONS else ()):
        cls = dom.call(getattr, hdr, kind)
        dom.expect(cls.ok and isinstance(cls.value, type), "layout", kind)
        if cls.ok and isinstance(cls.value, type):
            view, data = dom.memory(L.root_size(ver, kind), "layout:" + kind)
            obj = dom.call(cls.value.from_buffer_copy, data)
            dom.expect(obj.ok, "layout", "%s: %s" % (kind, obj.describe()))
            if obj.ok and kind != "SStat":
                compare.struct(dom, obj.value, View.root(ver, kind, view), "layout." + kind)
    if ver not in L.CG_VERSIONS:
        cls = dom.call(getattr, hdr, "CStat", None)
        dom.expect(cls.ok and not cls.value, "layout", "CStat")


def c02_unknown(dom):
    """A log of any version without a layout of its own is read with the newest layout."""
    file = dom.file("F")
    spec = View.root(L.NEWEST, "Header", file.view)
    dom.bind(spec.value("magic"), L.MAGIC)
    for name, size in L.lengths(L.NEWEST).items():
        dom.bind(spec.value(name), size)
    low, high = file.int(4, 1, False), file.int(5, 1, False)
    for ver in L.VERSIONS:
        major, minor = L.numbers(ver)
        dom.assume(Not(And(low == minor, Or(high == major, high == major + 128))))
    smp = Sample(dom, L.NEWEST, file, HEADER_SIZE)
    dom.assume(file.size >= smp.body)
    ntasks, ncgroups = smp.complete(1, 1)
    dom.assume(file.size == smp.end)
    dom.settle()
    pkg = dom.package()
    fh = dom.open(file)
    out = dom.call(pkg.get_header, fh)
    dom.expect(out.ok, "accepted", "compatible log of an unlisted version: " + out.describe())
    dom.flush()
    if not out.ok:
        return
    compare.struct(dom, out.value, spec, "header")
    got, end = drain(dom, pkg.generate_statistics(fh, out.value), 3, fh)
    dom.expect(len(got) == 1 and end is not None and end.raised(StopIteration), "samples",
               "%d samples, then %s" % (len(got), end and end.describe()))
    dom.flush()
    if got:
        smp.compare(got[0][0], ntasks, ncgroups)
        dom.witness("read as newest")


# --------------------------------------------------------------------------- C03


def c03_record(dom, ver):
    """A record at any position of a file of any size."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    size = L.root_size(ver, "Record")
    dom.prefer(file.size <= 20000)
    fh = dom.open(file, pos)
    pkg = dom.package()
    left = file.size - pos
    if left >= size:
        view, at, used = file.view, pos, pos + size
    elif left > 0:
        view, at, used = dom.partial(file.view, pos, left, size), 0, file.size
    else:
        view, at, used = dom.partial(file.view, pos, 0, size), 0, pos
    out = dom.call(pkg.get_record, fh, hdr)
    dom.expect(out.ok, "record", out.describe())
    dom.flush()
    if not out.ok:
        return
    compare.struct(dom, out.value, View.root(ver, "Record", view, at), "record")
    dom.same(fh.tell(), used, "consumed")
    dom.witness("record: " + ("complete" if left >= size else "short"))


# --------------------------------------------------------------------------- C04, C05, C06


def read_record(dom, ver, file, pos, hdr, pkg, fh):
    out = dom.call(pkg.get_record, fh, hdr)
    dom.expect(out.ok, "record", out.describe())
    dom.flush()
    return out.value


def section_outcome(dom, file, section):
    """'ok', 'bad' (must raise zlib.error); anything between is outside the premises."""
    stream, length = section.stream, section.length
    left = file.size - section.start
    if type(stream.dlen) is not int or stream.dlen <= 2000000:
        dom.prefer(length <= 60000)
    got = length
    if left < length:
        got = left if left > 0 else 0
    if Or(Not(stream.valid), stream.zlen > got):
        return "bad"
    dom.assume(And(stream.zlen == length, left >= length))
    return "ok"


def c04_sstat(dom, ver):
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    smp = Sample(dom, ver, file, pos)
    dom.assume(file.size >= smp.body)
    pkg = dom.package()
    fh = dom.open(file, pos)
    record = read_record(dom, ver, file, pos, hdr, pkg, fh)
    section = smp.section(0)
    out = dom.call(pkg.get_sstat, fh, hdr, record)
    verdict = section_outcome(dom, file, section)
    if verdict == "bad":
        dom.settle()
        dom.expect(out.raised(dom.zlib_error), "damaged payload", out.describe())
        dom.witness("damaged")
        return
    if section.stream.dlen < L.root_size(ver, "SStat"):
        dom.settle()
        dom.expect(out.raised(ValueError), "short payload", out.describe())
        dom.witness("short")
        return
    dom.settle()
    dom.expect(out.ok, "sstat", out.describe())
    dom.flush()
    if out.ok:
        smp.compare_sstat(out.value, "sstat")
        dom.same(fh.tell(), section.end, "consumed")
        dom.witness("decoded")


def c05_tasks(dom, ver, mode):
    """mode 'equal': the announced task length is the structure's; 'longer': a longer slice; an int: that many tasks."""
    size = L.root_size(ver, "TStat")
    hfile = dom.file("H", HEADER_SIZE)
    spec = logs.bind_header(dom, ver, hfile.view, lengths=mode != "longer")
    pkg = dom.package()
    if mode == "longer":
        tlen = spec.value(L.tlen_field(ver))
        dom.assume(tlen >= size)
        dom.prefer(tlen <= size + 100)
        out = dom.call(pkg.get_header, dom.open(hfile), check_compatibility=False)
    else:
        tlen = size
        out = dom.call(pkg.get_header, dom.open(hfile))
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    hdr = out.value
    file = dom.file("F")
    pos = dom.int("pos", 0)
    smp = Sample(dom, ver, file, pos)
    if isinstance(mode, int):
        dom.bind(smp.ntasks, mode)
        ntasks = mode
        section = smp.section(1)
        dom.bind(section.stream.dlen, mode * size)
    else:
        dom.assume(smp.ntasks <= 3)
        section = smp.section(1)
    # The record is read where it stands; the task section is read on its own, wherever it starts.
    dom.assume(file.size >= smp.body)
    fh = dom.open(file, pos)
    record = read_record(dom, ver, file, pos, hdr, pkg, fh)
    fh.seek(section.start)
    verdict = section_outcome(dom, file, section)
    if isinstance(mode, int):
        dom.assume(verdict == "ok")
    if verdict == "bad":
        dom.settle()
        out = dom.call(pkg.get_tstat, fh, hdr, record)
        dom.expect(out.raised(dom.zlib_error), "damaged payload", out.describe())
        dom.witness("damaged")
        return
    if not isinstance(mode, int):
        ntasks = pick(dom, smp.ntasks, 3)
        if section.stream.dlen < ntasks * tlen:
            if mode == "longer":
                dom.assume(section.stream.dlen < (ntasks - 1) * tlen + size)
            dom.settle()
            out = dom.call(pkg.get_tstat, fh, hdr, record)
            dom.expect(out.raised(ValueError), "short payload", out.describe())
            dom.witness("short")
            return
    dom.settle()
    out = dom.call(pkg.get_tstat, fh, hdr, record)
    dom.expect(out.ok, "tstat", out.describe())
    dom.flush()
    if not out.ok:
        return
    if isinstance(mode, int) and mode > 2000:
        many_tasks(dom, smp, out.value, ntasks)
    else:
        smp.compare_tasks(out.value, ntasks, "tstat", tlen)
    dom.same(fh.tell(), section.end, "consumed")
    dom.witness("decoded")


def c05_oversized(dom, ver, limit, one_more):
    """Any number of announced tasks, of which the payload holds fewer (up to `limit` whole ones): ValueError."""
    hdr, _ = logs.header(dom, ver)
    size = L.root_size(ver, "TStat")
    file = dom.file("F")
    pos = dom.int("pos", 0)
    smp = Sample(dom, ver, file, pos)
    section = smp.section(1)
    dom.assume(file.size >= smp.body)
    pkg = dom.package()
    fh = dom.open(file, pos)
    record = read_record(dom, ver, file, pos, hdr, pkg, fh)
    fh.seek(section.start)
    smp.intact(section)
    dom.assume(file.size >= section.end)
    whole = dom.choose("whole", limit + 1)
    dom.assume(section.stream.dlen >= whole * size)
    dom.assume(section.stream.dlen < (whole + 1) * size)
    dom.assume(smp.ntasks == whole + 1 if one_more else smp.ntasks > whole + 1)
    dom.prefer(smp.ntasks <= whole + 3)
    dom.settle()
    out = dom.call(pkg.get_tstat, fh, hdr, record)
    dom.expect(out.raised(ValueError), "short payload", out.describe())
    dom.witness("%d whole" % whole)


def many_tasks(dom, smp, tasks, ntasks):
    """First and last leaf of every task; every field of the tasks around powers of two."""
    dom.expect(dom.length(tasks) == ntasks, "tstat", "number of tasks (%s)" % (dom.length(tasks),))
    dom.flush()
    full = {0, 1, ntasks - 1, 255, 256, 32767, 32768, 65535, 65536}
    for i in range(ntasks):
        view = smp.task(i)
        if i in full:
            compare.struct(dom, tasks[i], view, "tstat[%d]" % i)
        else:
            dom.same(tasks[i].gen.pid, view.value("gen.pid"), "tstat[%d].gen.pid" % i)


def c06_cgroups(dom, ver, mode):
    """mode 'sym': up to 3 cgroups with symbolic lengths and process counts; an int: that many, fixed lengths."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    smp = Sample(dom, ver, file, pos)
    csize = L.root_size(ver, "CStat")
    csec, isec = smp.sections[2], smp.sections[3]
    dom.assume(file.size >= smp.body)
    pkg = dom.package()
    fh = dom.open(file, pos)
    if isinstance(mode, int):
        dom.bind(smp.ncgroups, mode)
        dom.bind(csec.stream.dlen, mode * (csize + 16))
        dom.bind(isec.stream.dlen, 4 * sum(i % 3 for i in range(mode)))
        off = 0
        for i in range(mode):
            view = View.root(ver, "CStat", csec.stream.data, off)
            dom.bind(view.value("gen.structlen"), csize + 16)
            dom.bind(view.value("gen.nprocs"), i % 3)
            off += csize + 16
    else:
        dom.assume(smp.ncgroups <= mode_limit(dom, mode))
    record = read_record(dom, ver, file, pos, hdr, pkg, fh)
    fh.seek(csec.start)
    for section in (csec, isec):
        if section.length == 0:
            continue
        verdict = section_outcome(dom, file, section)
        if isinstance(mode, int):
            dom.assume(verdict == "ok")
        if verdict == "bad":
            dom.settle()
            out = dom.call(pkg.get_cstat, fh, hdr, record)
            dom.expect(out.raised(dom.zlib_error), "damaged payload", out.describe())
            dom.witness("damaged")
            return
    ncgroups = pick(dom, smp.ncgroups, mode_limit(dom, mode))
    smp.cgroup_premises(ncgroups)
    dom.settle()
    out = dom.call(pkg.get_cstat, fh, hdr, record)
    dom.expect(out.ok, "cgroup", out.describe())
    dom.flush()
    if not out.ok:
        return
    smp.compare_cgroups(out.value, ncgroups, "cgroup")
    dom.same(fh.tell(), isec.end, "consumed")
    dom.witness("decoded")


def c06_oversized(dom, ver, limit, one_more):
    """Any number of announced cgroups, the payloads ending within one of the first ones: ValueError."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    smp = Sample(dom, ver, file, pos)
    csize = L.root_size(ver, "CStat")
    csec, isec = smp.sections[2], smp.sections[3]
    dom.assume(file.size >= smp.body)
    pkg = dom.package()
    fh = dom.open(file, pos)
    record = read_record(dom, ver, file, pos, hdr, pkg, fh)
    fh.seek(csec.start)
    whole = dom.choose("whole", limit + 1)
    for section in (csec, isec):
        if section.length == 0:
            continue
        smp.intact(section)
    dom.assume(file.size >= isec.end)
    if whole:
        smp.cgroup_premises(whole)
    cgroups, pids = smp.cgroups(whole + 1)
    view, _, procs = cgroups[whole]
    if csec.length == 0 or view.off + csize > csec.stream.dlen:
        label = "entry"
    else:
        label = "ids"
        dom.assume(procs >= 0)
        dom.assume(view.value("gen.structlen") >= 0)
        dom.prefer(procs <= 40)
        dom.assume(pids * 4 > (0 if isec.length == 0 else isec.stream.dlen))
    dom.assume(smp.ncgroups == whole + 1 if one_more else smp.ncgroups > whole + 1)
    dom.prefer(smp.ncgroups <= whole + 3)
    dom.settle()
    out = dom.call(pkg.get_cstat, fh, hdr, record)
    dom.expect(out.raised(ValueError), "short payload", out.describe())
    dom.witness("%s %d" % (label, whole))


def mode_limit(dom, mode):
    return mode if isinstance(mode, int) else {"sym": 3, "sym2": 2, "sym5": 5}[mode]


# --------------------------------------------------------------------------- C07


def c07_framing(dom, ver, count, own_header, max_tasks=1, max_cgroups=1):
    """`count` complete samples from any position, then the end of the file."""
    file = dom.file("F")
    pkg = dom.package()
    if own_header:
        hdr, pos = None, HEADER_SIZE
        logs.bind_header(dom, ver, file.view)
    else:
        hdr, _ = logs.header(dom, ver)
        pos = dom.int("pos", 0)
    start = pos
    samples = []
    for i in range(count):
        smp = Sample(dom, ver, file, pos)
        first = i == 0
        counts = smp.complete(max_tasks if first else 1, max_cgroups if first else 1, empty_sections=first)
        samples.append((smp, counts))
        pos = smp.end
    dom.assume(file.size == pos)
    dom.settle()
    fh = dom.open(file, 0 if own_header else start)
    gen = dom.call(pkg.generate_statistics, fh) if own_header else dom.call(pkg.generate_statistics, fh, hdr)
    dom.expect(gen.ok, "iteration", gen.describe())
    got, end = drain(dom, gen.value, count + 2, fh)
    dom.expect(len(got) == count and end is not None and end.raised(StopIteration), "samples",
               "%d of %d samples, then %s" % (len(got), count, end and end.describe()))
    dom.flush()
    for (smp, (ntasks, ncgroups)), (item, _) in zip(samples, got):
        smp.compare(item, ntasks, ncgroups)
        dom.flush()
    dom.witness("%d samples" % count)


def c07_long(dom, ver, count):
    """A long log: contents arbitrary, the announced lengths and counts fixed and different from sample to sample."""
    file = dom.file("F")
    pkg = dom.package()
    logs.bind_header(dom, ver, file.view)
    pos, samples = HEADER_SIZE, []
    for i in range(count):
        smp = Sample(dom, ver, file, pos)
        ntasks, ncgroups = smp.fixed(i)
        samples.append((smp, ntasks, ncgroups))
        pos = smp.end
    dom.bind(file.size, pos)
    dom.settle()
    fh = dom.open(file)
    gen = dom.call(pkg.generate_statistics, fh)
    dom.expect(gen.ok, "iteration", gen.describe())
    num = 0
    while True:
        step = dom.call(next, gen.value)
        if not step.ok or num == count:
            break
        smp, ntasks, ncgroups = samples[num]
        smp.compare(step.value, ntasks, ncgroups, "sample %d" % num)
        dom.flush()
        num += 1
    dom.expect(num == count and step.raised(StopIteration), "samples",
               "%d of %d samples, then %s" % (num, count, step.describe()))
    dom.witness("%d samples" % count)


def c07_rejected(dom):
    """What is not an acceptable log is not iterated either: no header given, the same error."""
    file = dom.file("F")
    dom.prefer(file.size <= 5000)
    pkg = dom.package()
    ref = dom.call(pkg.get_header, dom.open(file))
    if ref.ok:
        dom.assume(False)
    gen = dom.call(pkg.generate_statistics, dom.open(file))
    dom.expect(gen.ok or gen.raised(type(ref.exc)), "iteration", gen.describe())
    if gen.ok:
        got, end = drain(dom, gen.value, 1)
        dom.expect(not got and end is not None and end.raised(type(ref.exc)), "iteration without a header",
                   "%d samples, %s; reading the header %s" % (len(got), end and end.describe(), ref.describe()))
    dom.witness("not iterated")


def c07_manual(dom, ver):
    """The single-section readers, called in order, frame a sample like the iterator does."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    pkg = dom.package()
    smp = Sample(dom, ver, file, pos)
    ntasks, ncgroups = smp.complete(1, 1)
    dom.assume(file.size >= smp.end)
    dom.settle()
    fh = dom.open(file, pos)
    record = dom.call(pkg.get_record, fh, hdr)
    sstat = dom.call(pkg.get_sstat, fh, hdr, record.value)
    tasks = dom.call(pkg.get_tstat, fh, hdr, record.value)
    cgroups = dom.call(pkg.get_cstat, fh, hdr, record.value) if ver in L.CG_VERSIONS else None
    for out in (record, sstat, tasks) + ((cgroups,) if cgroups else ()):
        dom.expect(out.ok, "section", out.describe())
    dom.flush()
    smp.compare((record.value, sstat.value, tasks.value, cgroups.value if cgroups else []), ntasks, ncgroups)
    dom.same(fh.tell(), smp.end, "consumed")
    dom.witness("sections")


# --------------------------------------------------------------------------- C08


def c08_cut(dom, ver, count, damage, flag, own_header=False, lead=0):
    """`lead` complete samples of constant lengths, up to `count` arbitrary ones, then a cut at any byte or a damaged
    section; flag: raise_on_truncation."""
    file = dom.file("F")
    pkg = dom.package()
    if own_header:
        hdr, pos = None, HEADER_SIZE
        logs.bind_header(dom, ver, file.view)
        dom.assume(file.size >= HEADER_SIZE)
    else:
        hdr, _ = logs.header(dom, ver)
        pos = dom.int("pos", 0)
        dom.assume(file.size >= pos)
    start = pos
    recsize = L.root_size(ver, "Record")
    at, item = L.find(ver, L.root(ver, "Record"), "scomplen")
    samples, finish = [], None
    for k in range(lead):
        smp = Sample(dom, ver, file, pos)
        samples.append((smp,) + smp.fixed(k))
        pos = smp.end
    dom.assume(file.size >= pos)
    for k in range(count + 1):
        left = file.size - pos
        smp = Sample(dom, ver, file, pos)
        if left < recsize:
            if left <= at:
                finish = "quiet"
            elif left < at + item["size"]:
                finish = "either"
            else:
                dom.assume(smp.rec.value("scomplen") >= 8)
                finish = "error"
            break
        if k == count:
            dom.assume(False)
        dom.assume(smp.rec.value("scomplen") >= 8)
        dom.assume(smp.rec.value("pcomplen") >= 8)
        limit = 1 if k == 0 else 0
        dom.assume(smp.ntasks <= limit)
        if ver in L.CG_VERSIONS:
            dom.assume(smp.ncgroups <= limit)
        for section in smp.sections:
            if section.name in ("ccomplen", "icomplen"):
                if k:
                    dom.assume(section.length > 0)
                if section.length == 0:
                    continue
            if section.end > file.size:
                # The part that is there is the beginning of a valid stream.
                dom.assume(section.stream.valid if dom.symbolic else True)
                dom.assume(section.stream.zlen >= section.length)
                finish = "error"
                break
            if damage and dom.bool("damage:%d:%s" % (k, section.name)):
                dom.assume(Not(section.stream.valid))
                finish = "error"
                break
            smp.intact(section)
            dom.prefer(section.length <= 60000)
        else:
            ntasks = pick(dom, smp.ntasks, limit)
            dom.assume(smp.sections[0].stream.dlen >= L.root_size(ver, "SStat"))
            dom.assume(smp.sections[1].stream.dlen >= ntasks * L.root_size(ver, "TStat"))
            ncgroups = 0
            if ver in L.CG_VERSIONS:
                ncgroups = pick(dom, smp.ncgroups, limit)
                smp.cgroup_premises(ncgroups)
            samples.append((smp, ntasks, ncgroups))
            pos = smp.end
            continue
        # Sections that come before the bad one are intact; a payload of theirs must not be too short either.
        done = [s for s in smp.sections if not s is section][:smp.sections.index(section)]
        names = [s.name for s in done]
        if "scomplen" in names:
            dom.assume(smp.sections[0].stream.dlen >= L.root_size(ver, "SStat"))
        if "pcomplen" in names:
            dom.assume(smp.sections[1].stream.dlen >= limit * L.root_size(ver, "TStat"))
        break
    dom.settle()
    fh = dom.open(file, 0 if own_header else start)
    kwargs = {} if flag is None else {"raise_on_truncation": flag}
    gen = dom.call(pkg.generate_statistics, fh, *(() if own_header else (hdr,)), **kwargs)
    dom.expect(gen.ok, "iteration", gen.describe())
    got, end = drain(dom, gen.value, lead + count + 2)
    dom.expect(len(got) == len(samples), "samples", "%d instead of %d complete samples" % (len(got), len(samples)))
    dom.flush()
    for (smp, ntasks, ncgroups), (item, _) in zip(samples, got):
        smp.compare(item, ntasks, ncgroups)
    quiet = end is not None and end.raised(StopIteration)
    error = end is not None and end.raised(dom.zlib_error)
    label = "end of a cut log (%s)" % finish
    detail = "nothing" if end is None else end.describe()
    if finish == "quiet" or flag is False:
        dom.expect(quiet, label, detail)
    elif finish == "error":
        dom.expect(error, label, detail)
    else:
        dom.expect(quiet or error, label, detail)
    dom.witness("%d samples then %s" % (len(samples), finish))


def c08_short(dom, ver, which, flag):
    """A payload that decompresses but is too short: ValueError in either mode."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    pkg = dom.package()
    smp = Sample(dom, ver, file, pos)
    dom.assume(smp.ntasks == 1)
    if ver in L.CG_VERSIONS:
        dom.assume(smp.ncgroups == 1)
    for section in smp.sections:
        dom.assume(section.length > 0)
        smp.intact(section)
    need = [L.root_size(ver, "SStat"), L.root_size(ver, "TStat")]
    if ver in L.CG_VERSIONS:
        need.append(L.root_size(ver, "CStat"))
    for i, size in enumerate(need):
        if i < which:
            dom.assume(smp.sections[i].stream.dlen >= size)
        elif i == which:
            dom.assume(smp.sections[i].stream.dlen < size)
    dom.assume(file.size >= smp.end)
    dom.settle()
    fh = dom.open(file, pos)
    kwargs = {} if flag is None else {"raise_on_truncation": flag}
    got, end = drain(dom, pkg.generate_statistics(fh, hdr, **kwargs), 2)
    dom.expect(not got, "samples", "a sample with a short payload was yielded")
    dom.expect(end is not None and end.raised(ValueError), "short payload", "nothing" if end is None else
               end.describe())
    dom.witness("short payload")


class Failure(OSError):
    """Raised by the harness's file."""


class Ended(EOFError):
    """The same, as a compressed stream does that is cut off."""


ERRORS = ((Failure, errno.EIO), (Failure, errno.EPIPE), (Ended, 0), (TimeoutError, errno.ETIMEDOUT),
          (MemoryError, 0))


def failing(dom, fh, at, error):
    """A file whose read number `at` fails."""
    state = {"n": 0}

    def wrap(name):
        real = getattr(fh, name)

        def method(*args):
            num, state["n"] = state["n"], state["n"] + 1
            if num == at:
                raise error[0](error[1], "failed")
            return real(*args)

        return method

    class Proxy:
        def __getattr__(self, name):
            return getattr(fh, name)

    proxy = Proxy()
    for name in ("read", "readinto", "read1", "readinto1"):
        setattr(proxy, name, wrap(name))
    return proxy, state


def c08_ioerror(dom, ver, flag):
    """An I/O error of the file is reported, whatever the truncation mode."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    pkg = dom.package()
    smp = Sample(dom, ver, file, pos)
    smp.complete(1, 1, empty_sections=False)
    dom.assume(file.size == smp.end)
    dom.settle()
    at = dom.choose("failing read", 6)
    error = ERRORS[dom.choose("error", len(ERRORS))]
    fh, state = failing(dom, dom.open(file, pos), at, error)
    kwargs = {} if flag is None else {"raise_on_truncation": flag}
    _, end = drain(dom, pkg.generate_statistics(fh, hdr, **kwargs), 3)
    if state["n"] > at:
        dom.expect(end is not None and end.raised(error[0]), "I/O error", "nothing" if end is None else end.describe())
        dom.witness("I/O error")


# --------------------------------------------------------------------------- C09


def c09_limit(dom, ver, count, with_flag=False):
    """A log of `count` samples and any limit 0..count+1."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    pos = dom.int("pos", 0)
    pkg = dom.package()
    limit = dom.int("limit", 0, None)
    dom.prefer(limit <= 100000)
    start, ends, samples = pos, [], []
    for _ in range(count):
        smp = Sample(dom, ver, file, pos)
        counts = smp.fixed(len(samples)) if count > 5 else smp.complete(1, 1, empty_sections=False)
        pos = smp.end
        ends.append(pos)
        samples.append((smp, counts))
    dom.assume(file.size == pos)
    dom.settle()
    fh = dom.open(file, start)
    if with_flag:
        gen = dom.call(pkg.generate_statistics, fh, hdr, False, limit)
    else:
        gen = dom.call(pkg.generate_statistics, fh, hdr, max_samples=limit)
    dom.expect(gen.ok, "iteration", gen.describe())
    it = dom.call(iter, gen.value)
    dom.same(fh.tell(), start, "nothing is read before the first sample is asked for")
    want = 0
    while want < count and want < limit:
        want += 1
    seen = 0
    for i in range(count + 2):
        step = dom.call(next, it.value)
        if not step.ok:
            break
        seen += 1
        if i < len(ends):
            dom.same(fh.tell(), ends[i], "position when sample %d is yielded" % i)
            samples[i][0].compare(step.value, *samples[i][1])
    dom.expect(seen == want, "number of samples", "%d" % seen)
    dom.expect(step.raised(StopIteration), "end", step.describe())
    dom.flush()
    dom.same(fh.tell(), ends[want - 1] if want else start, "position after the last sample")
    dom.witness("limit %s" % ("reached" if want < count else "not reached"))


def c09_default(dom, ver, total=86400):
    """An endless log: the same arbitrary sample over and over; the default limit ends the iteration."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    smp = Sample(dom, ver, file, 0)
    names = smp.length_names()
    for name in names:
        dom.bind(smp.rec.value(name), 40000)
    dom.bind(smp.ntasks, 0)
    if ver in L.CG_VERSIONS:
        dom.bind(smp.ncgroups, 0)
    for section in smp.sections:
        dom.assume(section.stream.valid)
        dom.bind(section.stream.zlen, 40000)
    dom.bind(smp.sections[0].stream.dlen, L.root_size(ver, "SStat"))
    period = smp.end
    dom.assume(file.size == period)
    dom.settle()
    fh = dom.endless(file, period)
    pkg = dom.package()
    it = iter(pkg.generate_statistics(fh, hdr))
    seen = 0
    step = None
    while seen <= total:
        step = dom.call(next, it)
        if not step.ok:
            break
        seen += 1
    dom.expect(seen == total, "default limit", "%d samples" % seen)
    dom.expect(step is not None and not step.ok and step.raised(StopIteration), "end")
    dom.expect(fh.tell() == total * period, "position after the last sample")
    dom.witness("default limit")
