"""Harnesses C19-C21: refused files, forward-only streams, resumed iteration."""
import io

from . import compare, layout as L, logs
from .compare import View
from .domain import And, Not, Or
from .logs import HEADER_SIZE, Sample, drain
from .props3 import Log, judge, layout_text, opened, step


# --------------------------------------------------------------------------- C19


def unacceptable(dom, file):
    """The premise that the file is not an acceptable log, stated independently of the package."""
    newest = View.root(L.NEWEST, "Header", file.view)
    why = dom.choose("why", 3)
    if why == 0:
        dom.assume(file.size < HEADER_SIZE)
        return "incomplete"
    dom.assume(file.size >= HEADER_SIZE)
    if why == 1:
        dom.assume(newest.value("magic") != L.MAGIC)
        return "not a log"
    dom.bind(newest.value("magic"), L.MAGIC)
    low, high = file.int(4, 1, False), file.int(5, 1, False)
    layout = L.NEWEST
    for ver in L.VERSIONS:
        major, minor = L.numbers(ver)
        if And(low == minor, Or(high == major, high == major + 128)):
            layout = ver
            break
    spec = View.root(layout, "Header", file.view)
    dom.assume(Not(And(*[spec.value(name) == size for name, size in L.lengths(layout).items()])))
    return "incompatible"


def failed(out):
    """The command ended with an error."""
    return bool(out.status != 0)


def c19_refused(dom, ver, before, compressed, requested=(), flags=(False, False, False)):
    """An unacceptable file, alone or after a good one (None: alone)."""
    bad = dom.file("X")
    dom.prefer(bad.size <= 5000)
    files, names = {}, []
    log = None
    if before:
        log = Log(dom, "A", ver, 1, fixed=True)
        log.name = "good.log"
        if requested and ver == "1.26":
            log.devices(requested, 1, fixed=True)
        files["good.log"] = (log.file, False)
        names.append("good.log")
    why = unacceptable(dom, bad)
    name = "bad.log.gz" if compressed else "bad.log"
    files[name] = (bad, compressed)
    names.append(name)
    dom.settle()
    tasks, cgroups, pretty = flags
    argv = names + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else []) + \
        (["-p"] if pretty else []) + (["-P"] + list(requested) if requested else [])
    out, docs, txt = dom.run_main(argv, files)
    refused(dom, out, docs, txt, log, tasks, cgroups, pretty, requested)
    dom.witness(why)


def refused(dom, out, docs, txt, log, tasks, cgroups, pretty, requested):
    dom.expect(failed(out), "exit", "an unacceptable file ends the command without an error")
    dom.expect(docs is not None, "output", "the output is not a sequence of JSON documents")
    dom.flush()
    dom.expect(len(docs) == (1 if log else 0), "output", "%d documents" % len(docs))
    dom.flush()
    if not log:
        dom.expect(not txt.strip(), "output", "text was printed")
        return
    if requested:
        log.parsed(docs[0], requested, "doc")
    else:
        log.plain(docs[0], tasks, cgroups, "doc")
    layout_text(dom, txt, docs, pretty)


def c19_missing(dom, ver, requested=()):
    """A file that does not exist, after a good one."""
    log = Log(dom, "A", ver, 1, fixed=True)
    log.name = "good.log"
    if requested and ver == "1.26":
        log.devices(requested, 1, fixed=True)
    dom.settle()
    tasks, compressed = dom.bool("tstats"), dom.bool("compressed")
    argv = ["good.log", "missing.gz" if compressed else "missing.log"] + (["--tstats"] if tasks else []) + \
        (["-P"] + list(requested) if requested else [])
    out, docs, txt = dom.run_main(argv, {"good.log": (log.file, False)})
    refused(dom, out, docs, txt, log, tasks, False, False, requested)
    dom.witness("missing")


USAGE = [[], ["-p"], ["a.log", "-P", "CPUS"], ["a.log", "-P", "CPU", "nonsense"], ["a.log", "-P"], ["a.log", "--tstat5"],
         ["--cstats"], ["a.log", "-P", "prc"], ["a.log", "-P", ""]]


def c19_usage(dom, ver, num):
    """Wrong usage: nothing is printed."""
    log = Log(dom, "A", ver, 1, fixed=True)
    dom.settle()
    out, docs, txt = dom.run_main(USAGE[num], {"a.log": (log.file, False)})
    dom.expect(failed(out), "exit", "wrong usage ends the command without an error: %r" % (USAGE[num],))
    dom.expect(not txt.strip(), "output", "text was printed")
    dom.witness("usage")


# --------------------------------------------------------------------------- C20


class Pipe:
    """What a pipe, socket or decompressor offers: reading forward, nothing else but, perhaps, a file descriptor."""

    def __init__(self, fh, descriptor=None):
        self._fh = fh
        self._descriptor = descriptor

    def read(self, size=-1):
        data = self._fh.read(size)
        return data

    def readinto(self, buf):
        return self._fh.readinto(buf)

    def readable(self):
        return True

    def writable(self):
        return False

    seekable = isatty = writable

    @property
    def closed(self):
        return False

    def _unsupported(self, *args, **kwargs):
        raise io.UnsupportedOperation("the stream only moves forward")

    def fileno(self):
        if self._descriptor is None:
            raise io.UnsupportedOperation("fileno")
        return self._descriptor

    seek = tell = truncate = write = writelines = detach = peek = getvalue = getbuffer = _unsupported
    close = _unsupported


def c20_header(dom, check):
    """Any bytes: the header read from a pipe is that read from a file, or the same error."""
    file = dom.file("H")
    dom.prefer(file.size <= 5000)
    pkg = dom.package()
    ref = dom.call(pkg.get_header, dom.open(file), check)
    out = dom.call(pkg.get_header, Pipe(dom.open(file), dom.fifo() if dom.bool("descriptor") else None), check)
    if not ref.ok:
        dom.expect(type(out.exc) is type(ref.exc), "header", "%s instead of %s" % (out.describe(), ref.describe()))
        dom.witness("rejected")
        return
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    version = ref.value.semantic_version
    for ver in L.VERSIONS:
        if version == ver:
            break
    else:
        ver = L.NEWEST
    spec = View.root(ver, "Header", file.view)
    compare.struct(dom, out.value, spec, "header")
    dom.expect(out.value.semantic_version == version, "semantic_version")
    dom.witness("accepted")


def c20_stream(dom, ver, count, ending, own_header):
    """A whole log from a pipe: all samples, then the end."""
    log = Log(dom, "F", ver, count, ending)
    dom.settle()
    pkg = dom.package()
    raw = dom.open(log.file)
    pipe = Pipe(raw, dom.fifo() if dom.bool("descriptor") else None)
    quiet = dom.bool("quiet")
    kwargs = {"raise_on_truncation": False} if quiet else {}
    if own_header:
        gen = dom.call(pkg.generate_statistics, pipe, **kwargs)
    else:
        hdr = dom.call(pkg.get_header, pipe)
        dom.expect(hdr.ok, "header", hdr.describe())
        dom.flush()
        compare.struct(dom, hdr.value, log.header, "header")
        gen = dom.call(pkg.generate_statistics, pipe, hdr.value, **kwargs)
    dom.expect(gen.ok, "iteration", gen.describe())
    dom.flush()
    got, end = drain(dom, gen.value, count + 1)
    dom.expect(len(got) == count and end is not None, "samples", "%d of %d samples" % (len(got), count))
    dom.flush()
    for i, ((smp, ntasks, ncgroups), (item, _)) in enumerate(zip(log.samples, got)):
        smp.compare(item, ntasks, ncgroups, "[%d]" % i)
    allowed = (StopIteration,) if ending == "exact" or quiet else \
        (dom.zlib_error,) if ending == "damage" else (StopIteration, dom.zlib_error)
    dom.expect(end.raised(*allowed), "end", end.describe())
    dom.expect(not raw.closed, "the file was closed")
    dom.witness("streamed")


def c20_manual(dom, ver):
    """The section readers on a pipe."""
    log = Log(dom, "F", ver, 1)
    dom.settle()
    pkg = dom.package()
    pipe = Pipe(dom.open(log.file), dom.fifo() if dom.bool("descriptor") else None)
    hdr = dom.call(pkg.get_header, pipe)
    dom.expect(hdr.ok, "header", hdr.describe())
    dom.flush()
    record = dom.call(pkg.get_record, pipe, hdr.value)
    readers = [pkg.get_sstat, pkg.get_tstat] + ([pkg.get_cstat] if ver in L.CG_VERSIONS else [])
    parts = [dom.call(reader, pipe, hdr.value, record.value) for reader in readers]
    for out in [record] + parts:
        dom.expect(out.ok, "section", out.describe())
    dom.flush()
    smp, ntasks, ncgroups = log.samples[0]
    values = [out.value for out in parts]
    smp.compare((record.value, *values) if len(values) == 3 else (record.value, *values, []), ntasks, ncgroups)
    dom.witness("sections")


# --------------------------------------------------------------------------- C21


def c21_resumed(dom, ver, count, how, fresh_header=False):
    """Two partial iterations, ended in one of several ways, then one to the end: every sample once, in order."""
    log = Log(dom, "F", ver, count)
    dom.settle()
    pkg = dom.package()
    fh = dom.open(log.file)
    out = dom.call(pkg.get_header, fh)
    dom.expect(out.ok, "header", out.describe())
    dom.flush()
    hdr = out.value
    ends = [HEADER_SIZE] + [smp.end for smp, _, _ in log.samples]
    got = []
    for turn in range(2):
        want = dom.choose("samples%d" % turn, count + 1)
        want = min(want, count - len(got))
        part = partial(dom, pkg, fh, hdr, want, how)
        dom.expect(len(part) == want, "samples", "%d of %d samples in turn %d" % (len(part), want, turn))
        got += part
        dom.expect(not fh.closed, "the file was closed")
        dom.flush()
        dom.same(fh.tell(), ends[len(got)], "position after turn %d" % turn)
        if fresh_header:
            out = dom.call(pkg.get_header, dom.open(log.file))
            dom.expect(out.ok, "header", out.describe())
            dom.flush()
            hdr = out.value
    rest, end = drain(dom, pkg.generate_statistics(fh, hdr), count + 1)
    got += [item for item, _ in rest]
    dom.expect(len(got) == count and end is not None and end.raised(StopIteration), "samples",
               "%d samples in all, then %s" % (len(got), end and end.describe()))
    dom.flush()
    for i, ((smp, ntasks, ncgroups), item) in enumerate(zip(log.samples, got)):
        smp.compare(item, ntasks, ncgroups, "[%d]" % i)
    # At the end of the file another iteration has nothing to yield.
    more, end = drain(dom, pkg.generate_statistics(fh, hdr), 1)
    dom.expect(not more and end is not None and end.raised(StopIteration), "iteration at the end",
               "%d samples" % len(more))
    compare.struct(dom, hdr, log.header, "header")
    dom.expect(not fh.closed, "the file was closed")
    dom.witness("resumed")


def partial(dom, pkg, fh, hdr, want, how):
    if how == "limit":
        gen = dom.call(pkg.generate_statistics, fh, hdr, max_samples=want)
        dom.expect(gen.ok, "iteration", gen.describe())
        got, end = drain(dom, gen.value, want + 1)
        dom.expect(end is not None and end.raised(StopIteration), "end of a limited iteration",
                   "another sample" if end is None else end.describe())
        return [item for item, _ in got]
    gen = dom.call(lambda: iter(pkg.generate_statistics(fh, hdr)))
    dom.expect(gen.ok, "iteration", gen.describe())
    dom.flush()
    got = []
    for _ in range(want):
        got.append(step(dom, gen.value, "sample"))
    if how == "close":
        close = getattr(gen.value, "close", None)
        if close is not None:
            out = dom.call(close)
            dom.expect(out.ok, "close", out.describe())
    else:
        del gen
    return got
