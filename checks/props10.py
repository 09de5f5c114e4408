"""Harnesses C32 and C33: a log that grows while it is read; the package without assertions and docstrings."""
from . import layout as L
from .logs import HEADER_SIZE
from .props3 import Log, judge


def read_on(dom, fh, gen, most, label):
    """Samples and where each one ended, then the outcome that ended the iteration."""
    got = []
    while len(got) <= most:
        out = dom.call(next, gen)
        dom.flush()
        if not out.ok:
            return got, out
        got.append((out.value, fh.tell()))
    dom.expect(False, label, "more than %d samples" % most)
    dom.flush()


def open_header(dom, fh, size, label):
    out = dom.call(dom.package().get_header, fh)
    if size < HEADER_SIZE:
        dom.expect(out.raised(ValueError), label, out.describe())
        dom.flush()
        return None
    dom.expect(out.ok, label, out.describe())
    dom.flush()
    return out.value


def samples_in(dom, log, size):
    """How many samples are complete, and whether the rest ends quietly (None: either way)."""
    done, start = 0, HEADER_SIZE
    while done < len(log.samples) and log.samples[done][0].end <= size:
        start = log.samples[done][0].end
        done += 1
    at, item = L.find(log.ver, L.root(log.ver, "Record"), "scomplen")
    if size <= start + at:
        return done, True
    return done, False if size >= start + at + item["size"] else None


def c32_followed(dom, ver, way, count=2):
    """Read while only the first bytes were written, at any point; then the rest.

    way: same header and open file; a fresh header; another file object.
    """
    log = Log(dom, "F", ver, count, fixed=True)
    size = dom.int("written", 0, None)
    dom.assume(size < log.file.size)
    dom.settle()
    pkg = dom.package()
    fh = dom.growing(log.file, size)
    hdr = open_header(dom, fh, size, "header")
    done, last = [], HEADER_SIZE
    if hdr is not None:
        strict = bool(dom.bool("raise"))
        want, quiet = samples_in(dom, log, size)
        done, end = read_on(dom, fh, iter(pkg.generate_statistics(fh, hdr, raise_on_truncation=strict)), count, "written")
        dom.expect(len(done) == want, "written", "%d of %d complete samples" % (len(done), want))
        dom.flush()
        if quiet is not None:
            dom.expect(end.raised(StopIteration if quiet or not strict else dom.zlib_error), "end", end.describe())
        else:
            dom.expect(end.raised(StopIteration) or end.raised(dom.zlib_error), "end", end.describe())
        dom.flush()
        last = done[-1][1] if done else HEADER_SIZE
        dom.same(last, log.samples[want - 1][0].end if want else HEADER_SIZE, "position")
    dom.grow(fh, log.file)
    if hdr is None or way == "header":
        fh.seek(0)
        hdr = open_header(dom, fh, log.file.size, "header later")
    elif way == "reopened":
        fh = dom.open(log.file, disk=True)
        hdr = open_header(dom, fh, log.file.size, "header later")
    fh.seek(last)
    rest, end = read_on(dom, fh, iter(pkg.generate_statistics(fh, hdr)), count, "added")
    dom.expect(len(done) + len(rest) == count and end.raised(StopIteration), "added",
               "%d and %d samples, then %s" % (len(done), len(rest), end.describe()))
    dom.flush()
    judge(dom, log, hdr, [item for item, _ in done + rest], "log")
    dom.witness("followed after %d" % len(done))


def c32_kept(dom, ver, count=3):
    """The log grows by whole samples while one iteration goes on; when it has ended, another one takes over."""
    log = Log(dom, "F", ver, count, fixed=True)
    dom.settle()
    pkg = dom.package()
    ends = [HEADER_SIZE] + [smp.end for smp, _, _ in log.samples]
    have = dom.choose("samples", count)
    fh = dom.growing(log.file, ends[have])
    hdr = open_header(dom, fh, ends[have], "header")
    gen, got, gens = iter(pkg.generate_statistics(fh, hdr)), [], 1
    while len(got) < count:
        out = dom.call(next, gen)
        dom.flush()
        if out.ok:
            got.append(out.value)
            dom.same(fh.tell(), ends[len(got)], "position")
        else:
            good = out.raised(StopIteration) and len(got) == have
            dom.expect(good, "end", "%d of %d samples, then %s" % (len(got), have, out.describe()))
            dom.flush()
            if not good:
                return
            gen, gens = iter(pkg.generate_statistics(fh, hdr)), gens + 1
        if have < count and (not out.ok or dom.bool("grows%d" % len(got))):
            have += 1
            dom.grow(fh, log.file, ends[have])
    out = dom.call(next, gen)
    dom.expect(out.raised(StopIteration), "end", out.describe())
    dom.flush()
    judge(dom, log, hdr, got, "log")
    dom.witness("%d iterations" % gens)


# --------------------------------------------------------------------------- C33


def c33_stripped(dom, level, harness, args):
    """The harness of another property, on the package as the interpreter compiles it with -O or -OO."""
    from . import registry

    dom.optimise(level)
    registry.harness(harness)(dom, *args)
