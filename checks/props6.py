"""Harnesses C24-C26: input/output failures, files left alone, memory."""
import errno
import gc
import weakref

from . import layout as L, logs
from .logs import Sample
from .props2 import DEVICES, PARSEABLES, parser, set_counters
from .props2 import _element as element
from .props3 import Log, _Views
from .props4 import failed, refused, unacceptable

# --------------------------------------------------------------------------- C24


READ_ERRORS = (errno.EIO, errno.ESTALE, errno.ETIMEDOUT, errno.EISDIR, errno.EACCES)
WRITE_ERRORS = (errno.ENOSPC, errno.EPIPE, errno.EIO, errno.EFBIG)


def arguments(names, flags, requested):
    tasks, cgroups, pretty = flags
    return names + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else []) + (["-p"] if pretty else []) + \
        (["-P"] + list(requested) if requested else [])


def good_log(dom, ver, requested, name="good.log"):
    log = Log(dom, "A", ver, 1, fixed=True)
    log.name = name
    if requested and ver == "1.26":
        log.devices(requested, 1, fixed=True)
    return log


def c24_read(dom, ver, before, compressed, requested=(), flags=(False, False, False), count=1):
    """A log that cannot be read from an arbitrary byte on, alone or after a good one."""
    files, names, log = {}, [], None
    if before:
        log = good_log(dom, before, requested)
        files["good.log"] = (log.file, False)
        names.append("good.log")
    name = "bad.log.gz" if compressed else "bad.log"
    other = Log(dom, "B", ver, count, fixed=True)
    other.name = name
    if requested and ver == "1.26":
        other.devices(requested, 1, fixed=True)
    files[name] = (other.file, compressed)
    names.append(name)
    bad, code = dom.int("bad", 0), READ_ERRORS[dom.choose("error", len(READ_ERRORS))]
    dom.assume(bad < (other.file.size if ver == "1.26" or not requested else 480))
    dom.settle()
    out, docs, txt = dom.run_main(arguments(names, flags, requested), files, bad={name: bad}, errno=code)
    refused(dom, out, docs, txt, log, *flags, requested)
    if bad < 480:
        dom.witness("unreadable header")
    else:
        dom.witness("unreadable sample")


def c24_write(dom, ver, other, requested=(), flags=(False, False, False)):
    """The output device is full at an arbitrary write."""
    logs = [good_log(dom, ver, requested, "a.log"), Log(dom, "B", other, 0)]
    full, code = dom.choose("full", 5), WRITE_ERRORS[dom.choose("error", len(WRITE_ERRORS))]
    dom.settle()
    out, docs, _ = dom.run_main(arguments(["a.log", "b.log"], flags, requested),
                                {"a.log": (logs[0].file, False), "b.log": (logs[1].file, False)}, full=full,
                                errno=code)
    if dom.used.written > full:
        dom.expect(failed(out), "exit", "output that could not be written ends the command without an error")
        dom.witness("full")
    else:
        dom.expect(not failed(out) and docs is not None and len(docs) == 2, "exit", "not both documents were printed")
        dom.witness("complete")


# --------------------------------------------------------------------------- C25

NAMES = [("a.log", False), ("b.log.gz", True), ("dir/c.log", False), ("d.gz", True)]


def c25_files(dom, versions, last, requested=(), compressed=None):
    """A user who may only read: several logs, the last one arbitrary, unacceptable or missing."""
    files, names, logs = {}, [], []
    for i, ver in enumerate(versions):
        name, packed = NAMES[(i + (compressed or 0)) % len(NAMES)]
        log = Log(dom, "L%d" % i, ver, 1 if i == 0 else 0, "cut" if i == 1 and last == "cut" else "exact", fixed=True)
        log.name = name
        if requested and ver == "1.26":
            log.devices(requested, 1, fixed=True)
        logs.append(log)
        files[name] = (log.file, packed)
        names.append(name)
    good = len(names)
    name, packed = NAMES[(good + (compressed or 0)) % len(NAMES)]
    if last == "missing":
        names.append(name)
    elif last == "refused":
        bad = dom.file("X")
        unacceptable(dom, bad)
        files[name] = (bad, packed)
        names.append(name)
    elif last == "unreadable":
        log = Log(dom, "X", versions[0], 0)
        files[name] = (log.file, packed)
        names.append(name)
    dom.settle()
    flags = dom.bool("tstats"), dom.bool("cstats"), dom.bool("pretty")
    out, docs, txt = dom.run_main(arguments(names, flags, requested), files, restricted=True,
                                  bad={name: 100} if last == "unreadable" else None)
    used = dom.used
    dom.expect(not used.refused, "files", "files were to be changed: %s" % used.refused)
    dom.expect(not used.left, "files", "files were left behind: %s" % used.left)
    dom.expect(not used.crowded, "open", "open at the same time as another log: %s" % used.crowded)
    dom.expect(not used.left_open, "open", "left open: %s" % used.left_open)
    dom.flush()
    if last in ("missing", "refused", "unreadable"):
        dom.expect(failed(out), "exit", "no error")
    else:
        dom.expect(not failed(out), "exit", out.describe() if not out.ok else "an error")
    dom.expect(docs is not None and len(docs) == good, "output", "not %d documents" % good)
    dom.witness(last)


# --------------------------------------------------------------------------- C26


def grown(dom, sizes, alive, count, label):
    """No more than is kept per version, per name or in a bounded cache: less than one thing per item of the last half."""
    growth = sizes[-1] - sizes[0]
    dom.expect(2 * growth < count - count // 2, label, "what the package remembers grows: %d more after %d more items" %
               (growth, count - count // 2))
    dom.expect(alive <= 3, label, "%d items given up by the caller are still kept" % alive)
    dom.flush()


def references(item):
    """Weak references to the structures of a sample."""
    out = []
    for part in item:
        for obj in part if isinstance(part, (list, tuple)) else [part]:
            out.append(weakref.ref(obj))
            cstat = getattr(obj, "cstat", None)
            if cstat is not None:
                out.append(weakref.ref(cstat))
    return out


def c26_samples(dom, ver, count, use, own=False):
    """A long log; the caller keeps nothing of a sample once it has used it."""
    file = dom.file("F")
    header = logs.bind_header(dom, ver, file.view)
    pos = logs.HEADER_SIZE
    for i in range(count):
        smp = Sample(dom, ver, file, pos)
        smp.fixed(i)
        if use != "read":
            set_counters(dom, ver, smp.sstat(), 1)
            for name in DEVICES if use == "report" else ():
                path = DEVICES[name][0]
                _, item = L.find(ver, L.root(ver, "SStat"), path)
                noff, _ = L.find(ver, item["struct"], "name")
                view = element(_Views({"s": smp.sstat()}), path, 0)
                dom.assume(view.data.int(view.off + noff, 1, False) == 0)
        pos = smp.end
    dom.bind(file.size, pos)
    dom.settle()
    pkg = dom.package()
    funcs = [parser(dom, name) for name in PARSEABLES] if use == "report" else []
    raw = dom.open(file)
    hdr = dom.call(pkg.get_header, raw)
    dom.expect(hdr.ok, "header", hdr.describe())
    if own:
        raw.seek(0)
    gen = dom.call(pkg.generate_statistics, raw, *(() if own else (hdr.value,)))
    dom.expect(gen.ok, "iteration", gen.describe())
    dom.flush()
    refs, sizes = [], []
    for i in range(count):
        out = dom.call(next, gen.value)
        dom.expect(out.ok, "sample %d" % i, out.describe())
        dom.flush()
        item = out.value
        refs.append(references(item))
        if use == "convert":
            for part in item:
                for obj in part if isinstance(part, (list, tuple)) else [part]:
                    dom.call(pkg.struct_to_dict, obj)
            dom.call(pkg.struct_to_dict, hdr.value)
        for func in funcs:
            dom.call(lambda f=func: list(f(hdr.value, *item[:3])))
        out = item = part = obj = None
        if i >= count // 2 - 1 and (i == count - 1 or len(sizes) == 0):
            sizes.append(dom.remembered(hdr.value))
    gc.collect()
    alive = sum(any(ref() is not None for ref in one) for one in refs)
    grown(dom, sizes, alive, count, use)
    dom.witness("bounded")


def c26_logs(dom, versions, count):
    """Many logs, one after the other."""
    files = []
    for i in range(count):
        file = dom.file("F%d" % i)
        logs.bind_header(dom, versions[i % len(versions)], file.view)
        files.append(file)
        dom.bind(file.size, logs.HEADER_SIZE)
    dom.settle()
    pkg = dom.package()
    refs, sizes = [], []
    for i, file in enumerate(files):
        raw = dom.open(file)
        hdr = dom.call(pkg.get_header, raw)
        dom.expect(hdr.ok, "header %d" % i, hdr.describe())
        dom.flush()
        end = dom.call(lambda: list(pkg.generate_statistics(raw, hdr.value)))
        dom.expect(end.ok and not end.value, "samples %d" % i, end.describe())
        version = dom.call(lambda: hdr.value.semantic_version)
        dom.expect(version.ok, "version %d" % i, version.describe())
        dom.call(pkg.struct_to_dict, hdr.value)
        dom.flush()
        refs.append([weakref.ref(hdr.value), weakref.ref(raw)])
        hdr = raw = end = version = None
        if i >= count // 2 - 1 and (i == count - 1 or not sizes):
            sizes.append(dom.remembered())
    gc.collect()
    alive = sum(any(ref() is not None for ref in one) for one in refs)
    grown(dom, sizes, alive, count, "logs")
    dom.witness("bounded")


def distinct(dom, ver, struct, obj, i, tag, skip=()):
    """Fill a structure: every number is an arbitrary one plus i, every text is of its own."""
    for item in L.named(ver, struct):
        name, kind, where = item["name"], item["kind"], tag + "." + item["name"]
        if kind == "struct":
            distinct(dom, ver, item["struct"], getattr(obj, name), i, where, [s.partition(".")[2] for s in skip
                                                                              if s.partition(".")[0] == name])
        elif name in skip:
            setattr(obj, name, 1)
        elif kind == "array" and item.get("struct"):
            distinct(dom, ver, item["struct"], getattr(obj, name)[0], i, where)
        elif kind == "int":
            setattr(obj, name, i % 100 if item["size"] == 1 else dom.int(where, 0, 100) + i)
        elif kind == "text" and item["size"]:
            setattr(obj, name, b"%d" % i if item["size"] > 5 else b"%d" % (i % 10))
        elif kind == "char":
            setattr(obj, name, b"%c" % (33 + i % 90))


def c26_distinct(dom, ver, kinds, count, names=()):
    """Structures that share no value are converted or reported; only constant many things are remembered."""
    hdr, _ = logs.header(dom, ver)
    dom.settle()
    pkg = dom.package()
    funcs = [parser(dom, name) for name in names]
    refs, sizes = [], []
    for i in range(count):
        made = {}
        for kind in ("Header", "Record", "SStat", "TStat") if names else kinds:
            obj = type(hdr)() if kind == "Header" else getattr(hdr, kind)()
            skip = [path for path, _, _ in L.counters(ver, L.root(ver, kind))]
            if kind == "Header":
                skip += ["aversion", "supportflags"]
            distinct(dom, ver, L.root(ver, kind), obj, i, kind, skip)
            if kind == "Header":
                obj.aversion = 0x8000 | L.numbers(ver)[0] << 8 | L.numbers(ver)[1]
            made[kind] = obj
            refs.append([weakref.ref(obj)])
            obj = None
        for kind in kinds:
            out = dom.call(pkg.struct_to_dict, made[kind])
            dom.expect(out.ok, kind, out.describe())
        for func in funcs:
            out = dom.call(lambda f=func: list(f(made["Header"], made["Record"], made["SStat"], [made["TStat"]])))
            dom.expect(out.ok, "parseable", out.describe())
        dom.flush()
        made = out = None
        if i >= count // 2 - 1 and (i == count - 1 or not sizes):
            sizes.append(dom.remembered())
    gc.collect()
    alive = sum(any(ref() is not None for ref in one) for one in refs)
    grown(dom, sizes, alive, count, "distinct")
    dom.witness("bounded")
