"""Harness C34: an interrupt, or a lack of memory, at any point."""
from .logs import HEADER_SIZE
from .props3 import Log, judge
from .props4 import failed
from .props5 import activity
from .props6 import arguments, good_log

KINDS = (KeyboardInterrupt, MemoryError)


def passed_on(dom, fault, out, label):
    """The error that arose, and no other, has reached the caller."""
    if fault.raised is None:
        dom.expect(out.ok, label, out.describe())
        dom.witness("undisturbed")
    else:
        name = type(fault.raised).__name__
        dom.expect(type(out.exc) is type(fault.raised), label, "%s; the call %s" % (name, out.describe()))
        dom.witness(name)
    dom.flush()


def whole(dom, log, raw, label):
    """The log read from its start."""
    pkg = dom.package()
    raw.seek(0)
    hdr = dom.call(pkg.get_header, raw)
    dom.expect(hdr.ok, label + ".header", hdr.describe())
    dom.flush()
    got = rest(dom, raw, hdr.value, len(log.samples), label)
    judge(dom, log, hdr.value, got, label)


def rest(dom, raw, hdr, count, label):
    """The remaining samples, of which there must be so many."""
    gen, got = iter(dom.package().generate_statistics(raw, hdr)), []
    out = dom.call(next, gen)
    while out.ok and len(got) < count:
        dom.flush()
        got.append(out.value)
        out = dom.call(next, gen)
    dom.expect(len(got) == count and out.raised(StopIteration), label + ".end",
               "%d of %d samples, then %s" % (len(got), count, out.describe()))
    dom.flush()
    return got


def c34_read(dom, ver, other, visits=3, count=2):
    """A log is read, and the reading breaks off; it is taken up again, then started again, then another log is read."""
    fault = dom.breakdown(visits, KINDS)
    log = Log(dom, "F", ver, count, fixed=True, tasks=1)
    second = Log(dom, "G", other, 1, fixed=True)
    dom.settle()
    pkg = dom.package()
    raw, also = dom.open(log.file), dom.open(second.file)
    hdrs, got = [], []

    def run():
        hdrs.append(pkg.get_header(raw))
        for item in pkg.generate_statistics(raw, hdrs[0]):
            got.append((item, raw.tell()))
            if len(got) > count:
                break

    fault.armed = True
    out = dom.attempt(run)
    fault.armed = False
    passed_on(dom, fault, out, "read")
    dom.expect(len(got) <= count, "read", "more than %d samples" % count)
    dom.flush()
    if hdrs:
        raw.seek(got[-1][1] if got else HEADER_SIZE)
        found = [item for item, _ in got] + rest(dom, raw, hdrs[0], count - len(got), "rest")
        judge(dom, log, hdrs[0], found, "rest")
    whole(dom, log, raw, "again")
    whole(dom, second, also, "other")


def c34_use(dom, first, second, visits=3):
    """Conversion or reporting breaks off; then it is done, and something else."""
    fault = dom.breakdown(visits, KINDS)
    one, two = activity(dom, "A", first), activity(dom, "B", second)
    dom.settle()
    one.prepare()
    two.prepare()
    dom.settle()
    fault.armed = True
    out = dom.attempt(one.run)
    fault.armed = False
    if out.ok:
        out = next((one for one in one.got if not one.ok), out)
    passed_on(dom, fault, out, "use")
    one.run()
    one.judge()
    two.run()
    two.judge()


def c34_command(dom, ver, other, requested=(), flags=(False, False, False), visits=2):
    """The command breaks off; then it is run again."""
    fault = dom.breakdown(visits, KINDS)
    logs = [good_log(dom, ver, requested, "a.log"), Log(dom, "B", other, 0)]
    argv = arguments(["a.log", "b.log"], flags, requested)
    files = {"a.log": (logs[0].file, False), "b.log": (logs[1].file, False)}
    logs[1].name, logs[1].counts = "b.log", []
    dom.settle()
    fault.armed = True
    out, docs, _ = dom.run_main(argv, files)
    fault.armed = False
    dom.expect(not dom.used.left_open, "open", "left open: %s" % dom.used.left_open)
    dom.expect(docs is not None and len(docs) <= 2, "output", "the output is no sequence of documents")
    dom.flush()
    if fault.raised is None:
        dom.expect(not failed(out) and len(docs) == 2, "exit", "not both documents were printed")
        dom.witness("undisturbed")
    else:
        dom.expect(failed(out), "exit", "%s ends the command without an error" % type(fault.raised).__name__)
        dom.witness(type(fault.raised).__name__)
    dom.flush()
    printed(dom, logs, docs, flags, requested)
    out, docs, _ = dom.run_main(argv, files)
    dom.expect(not failed(out) and docs is not None and len(docs) == 2, "again", "not both documents were printed")
    dom.flush()
    printed(dom, logs, docs, flags, requested)


def printed(dom, logs, docs, flags, requested):
    for i, doc in enumerate(docs):
        if requested:
            logs[i].parsed(doc, requested, "doc%d" % i)
        else:
            logs[i].plain(doc, flags[0], flags[1], "doc%d" % i)
    dom.flush()


# --------------------------------------------------------------------------- C17

# Names that a shell, a template or an argument file would read as something else.
NAMES = ["~/a.log", "$HOME.log", "[ab].log", " a b .log ", "%61.log", "@a.log", "a*.log", "A.LOG", "b.log.gz"]


def c17_names(dom, ver, name, requested=()):
    """A file is opened by the name that was given, whatever other files there are."""
    log, other = Log(dom, "A", ver, 1, fixed=True), Log(dom, "B", ver, 0)
    log.name = name
    if requested and ver == "1.26":
        log.devices(requested, 1, fixed=True)
    files = {decoy: (other.file, False) for decoy in ("a.log", "b.log", "a b .log", "ab.log")}
    files[name] = (log.file, ".gz" in name)
    dom.settle()
    out, docs, _ = dom.run_main(arguments([name], (False, False, False), requested), files)
    dom.expect(not failed(out) and docs is not None and len(docs) == 1, "exit", "not one document for %r" % name)
    dom.flush()
    printed(dom, [log], docs, (False, False, False), requested)
    dom.witness("named")
