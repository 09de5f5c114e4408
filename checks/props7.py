"""Harnesses C27-C28: parse_file as a function, and logs of any content."""
from . import layout as L, logs
from .domain import And, Or
from .props2 import DEVICES, Scene, _element, convert, make, set_counters
from .props3 import Log, _Views, layout_text
from .props4 import failed, refused, unacceptable

# --------------------------------------------------------------------------- C27


def options(dom, tag, forms):
    """Arbitrary options and an arbitrary way of passing them: (pretty, tasks, cgroups, form)."""
    pretty, tasks, cgroups = [bool(dom.bool(tag + name)) for name in ("pretty", "tasks", "cgroups")]
    return pretty, tasks, cgroups, forms[dom.choose(tag + "form", len(forms))]


def shelved(dom, name, where, ver, requested):
    log = Log(dom, name, ver, 1, fixed=True)
    log.name = where
    if requested and ver == "1.26":
        log.devices(requested, 1, fixed=True)
    return log


def called(name, requested, opts):
    """The call of parse_file with these options, and what it must honour: (call, pretty, tasks, cgroups)."""
    pretty, tasks, cgroups, form = opts
    if form == "positional":
        return lambda mod: mod.parse_file(name, requested, pretty, tasks, cgroups), pretty, tasks, cgroups
    if form == "named":
        return (lambda mod: mod.parse_file(file=name, parseables=requested, pretty_print=pretty, show_tstats=tasks,
                                           show_cstats=cgroups)), pretty, tasks, cgroups
    if form == "set only":
        # Only what differs from what the documentation says is assumed otherwise.
        kwargs = {}
        if requested:
            kwargs["parseables"] = requested
        if not pretty:
            kwargs["pretty_print"] = False
        if tasks:
            kwargs["show_tstats"] = True
        if cgroups:
            kwargs["show_cstats"] = True
        return lambda mod: mod.parse_file(name, **kwargs), pretty, tasks, cgroups
    return lambda mod: mod.parse_file(name, requested), True, False, False


def printed(dom, log, requested, call, pretty, tasks, cgroups, files, label):
    out, docs, txt = dom.run_main([], files, call=call)
    dom.expect(out.ok and out.value is None, label, out.describe())
    dom.expect(docs is not None and len(docs) == 1, label, "not one document")
    dom.flush()
    if requested:
        log.parsed(docs[0], requested, label)
    else:
        log.plain(docs[0], tasks, cgroups, label)
    layout_text(dom, txt, docs, pretty)
    return txt


FORMS = ["positional", "named", "set only", "name only"]


def c27_same(dom, ver, requested, compressed):
    """The function prints what the command prints for the same options."""
    log = shelved(dom, "A", "a.gz" if compressed else "a.log", ver, requested)
    dom.settle()
    opts = options(dom, "", FORMS)
    wanted = list(requested) if requested or dom.bool("empty list") else None
    given = list(requested) if wanted is not None else None
    call, pretty, tasks, cgroups = called(log.name, given, opts)
    files = {log.name: (log.file, compressed)}
    txt = printed(dom, log, requested, call, pretty, tasks, cgroups, files, "call")
    dom.expect(given == wanted, "parseables", "the list of parseables was changed")
    argv = [log.name] + (["-p"] if pretty else []) + (["--tstats"] if tasks else []) + \
        (["--cstats"] if cgroups else []) + (["-P"] + list(requested) if requested else [])
    out, docs, other = dom.run_main(argv, files)
    dom.expect(not failed(out), "command", out.describe())
    dom.expect(txt == other, "same", "the command prints something else")
    dom.witness(opts[3])


def c27_calls(dom, first, second, requested, between):
    """Two calls, with another use of the reader between them."""
    one = shelved(dom, "A", "a.log", first, requested[0])
    two = shelved(dom, "B", "b.gz", second, requested[0] + requested[1])
    files = {"a.log": (one.file, False), "b.gz": (two.file, True)}
    if between == "refused":
        bad = dom.file("X")
        unacceptable(dom, bad)
        files["x.log"] = (bad, False)
    elif between == "short":
        bad = Log(dom, "X", first, 1, "short", fixed=True)
        if first == "1.26":
            bad.devices(requested[0], 1, fixed=True)
        files["x.log"] = (bad.file, False)
    dom.settle()
    given = [list(part) or None for part in requested]
    if between == "nothing":
        call, pretty, tasks, cgroups = called("a.log", given[0], options(dom, "one", FORMS[:2]))
    else:
        call, pretty, tasks, cgroups = called("a.log", given[0], (False, True, True, "positional"))
    printed(dom, one, requested[0], call, pretty, tasks, cgroups, files, "first")
    if between == "command":
        argv = ["b.gz", "a.log", "--tstats", "--cstats", "-p"] + (["-P"] + requested[0] if requested[0] else [])
        out, docs, _ = dom.run_main(argv, files)
        dom.expect(not failed(out) and docs is not None and len(docs) == 2, "between", out.describe())
    elif between == "short":
        out, docs, txt = dom.run_main([], files, call=lambda mod: mod.parse_file("x.log", given[0], True, True, True))
        # A sample that announces more than it holds is an error, unless none is read.
        if not requested[0] or first == "1.26":
            refused(dom, out, docs, txt, None, True, True, True, requested[0])
    elif between != "nothing":
        name = "x.log" if "x.log" in files else "missing.log"
        out, docs, txt = dom.run_main([], files, call=lambda mod: mod.parse_file(name, given[0], True, True, True))
        refused(dom, out, docs, txt, None, True, True, True, requested[0])
    dom.flush()
    opts = (True, False, False, "name only")
    if between != "refused":
        opts = options(dom, "two", FORMS[1:] if between == "nothing" else FORMS[2:])
    call, pretty, tasks, cgroups = called("b.gz", given[1], opts)
    printed(dom, two, requested[1], call, pretty, tasks, cgroups, files, "second")
    dom.expect(given == [list(part) or None for part in requested], "parseables", "a list of parseables was changed")
    dom.witness("two calls")


# --------------------------------------------------------------------------- C28


def arbitrary(dom, ver, file, count, entries, pos=logs.HEADER_SIZE):
    """Where samples are in a file of any content; only the numbers of announced entries are bounded from above."""
    out = []
    for _ in range(count):
        smp = logs.Sample(dom, ver, file, pos)
        dom.assume(smp.ntasks <= entries)
        if ver in L.CG_VERSIONS:
            dom.assume(smp.ncgroups <= entries)
            dom.prefer(smp.cgroups(1)[0][0][0].value("gen.structlen") == 0)
        pos = smp.end
        out.append(smp)
    return out


def c28_bytes(dom, ver, count, check, entries=1):
    """Any bytes after the header: samples, then the end, a zlib error or a ValueError, and nothing else."""
    file = dom.file("F")
    logs.bind_header(dom, ver, file.view, lengths=check)
    dom.assume(file.size >= logs.HEADER_SIZE)
    dom.prefer(file.size <= 100000)
    dom.steps(300 + 200 * count, 20000000)
    pkg = dom.package()
    fh = dom.open(file)
    hdr = dom.call(pkg.get_header, fh) if check else dom.call(pkg.get_header, fh, check_compatibility=False)
    dom.expect(hdr.ok, "header", hdr.describe())
    dom.flush()
    arbitrary(dom, ver, file, count, entries)
    dom.settle()
    flag = bool(dom.bool("raise"))
    gen = dom.call(lambda: iter(pkg.generate_statistics(fh, hdr.value, flag, count)))
    dom.expect(gen.ok, "iteration", gen.describe())
    dom.flush()
    got, out = logs.drain(dom, gen.value, count + 1)
    dom.expect(out is not None and out.raised(StopIteration, dom.zlib_error, ValueError), "end",
               out.describe() if out else "more samples than asked for")
    dom.witness("%d samples, %s" % (len(got), out.describe() if out else ""))


def c28_degenerate(dom, ver, size, count):
    """Structures that announce no length, or next to none: the entries overlap, or there are too few bytes."""
    file = dom.file("F")
    cgroups = ver in L.CG_VERSIONS
    spec = logs.bind_header(dom, ver, file.view, lengths=cgroups)
    if not cgroups:
        dom.bind(spec.value(L.tlen_field(ver)), size)
    smp = logs.Sample(dom, ver, file, logs.HEADER_SIZE)
    sizes = [L.root_size(ver, "SStat"), L.root_size(ver, "TStat")]
    sizes += [L.root_size(ver, "CStat") + 8, 8] if cgroups else []
    dom.bind(smp.ntasks, 0 if cgroups else count)
    if cgroups:
        dom.bind(smp.ncgroups, count)
    for name, section, dlen in zip(smp.length_names(), smp.sections, sizes):
        dom.bind(smp.rec.value(name), 20000)
        dom.assume(section.stream.valid)
        dom.bind(section.stream.zlen, 20000)
        dom.bind(section.stream.dlen, dlen)
    if cgroups:
        view = smp.cgroups(1)[0][0][0]
        dom.bind(view.value("gen.structlen"), size)
        dom.bind(view.value("gen.nprocs"), 0)
    dom.assume(file.size == smp.end)
    dom.steps(500, 20000000)
    dom.settle()
    pkg = dom.package()
    fh = dom.open(file)
    hdr = dom.call(pkg.get_header, fh) if cgroups else dom.call(pkg.get_header, fh, check_compatibility=False)
    dom.expect(hdr.ok, "header", hdr.describe())
    dom.flush()
    got, out = logs.drain(dom, pkg.generate_statistics(fh, hdr.value), 2)
    dom.expect(out is not None and out.raised(StopIteration, dom.zlib_error, ValueError), "end",
               out.describe() if out else "more samples than there are")
    dom.witness("ended")


def c28_convert(dom, ver, path):
    """System statistics whose counters hold anything at all are converted."""
    obj, spec = make(dom, ver, "SStat")
    set_counters(dom, ver, spec, 1, keep=(path,))
    count = spec.value(path)
    cap = next(cap for name, cap, _ in L.counters(ver, spec.struct) if name == path)
    dom.assume(Or(count <= 2, count >= cap - 1))
    dom.assume(Or(count >= -2, count <= 1 - cap))
    got = convert(dom, obj)
    dom.expect(type(got) is dict, path, "not a dictionary")
    dom.witness("converted")


def at_most(dom, scene, names, limit):
    """No more than that many devices."""
    for name in sorted(set(names) & set(DEVICES)):
        path = DEVICES[name][0]
        _, item = L.find("1.26", L.root("1.26", "SStat"), path)
        noff, _ = L.find("1.26", item["struct"], "name")
        view = _element(scene, path, limit)
        dom.assume(view.data.int(view.off + noff, 1, False) == 0)


def c28_report(dom, name, limit, cores):
    """A sample of any content is reported."""
    scene = Scene(dom, 2)
    if cores is not None:
        count = scene.views["s"].value("cpu.nrcpu")
        dom.assume(count < 0 if cores else count >= 0)
        dom.assume(Or(count <= 2, count >= 63))
    at_most(dom, scene, [name], limit)
    got = scene.parse(name)
    dom.expect(all(type(item) is dict for item in got), name, "not a dictionary")
    dom.witness("reported")


def readable(file, section, size):
    """The section holds at least that many bytes, compressed."""
    stream = section.stream
    return bool(And(stream.valid, stream.zlen <= section.length, section.start + stream.zlen <= file.size,
                    stream.dlen >= size))


def c28_command(dom, ver, requested, counter, flags):
    """The command given a header followed by anything: one document, or an error and none."""
    file = dom.file("F")
    logs.bind_header(dom, ver, file.view)
    dom.assume(file.size >= logs.HEADER_SIZE)
    dom.prefer(file.size <= 100000)
    smp = arbitrary(dom, ver, file, 1, 1)[0]
    if readable(file, smp.section(0), L.root_size(ver, "SStat")):
        set_counters(dom, ver, smp.sstat(), counter)
        if ver == "1.26":
            at_most(dom, _Views({"s": smp.sstat()}), requested, 1)
    if ver in L.CG_VERSIONS and smp.section(2).length != 0 and \
            readable(file, smp.section(2), L.root_size(ver, "CStat")):
        dom.assume(smp.cgroups(1)[0][0][2] <= 2)
    dom.assume(file.size < smp.end + L.root_size(ver, "Record"))
    # What begins behind the sample announces no statistics, or ends before it could.
    at, item = L.find(ver, L.root(ver, "Record"), "scomplen")
    dom.assume(Or(file.size <= smp.end + at, file.size >= smp.end + at + item["size"]))
    nxt = logs.Sample(dom, ver, file, smp.end)
    if file.size > smp.end + at:
        dom.assume(nxt.rec.value("scomplen") == 0)
    dom.settle()
    tasks, cgroups, pretty = flags
    argv = ["a.log"] + (["--tstats"] if tasks else []) + (["--cstats"] if cgroups else []) + \
        (["-p"] if pretty else []) + (["-P"] + list(requested) if requested else [])
    out, docs, txt = dom.run_main(argv, {"a.log": (file, False)})
    dom.expect(docs is not None, "output", "not a sequence of JSON documents")
    dom.flush()
    if failed(out):
        dom.expect(isinstance(out.exc, (ValueError, type(None))), "exit", out.describe())
        dom.expect(not txt.strip(), "output", "text was printed before the error")
        dom.witness("error")
    else:
        dom.expect(len(docs) == 1, "output", "%d documents" % len(docs))
        dom.witness("%s entries" % len(docs[0]))
