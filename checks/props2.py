"""Harnesses C10-C15: conversion to dictionaries and parseables."""
from . import compare, layout as L, logs
from .compare import View
from .domain import And, Not, Or

KINDS = ("Header", "Record", "SStat", "TStat", "CStat")


def kinds(ver):
    return KINDS if ver in L.CG_VERSIONS else KINDS[:4]


def make(dom, ver, kind, name=None):
    """An arbitrary structure of the version, as the package's own class: (object, specified content, header)."""
    if kind == "Header":
        return logs.header(dom, ver, name or "H")
    hdr, _ = logs.header(dom, ver)
    return instance(dom, ver, kind, hdr, name or kind)


def instance(dom, ver, kind, hdr, name):
    view, data = dom.memory(L.root_size(ver, kind), name)
    out = dom.call(lambda: getattr(hdr, kind).from_buffer_copy(data))
    dom.expect(out.ok, kind, out.describe())
    dom.flush()
    return out.value, View.root(ver, kind, view)


def set_counters(dom, ver, spec, value, keep=()):
    """Every counter of the structure (but those kept) is the constant value."""
    for path, _, _ in L.counters(ver, spec.struct):
        if path not in keep:
            dom.bind(spec.value(path), value)


def convert(dom, obj):
    pkg = dom.package()
    out = dom.call(pkg.struct_to_dict, obj)
    dom.expect(out.ok, "conversion", out.describe())
    dom.flush()
    return out.value


# --------------------------------------------------------------------------- C10, C11


def c10_dict(dom, ver, kind, counters=1):
    obj, spec = make(dom, ver, kind)
    set_counters(dom, ver, spec, counters)
    got = convert(dom, obj)
    compare.plain(dom, got, spec, kind)
    dom.flush()
    # Conversion leaves the structure as it was, and converting again gives the same.
    compare.struct(dom, obj, spec, kind + ".after")
    if kind != "SStat":
        compare.plain(dom, convert(dom, obj), spec, kind + ".again")
    dom.witness("converted")


def c10_nested(dom, ver, kind):
    """Every structure within another one, converted by itself."""
    obj, spec = make(dom, ver, kind)
    set_counters(dom, ver, spec, 1)
    dom.settle()

    def within(obj, view, label):
        for item in L.named(view.ver, view.struct):
            if item["kind"] == "struct":
                nested(getattr(obj, item["name"]), view.sub(item), label + "." + item["name"])
            elif item["kind"] == "array":
                array = getattr(obj, item["name"])
                for i in sorted({0, item["count"] - 1}):
                    nested(dom.at(array, i), view.sub(item, i), "%s.%s[%d]" % (label, item["name"], i))

    def nested(part, view, label):
        compare.plain(dom, convert(dom, part), view, label)
        within(part, view, label)

    within(obj, spec, kind)
    dom.flush()
    dom.witness("converted")


def c10_cgroup(dom, ver, nprocs):
    """A decoded cgroup converts to its statistics and its process ids."""
    hdr, _ = logs.header(dom, ver)
    file = dom.file("F")
    smp = logs.Sample(dom, ver, file, 0)
    csec, isec = smp.section(2), smp.section(3)
    dom.assume(smp.ncgroups == 1)
    dom.assume(csec.length > 0)
    if isec.length != 0:
        smp.intact(isec)
    smp.intact(csec)
    view, _, procs = smp.cgroups(1)[0][0]
    dom.assume(procs >= 0)
    dom.assume(procs <= nprocs)
    smp.cgroup_premises(1)
    dom.assume(file.size >= smp.end)
    dom.settle()
    pkg = dom.package()
    fh = dom.open(file, 0)
    record = dom.call(pkg.get_record, fh, hdr)
    fh.seek(csec.start)
    cgroups = dom.call(pkg.get_cstat, fh, hdr, record.value)
    dom.expect(cgroups.ok and len(cgroups.value) == 1, "cgroup", cgroups.describe())
    dom.flush()
    got = convert(dom, cgroups.value[0])
    count = logs.pick(dom, procs, nprocs)
    plain_cgroup(dom, got, view, isec.stream.data, 0, count, "cgroup")
    dom.witness("converted")


def plain_cgroup(dom, got, view, ids, off, count, label):
    if type(got) is not dict or set(got) != {"cstat", "proclist"}:
        dom.expect(False, label, "keys")
        dom.flush()
        return
    compare.plain(dom, got["cstat"], view, label + ".cstat")
    procs = got["proclist"]
    if type(procs) is not list:
        dom.expect(False, label + ".proclist", "not a list: %s" % type(procs).__name__)
        return
    dom.expect(len(procs) == count, label + ".proclist", "%d ids" % len(procs))
    dom.flush()
    for i in range(min(count, len(procs))):
        dom.same(procs[i], ids.int(off + 4 * i, 4, True), "%s.proclist[%d]" % (label, i))


def near(dom, value, cap, low=3):
    """Counter values explored: 0..low, around the capacity, and everything above it."""
    dom.assume(value >= 0)
    dom.assume(Or(value <= low, value >= cap - 1))


def c11_counts(dom, ver, path, cap, array, full):
    """The counter of one array takes every value; all other counters are 1."""
    obj, spec = make(dom, ver, "SStat")
    set_counters(dom, ver, spec, 1, keep=(path,))
    count = spec.value(path)
    if full:
        dom.assume(count >= 0)
    else:
        near(dom, count, cap)
    got = convert(dom, obj)
    where, name = array.rpartition(".")[0], array.rpartition(".")[2]
    view, item = spec, None
    for part in where.split("."):
        item = next(f for f in L.fields(view.ver, view.struct) if f["name"] == part)
        view = view.sub(item)
        if type(got) is not dict or part not in got:
            dom.expect(False, array, "missing")
            dom.flush()
            return
        got = got[part]
    item = next(f for f in L.fields(view.ver, view.struct) if f["name"] == name)
    if type(got) is not dict or name not in got:
        dom.expect(False, array, "missing")
        dom.flush()
        return
    compare.array(dom, got[name], view, item, array)
    # The other counted arrays of the same structure are unaffected.
    for other in L.named(view.ver, view.struct):
        if other["kind"] == "array" and other["name"] != name and other.get("counter"):
            val = got.get(other["name"])
            dom.expect(type(val) is list and len(val) == 1, "%s.%s" % (where, other["name"]), "number of entries")
    dom.flush()
    dom.witness("counted")


def c11_pair(dom, ver, high, low):
    """All counters at once: those of even rank at one value, the others at another."""
    obj, spec = make(dom, ver, "SStat")
    for rank, (path, _, _) in enumerate(L.counters(ver, spec.struct)):
        dom.bind(spec.value(path), high if rank % 2 else low)
    got = convert(dom, obj)
    compare.plain(dom, got, spec, "SStat")
    dom.witness("converted")


# --------------------------------------------------------------------------- C12-C14

# key -> where the value comes from: "h." header, "r." record, "s." system statistics, "t." task, "e." array entry;
# a tuple is a sum, ("K", path) KiB, ("text", path) text, ("flag", bit), ("byte", path), ("index",), ("const", value).
TIME = {"timestamp": "r.curtime", "interval": "r.interval"}

SYSTEM = {
    "CPL": {"procs": "s.cpu.nrcpu", "load_1": "s.cpu.lavg1", "load_5": "s.cpu.lavg5", "load_15": "s.cpu.lavg15",
            "context_switches": "s.cpu.csw", "interrupts": "s.cpu.devint"},
    "CPU": {"ticks": "h.hertz", "procs": "s.cpu.nrcpu", "system": "s.cpu.all.stime", "user": "s.cpu.all.utime",
            "niced": "s.cpu.all.ntime", "idle": "s.cpu.all.itime", "wait": "s.cpu.all.wtime",
            "irq": "s.cpu.all.Itime", "softirq": "s.cpu.all.Stime", "steal": "s.cpu.all.steal",
            "guest": "s.cpu.all.guest"},
    "MEM": {"page_size": "h.pagesize", "phys_mem": "s.mem.physmem", "free_mem": "s.mem.freemem",
            "page_cache": "s.mem.cachemem", "buffer_cache": "s.mem.buffermem", "slab": "s.mem.slabmem",
            "dirty_pages": "s.mem.cachedrt"},
    "NETU": {"name": ("const", "upper"), "tcp_pkt_received": "s.net.tcp.InSegs",
             "tcp_pkt_transmitted": "s.net.tcp.OutSegs",
             "udp_pkt_received": ("sum", "s.net.udpv4.InDatagrams", "s.net.udpv6.Udp6InDatagrams"),
             "udp_pkt_transmitted": ("sum", "s.net.udpv4.OutDatagrams", "s.net.udpv6.Udp6OutDatagrams"),
             "ip_pkt_received": ("sum", "s.net.ipv4.InReceives", "s.net.ipv6.Ip6InReceives"),
             "ip_pkt_transmitted": ("sum", "s.net.ipv4.OutRequests", "s.net.ipv6.Ip6OutRequests"),
             "ip_pkt_delivered": ("sum", "s.net.ipv4.InDelivers", "s.net.ipv6.Ip6InDelivers"),
             "ip_pkt_forwarded": ("sum", "s.net.ipv4.ForwDatagrams", "s.net.ipv6.Ip6OutForwDatagrams")},
    "PAG": {"page_size": "h.pagesize", "page_scans": "s.mem.pgscans", "alloc_stalls": "s.mem.allocstall",
            "swapins": "s.mem.swins", "swapouts": "s.mem.swouts"},
    "SWP": {"page_size": "h.pagesize", "swap": "s.mem.totswap", "free_swap": "s.mem.freeswap",
            "committed_space": "s.mem.committed", "committed_limit": "s.mem.commitlim"},
}

CORES = {"cpu": ("cpu.cpu", {
    "ticks": "h.hertz", "proc": ("index",), "system": "e.stime", "user": "e.utime", "niced": "e.ntime",
    "idle": "e.itime", "wait": "e.wtime", "irq": "e.Itime", "softirq": "e.Stime", "steal": "e.steal",
    "guest": "e.guest"})}

_DISK = {"name": ("text", "e.name"), "io_ms": "e.io_ms", "reads": "e.nread", "read_sectors": "e.nrsect",
         "writes": "e.nwrite", "write_sectors": "e.nwsect"}
DEVICES = {
    "DSK": ("dsk.dsk", _DISK), "LVM": ("dsk.lvm", _DISK), "MDD": ("dsk.mdd", _DISK),
    "NETL": ("intf.intf", {"name": ("text", "e.name"), "pkt_received": "e.rpack", "byte_received": "e.rbyte",
                           "pkt_transmitted": "e.spack", "bytes_transmitted": "e.sbyte", "speed": "e.speed",
                           "duplex": ("byte", "e.duplex")}),
}

_TASK = {"pid": "t.gen.pid", "name": ("text", "t.gen.name"), "state": ("text", "t.gen.state")}
TASKS = {
    "PRC": dict(_TASK, ticks="h.hertz", user_consumption="t.cpu.utime", system_consumption="t.cpu.stime",
                nice="t.cpu.nice", priority="t.cpu.prio", priority_realtime="t.cpu.rtprio", policy="t.cpu.policy",
                cpu="t.cpu.curcpu", sleep="t.cpu.sleepavg"),
    "PRD": dict(_TASK, kernel_patch=("flag", 2), standard_io=("flag", 4), reads="t.dsk.rio", read_sectors="t.dsk.rsz",
                writes="t.dsk.wio", written_sectors="t.dsk.wsz", cancelled_sector_writes="t.dsk.cwsz"),
    "PRG": dict(_TASK, real_uid="t.gen.ruid", real_gid="t.gen.rgid", tgid="t.gen.pid", threads="t.gen.nthr",
                exit_code="t.gen.excode", start_time="t.gen.btime", cmd=("text", "t.gen.cmdline"),
                ppid="t.gen.ppid", running_threads="t.gen.nthrrun", sleeping_threads="t.gen.nthrslpi",
                dead_threads="t.gen.nthrslpu", effective_uid="t.gen.euid", effective_gid="t.gen.egid",
                saved_uid="t.gen.suid", saved_gid="t.gen.sgid", filesystem_uid="t.gen.fsuid",
                filesystem_gid="t.gen.fsgid", elapsed_time="t.gen.elaps"),
    "PRM": dict(_TASK, page="h.pagesize", vsize=("K", "t.mem.vmem"), rsize=("K", "t.mem.rmem"),
                ssize=("K", "t.mem.shtext"), vgrowth=("K", "t.mem.vgrow"), rgrowth=("K", "t.mem.rgrow"),
                minor_faults="t.mem.minflt", major_faults="t.mem.majflt"),
    "PRN": dict(_TASK, kernel_patch=("flag", 2), tcp_transmitted="t.net.tcpsnd", tcp_transmitted_size="t.net.tcpssz",
                tcp_received="t.net.tcprcv", tcp_received_size="t.net.tcprsz", udp_transmitted="t.net.udpsnd",
                udp_transmitted_size="t.net.udpssz", udp_received="t.net.udprcv", udp_received_size="t.net.udprsz",
                raw_transmitted="t.net.rawsnd", raw_received="t.net.rawrcv"),
}
# Parseables that show support flags (one path per combination of flags).
FLAGGED = [name for name, rules in TASKS.items() if any(rule[0] == "flag" for rule in rules.values())]
PARSEABLES = sorted(list(SYSTEM) + list(CORES) + list(DEVICES) + list(TASKS))


def parser(dom, name):
    mod = dom.call(dom.package, "atoparser.parsers.atop_1_26")
    dom.expect(mod.ok, "parsers", mod.describe())
    func = dom.call(getattr, mod.value, "parse_" + name)
    dom.expect(func.ok, "parse_" + name, func.describe())
    dom.flush()
    return func.value


def expected(dom, rule, views, index=None):
    """The value an entry must report under a rule of the tables."""
    if isinstance(rule, str):
        view = views[rule[0]]
        return view.value(rule[2:])
    kind = rule[0]
    if kind == "const":
        return rule[1]
    if kind == "index":
        return index
    if kind == "sum":
        return sum((expected(dom, r, views) for r in rule[1:]), 0)
    if kind == "K":
        return expected(dom, rule[1], views) * 1024
    if kind == "text":
        return dom.decoded(expected(dom, rule[1], views))
    if kind == "byte":
        view = views[rule[1][0]]
        off, item = L.find(view.ver, view.struct, rule[1][2:])
        return view.data.int(view.off + off, 1, False)
    if kind == "flag":
        flags = views["h"].value("supportflags")
        # Bit `rule[1]` of the flags, from the byte that holds it.
        return "y" if (flags // rule[1]) % 2 == 1 else "n"
    raise NotImplementedError(kind)


def entry(dom, got, rules, views, label, index=None, extra=()):
    rules = dict(TIME, **rules)
    if type(got) is not dict:
        dom.expect(False, label, "not a dict: %s" % type(got).__name__)
        return
    have = {key for key in got if type(key) is str} - set(extra)
    if have != set(rules) or len(got) != len(have) + len(extra):
        dom.expect(False, label, "keys: missing %s, extra %s" % (sorted(set(rules) - have), sorted(have - set(rules))))
    for key, rule in rules.items():
        if key in have:
            dom.same(got[key], expected(dom, rule, views, index), label + "." + key)


class Scene:
    """Header, record, system statistics and tasks of an arbitrary 1.26 sample."""

    def __init__(self, dom, ntasks=0, ver="1.26"):
        self.dom = dom
        self.hdr, header = logs.header(dom, ver)
        self.rec, record = instance(dom, ver, "Record", self.hdr, "R")
        self.sst, sstat = instance(dom, ver, "SStat", self.hdr, "S")
        self.tasks, self.tviews = [], []
        for i in range(ntasks):
            task, view = instance(dom, ver, "TStat", self.hdr, "T%d" % i)
            self.tasks.append(task)
            self.tviews.append(view)
        self.views = {"h": header, "r": record, "s": sstat}

    def parse(self, name):
        dom = self.dom
        func = parser(dom, name)
        out = dom.call(lambda: list(func(self.hdr, self.rec, self.sst, list(self.tasks))))
        dom.expect(out.ok, name, out.describe())
        dom.flush()
        return out.value


def c12_system(dom, name):
    scene = Scene(dom, 1)
    got = scene.parse(name)
    dom.expect(len(got) == 1, name, "%d entries" % len(got))
    dom.flush()
    entry(dom, got[0], SYSTEM[name], scene.views, name)
    dom.witness("one entry")


def c12_cores(dom, full):
    scene = Scene(dom, 1)
    path, rules = CORES["cpu"]
    count = scene.views["s"].value("cpu.nrcpu")
    off, item = L.find("1.26", L.root("1.26", "SStat"), path)
    if full:
        dom.assume(count >= 0)
    else:
        near(dom, count, item["count"], 2)
    got = scene.parse("cpu")
    want = item["count"]
    if count < want:
        want = count
    dom.expect(want == len(got), "cpu", "%d entries" % len(got))
    dom.flush()
    for i, item_ in enumerate(got):
        views = dict(scene.views, e=_element(scene, path, i))
        entry(dom, item_, rules, views, "cpu[%d]" % i, i)
    dom.witness("cores")


def _element(scene, path, index):
    view = scene.views["s"]
    *parents, last = path.split(".")
    for part in parents:
        view = view.sub(next(f for f in L.fields(view.ver, view.struct) if f["name"] == part))
    return view.sub(next(f for f in L.fields(view.ver, view.struct) if f["name"] == last), index)


def c13_devices(dom, name, depth):
    """Devices up to the first empty name: depth 0 explores 0-4 devices, -1 a full array, -2 all but one, -3 any."""
    scene = Scene(dom, 1)
    path, rules = DEVICES[name]
    _, item = L.find("1.26", L.root("1.26", "SStat"), path)
    cap = item["count"]
    noff, _ = L.find("1.26", item["struct"], "name")

    def empty(i):
        view = _element(scene, path, i)
        return view.data.int(view.off + noff, 1, False) == 0

    want = 0
    if depth == 0:
        while want < 4 and not empty(want):
            want += 1
        if want == 4:
            dom.assume(empty(4))
    elif depth == -3:
        while want < cap and not empty(want):
            want += 1
    else:
        want = cap if depth == -1 else cap - 1
        for i in range(want):
            dom.assume(Not(empty(i)))
        if want < cap:
            dom.assume(empty(want))
    dom.settle()
    got = scene.parse(name)
    dom.expect(len(got) == want, name, "%d entries instead of %d" % (len(got), want))
    dom.flush()
    for i, item_ in enumerate(got[:want]):
        views = dict(scene.views, e=_element(scene, path, i))
        entry(dom, item_, rules, views, "%s[%d]" % (name, i))
    dom.witness("devices")


def c14_tasks(dom, name, count):
    scene = Scene(dom, count)
    got = scene.parse(name)
    dom.expect(len(got) == count, name, "%d entries instead of %d" % (len(got), count))
    dom.flush()
    for i in range(min(count, len(got))):
        entry(dom, got[i], TASKS[name], dict(scene.views, t=scene.tviews[i]), "%s[%d]" % (name, i))
    dom.witness("tasks")


# --------------------------------------------------------------------------- C15


def c15_convert(dom, ver, kind):
    """Arbitrary bytes in every text field: conversion completes with the decodable part of each."""
    obj, spec = make(dom, ver, kind)
    set_counters(dom, ver, spec, 2)
    got = convert(dom, obj)
    texts(dom, got, spec, kind)
    dom.witness("converted")


def texts(dom, got, view, label):
    """Only the text fields of a converted structure."""
    for item in L.named(view.ver, view.struct):
        name = label + "." + item["name"]
        kind = item["kind"]
        if kind not in ("struct", "array", "text", "char"):
            continue
        if type(got) is not dict or item["name"] not in got:
            dom.expect(False, name, "missing")
            continue
        val = got[item["name"]]
        if kind == "struct":
            texts(dom, val, view.sub(item), name)
        elif kind == "array":
            if type(val) is not list:
                dom.expect(False, name, "not a list")
                continue
            for i, elem in enumerate(val[:item["count"]]):
                texts(dom, elem, view.sub(item, i), "%s[%d]" % (name, i))
        else:
            dom.same(val, dom.decoded(view.leaf(item)), name)


def c15_parseable(dom, name):
    """Every parseable completes whatever the text fields hold, and reports the decodable part."""
    scene = Scene(dom, 2)
    dom.bind(scene.views["s"].value("cpu.nrcpu"), 2)
    if name in DEVICES:
        path, rules = DEVICES[name]
        _, item = L.find("1.26", L.root("1.26", "SStat"), path)
        noff, _ = L.find("1.26", item["struct"], "name")
        for i in range(3):
            view = _element(scene, path, i)
            first = view.data.int(view.off + noff, 1, False)
            dom.assume(first == 0 if i == 2 else first != 0)
        dom.settle()
    got = scene.parse(name)
    if name in DEVICES:
        rules, views = DEVICES[name][1], [dict(scene.views, e=_element(scene, DEVICES[name][0], i)) for i in range(2)]
    elif name in TASKS:
        rules, views = TASKS[name], [dict(scene.views, t=scene.tviews[i]) for i in range(2)]
    else:
        rules, views = {}, []
    for i, (item, where) in enumerate(zip(got, views)):
        for key, rule in rules.items():
            if rule[0] == "text":
                if type(item) is not dict or key not in item:
                    dom.expect(False, name, "no " + key)
                    continue
                dom.same(item[key], expected(dom, rule, where), "%s[%d].%s" % (name, i, key))
    dom.expect(len(got) >= 1, name, "no entry")
    dom.witness("completed")


def c15_log(dom, ver):
    """A whole log with arbitrary text: iteration and conversion of every structure complete."""
    file = dom.file("F")
    logs.bind_header(dom, ver, file.view)
    smp = logs.Sample(dom, ver, file, logs.HEADER_SIZE)
    ntasks, ncgroups = smp.complete(1, 1, empty_sections=False)
    dom.assume(file.size == smp.end)
    set_counters(dom, ver, smp.sstat(), 1)
    for _, _, procs in smp.cgroups(ncgroups)[0] if ncgroups else ():
        dom.assume(procs <= 1)
    dom.settle()
    pkg = dom.package()
    fh = dom.open(file)
    hdr = dom.call(pkg.get_header, fh)
    dom.expect(hdr.ok, "header", hdr.describe())
    dom.flush()
    got, end = logs.drain(dom, pkg.generate_statistics(fh, hdr.value), 2)
    dom.expect(len(got) == 1, "samples", "%d" % len(got))
    dom.flush()
    record, sstat, tasks, cgroups = got[0][0]
    texts(dom, convert(dom, hdr.value), View.root(ver, "Header", file.view), "Header")
    texts(dom, convert(dom, record), smp.rec, "Record")
    texts(dom, convert(dom, sstat), smp.sstat(), "SStat")
    for i in range(ntasks):
        texts(dom, convert(dom, tasks[i]), smp.task(i), "TStat")
    if ncgroups:
        spec, _ = smp.cgroups(ncgroups)
        for i in range(ncgroups):
            got_ = convert(dom, cgroups[i])
            texts(dom, got_["cstat"], spec[i][0], "CStat")
    dom.witness("converted")
