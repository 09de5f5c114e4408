"""Harnesses C22 and C23: reporting is pure, and threads do not disturb each other."""
from . import compare, layout as L, logs
from .compare import View
from .logs import drain
from .props2 import CORES, DEVICES, PARSEABLES, SYSTEM, TASKS, Scene, convert, entry, instance, make, parser, set_counters
from .props2 import _element as element
from .props3 import Log, judge, opened, step

# --------------------------------------------------------------------------- what is expected of a parseable


class Arranged(Scene):
    """A 1.26 sample with a constant number of cores, devices and tasks."""

    def __init__(self, dom, count, tag=""):
        self.dom, self.count = dom, count
        file = dom.file("H" + tag, logs.HEADER_SIZE)
        self.hview = logs.bind_header(dom, "1.26", file.view)
        self.hfile = file
        self.names = tag
        self.views = {}
        self.parts = []
        self.tasks, self.tviews = [], []

    def build(self):
        """The structures, as the package's own."""
        dom = self.dom
        pkg = dom.package()
        out = dom.call(pkg.get_header, dom.open(self.hfile))
        dom.expect(out.ok, "header", out.describe())
        dom.flush()
        self.hdr = out.value
        self.rec, record = self.part("Record", "R")
        self.sst, sstat = self.part("SStat", "S")
        for i in range(self.count):
            task, view = self.part("TStat", "T%d" % i)
            self.tasks.append(task)
            self.tviews.append(view)
        self.views = {"h": self.hview, "r": record, "s": sstat}
        dom.bind(sstat.value("cpu.nrcpu"), self.count)
        for name in DEVICES:
            path = DEVICES[name][0]
            _, item = L.find("1.26", L.root("1.26", "SStat"), path)
            noff, _ = L.find("1.26", item["struct"], "name")
            for i in range(self.count + 1):
                view = element(self, path, i)
                first = view.data.int(view.off + noff, 1, False)
                dom.assume(first == 0 if i == self.count else first != 0)
        return self

    def part(self, kind, name):
        obj, spec = instance(self.dom, "1.26", kind, self.hdr, name + self.names)
        self.parts.append((kind, obj, spec))
        return obj, spec

    def start(self, name):
        """An iterator over the entries of a parseable."""
        dom = self.dom
        func = parser(dom, name)
        out = dom.call(lambda: iter(func(self.hdr, self.rec, self.sst, self.tasks)))
        dom.expect(out.ok, name, out.describe())
        dom.flush()
        return out.value

    def wanted(self, name):
        """(rules, views, index) of every entry."""
        if name in SYSTEM:
            return [(SYSTEM[name], self.views, None)]
        if name in CORES:
            path, rules = CORES[name]
            return [(rules, dict(self.views, e=element(self, path, i)), i) for i in range(self.count)]
        if name in DEVICES:
            path, rules = DEVICES[name]
            return [(rules, dict(self.views, e=element(self, path, i)), i) for i in range(self.count)]
        return [(TASKS[name], dict(self.views, t=view), i) for i, view in enumerate(self.tviews)]

    def judge(self, got, name, label):
        dom, want = self.dom, self.wanted(name)
        dom.expect(len(got) == len(want), label, "%d entries" % len(got))
        dom.flush()
        for i, (item, (rules, views, index)) in enumerate(zip(got, want)):
            entry(dom, item, rules, views, "%s[%d]" % (label, i), index)
        dom.flush()

    def unchanged(self, label):
        dom = self.dom
        compare.struct(dom, self.hdr, self.hview, label + ".header")
        for kind, obj, spec in self.parts:
            compare.struct(dom, obj, spec, label + "." + kind)
        dom.expect(len(self.tasks) == self.count, label + ".tasks", "%d" % len(self.tasks))
        dom.flush()


def scribble(obj):
    """The caller uses a result for purposes of its own."""
    if type(obj) is dict:
        for val in list(obj.values()):
            scribble(val)
        obj.clear()
        obj["timestamp"] = obj["caller"] = "changed by the caller"
    elif type(obj) is list:
        for val in list(obj):
            scribble(val)
        del obj[:]
        obj.append("changed by the caller")


# --------------------------------------------------------------------------- C22


def c22_parseables(dom, name, other):
    """A parseable asked for again, in turns with itself on another sample and with another parseable."""
    one, two = Arranged(dom, 2, "a").build(), Arranged(dom, 2, "b").build()
    dom.settle()
    first = list(one.start(name))
    kept = list(one.start(other))
    # In turns: the same parseable of two samples, and another one of the first.
    turns = [[one.start(name), [], name, one], [two.start(name), [], name, two], [one.start(other), [], other, one]]
    live = list(turns)
    while live:
        for turn in list(live):
            out = dom.call(next, turn[0])
            if out.ok:
                turn[1].append(out.value)
            else:
                dom.expect(out.raised(StopIteration), name, out.describe())
                live.remove(turn)
    dom.flush()
    for _, got, what, scene in turns:
        scene.judge(got, what, "in turns." + what)
    one.judge(first, name, "kept." + name)
    one.judge(kept, other, "kept." + other)
    scribble(first)
    scribble(turns[0][1])
    two.judge(turns[1][1], name, "own." + name)
    one.judge(list(one.start(name)), name, "again." + name)
    one.unchanged("sample")
    dom.witness("pure")


def c22_sample(dom, names):
    """All parseables and conversions of one sample, twice, in both orders: the sample stays as it was."""
    scene = Arranged(dom, 1).build()
    spec = scene.views["s"]
    set_counters(dom, "1.26", spec, 1, keep=("cpu.nrcpu",))
    dom.settle()

    def conversions(label):
        for kind, obj, view in scene.parts:
            got = convert(dom, obj)
            compare.plain(dom, got, view, label + "." + kind)
            scribble(got)

    for name in names:
        scene.judge(list(scene.start(name)), name, "first." + name)
    conversions("first")
    scene.unchanged("between")
    conversions("second")
    for name in names[::-1]:
        got = list(scene.start(name))
        scene.judge(got, name, "second." + name)
        scribble(got)
    scene.unchanged("after")
    dom.witness("pure")


def c22_convert(dom, ver, kind):
    """Two structures converted in turns; the caller changes the results."""
    one, spec1 = make(dom, ver, kind, kind + "1")
    two, spec2 = make(dom, ver, kind, kind + "2")
    for spec in (spec1, spec2):
        set_counters(dom, ver, spec, 1)
    dom.settle()
    first, second, third = convert(dom, one), convert(dom, two), convert(dom, one)
    compare.plain(dom, first, spec1, kind + ".first")
    scribble(first)
    compare.plain(dom, second, spec2, kind + ".second")
    compare.plain(dom, third, spec1, kind + ".third")
    scribble(second)
    compare.plain(dom, convert(dom, two), spec2, kind + ".again")
    compare.struct(dom, one, spec1, kind + ".struct")
    dom.witness("pure")


def c22_lists(dom, ver):
    """The caller changes the lists of each sample while it reads on; then the log is read again."""
    log = Log(dom, "F", ver, 2, fixed=True)
    dom.settle()
    for turn in ("first", "again"):
        hdr, gen = opened(dom, log)
        got = []
        for i in range(2):
            item = step(dom, gen, "%s[%d]" % (turn, i))
            judge(dom, _Tail(log, i), hdr, [item], "%s[%d]" % (turn, i))
            got.append(item)
            for part in item if isinstance(item, tuple) else ():
                if type(part) is list:
                    part.append("added by the caller")
                    part.reverse()
        end = dom.call(next, gen)
        dom.expect(end.raised(StopIteration), turn + ".end", end.describe())
        for i, item in enumerate(got):
            smp, ntasks, ncgroups = log.samples[i]
            for part, count in zip(item[2:], (ntasks, ncgroups)):
                if type(part) is list:
                    dom.expect(len(part) == count + 1 and part[0] == "added by the caller", turn + ".own", "changed")
                    del part[0]
                    part.reverse()
            smp.compare(item, ntasks, ncgroups, "%s.kept[%d]" % (turn, i))
        dom.flush()
    dom.witness("fresh")


class _Tail:
    """The log from its i-th sample on."""

    def __init__(self, log, i):
        self.header, self.version, self.samples = log.header, log.version, log.samples[i:i + 1]


# --------------------------------------------------------------------------- C23


class Reading:
    """A thread that reads a whole log."""

    def __init__(self, dom, tag, ver):
        self.dom, self.tag = dom, tag
        self.log = Log(dom, "F" + tag, ver, 1, fixed=True, tasks=1)

    def prepare(self):
        self.dom.package()
        self.raw = self.dom.open(self.log.file)

    def run(self):
        dom, pkg = self.dom, self.dom.package()
        self.header = dom.call(pkg.get_header, self.raw)
        if self.header.ok:
            self.got, self.end = drain(dom, pkg.generate_statistics(self.raw, self.header.value), 2)

    def judge(self):
        dom, label = self.dom, "thread " + self.tag
        dom.expect(self.header.ok, label + ".header", self.header.describe())
        dom.flush()
        dom.expect(len(self.got) == 1, label, "%d samples" % len(self.got))
        dom.expect(self.end is not None and self.end.raised(StopIteration), label + ".end",
                   self.end.describe() if self.end is not None else "more samples")
        dom.flush()
        judge(dom, self.log, self.header.value, [item for item, _ in self.got], label)


class Converting:
    """A thread that converts structures to dictionaries."""

    def __init__(self, dom, tag, ver, kinds=("Header", "Record", "TStat")):
        self.dom, self.tag, self.ver, self.kinds = dom, tag, ver, kinds

    def prepare(self):
        self.parts = []
        hdr, header = logs.header(self.dom, self.ver, "H" + self.tag)
        for kind in self.kinds:
            obj, spec = (hdr, header) if kind == "Header" else instance(self.dom, self.ver, kind, hdr, kind + self.tag)
            set_counters(self.dom, self.ver, spec, 1)
            self.parts.append((kind, obj, spec))

    def run(self):
        func = self.dom.package().struct_to_dict
        self.got = [self.dom.call(func, obj) for _, obj, _ in self.parts]

    def judge(self):
        dom, label = self.dom, "thread " + self.tag
        for (kind, _, spec), out in zip(self.parts, self.got):
            dom.expect(out.ok, label, out.describe())
            dom.flush()
            compare.plain(dom, out.value, spec, label + "." + kind)
        dom.flush()


class Reporting:
    """A thread that asks for parseables."""

    def __init__(self, dom, tag, names):
        self.dom, self.tag, self.names = dom, tag, names
        self.scene = Arranged(dom, 2 if len(names) == 1 else 1, tag)

    def prepare(self):
        self.scene.build()
        self.funcs = [parser(self.dom, name) for name in self.names]

    def run(self):
        scene = self.scene
        self.got = [self.dom.call(lambda f=func: list(f(scene.hdr, scene.rec, scene.sst, scene.tasks)))
                    for func in self.funcs]

    def judge(self):
        dom = self.dom
        for name, out in zip(self.names, self.got):
            label = "thread %s.%s" % (self.tag, name)
            dom.expect(out.ok, label, out.describe())
            dom.flush()
            self.scene.judge(out.value, name, label)


def activity(dom, tag, what):
    if what in L.VERSIONS:
        return Reading(dom, tag, what)
    kind, _, arg = what.partition(" ")
    if kind == "convert":
        return Converting(dom, tag, arg)
    if kind == "sstat":
        return Converting(dom, tag, arg, ("SStat",))
    return Reporting(dom, tag, arg.split())


def c23_threads(dom, first, second, visits=2, back=False, share=None):
    """The first thread is interrupted at any one point, at which the second runs: to its end, or (back) up to any one
    point of its own, from where the first runs to its end before the second goes on."""
    switch = dom.interruption(visits, back, share)
    one, two = activity(dom, "A", first), activity(dom, "B", second)
    dom.settle()
    one.prepare()
    two.prepare()
    dom.settle()
    switch.run(one.run, two.run)
    one.judge()
    two.judge()
    dom.witness("interrupted" if switch.interrupted else "one after the other")
