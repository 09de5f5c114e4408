"""Which harness instances decide which property, within which bounds."""
from . import layout as L, props1, props10, props11, props2, props3, props4, props5, props6, props7, props8, props9

MODULES = {"props1": props1, "props2": props2, "props3": props3, "props4": props4, "props5": props5,
           "props6": props6, "props7": props7, "props8": props8, "props9": props9, "props10": props10, "props11": props11}
OFFERED = props3.OFFERED
V = L.VERSIONS
CG = L.CG_VERSIONS

STUBS = ("ctypes structures, binary files, zlib, gzip, struct, json output and stdout are modelled by the engine (DESIGN.md); "
         "the models are exercised against the real ones by setup_cmd and by the replayed traces")
ZLIB = ("zlib is an uninterpreted function of the start position: validity, compressed length, output length and "
        "output are arbitrary; output is at most 1032 times the input; a stream needs all of its bytes")
SPEC = "layouts.json, generated by gcc from C declarations transcribed from Atop's headers, states the x86-64 layout"


def harness(name):
    mod, _, func = name.partition(".")
    return getattr(MODULES[mod], func)


def title(task):
    return "%s(%s)" % (task["harness"], ", ".join(str(a) for a in task["args"]))


def T(name, *args, **kwargs):
    return dict(harness=name, args=list(args), **kwargs)


def tasks(pid, tier):
    return [t for t in PROPERTIES[pid]["tasks"](tier == "thorough")]


def c01(deep):
    return [T("props1.c01_header", v, check, reach=["header compared"]) for v in V for check in (True, False)]


def c02(deep):
    reach = ["rejected: wrong magic", "rejected: incomplete header", "accepted own", "accepted newest"]
    return [T("props1.c02_accept", check, reach=reach) for check in (None, True, False)] + \
        [T("props1.c02_unknown", reach=["read as newest"])] + \
        [T("props1.c02_again", v, earlier, reach=reach[:3]) for v in V
         for earlier in ("accepted", "refused", "unchecked")]


def c03(deep):
    return [T("props1.c03_record", v, reach=["record: complete", "record: short"]) for v in V]


def c04(deep):
    return [T("props1.c04_sstat", v, reach=["decoded", "short", "damaged"]) for v in V]


def c05(deep):
    out = []
    counts = [255, 256, 257, 1000, 4096]
    if deep:
        counts += [32767, 32768, 65535, 65536, 65537, 70000, 131073, 200000]
    for i, v in enumerate(V):
        out.append(T("props1.c05_tasks", v, "equal", reach=["decoded", "short", "damaged"]))
        out.append(T("props1.c05_tasks", v, "longer", reach=["decoded", "short", "damaged"]))
        most = 6 if deep else 2
        for one_more in (True, False):
            out.append(T("props1.c05_oversized", v, most, one_more, reach=["%d whole" % n for n in range(most + 1)]))
        for n in counts:
            out.append(T("props1.c05_tasks", v, n, reach=["decoded"], weight=1 + n / 1000, samples=1,
                         no_validation=n > 300))
    if not deep:
        for v in (V[0], V[1], V[-1]):
            for n in (32768, 65537):
                out.append(T("props1.c05_tasks", v, n, reach=["decoded"], weight=1 + n / 1000, samples=1,
                             no_validation=True))
    return out


def c06(deep):
    out = []
    for v in CG:
        out.append(T("props1.c06_cgroups", v, "sym", reach=["decoded", "damaged"], weight=3))
        most = 4 if deep else 2
        for one_more in (True, False):
            out.append(T("props1.c06_oversized", v, most, one_more, weight=3,
                         reach=["%s %d" % (kind, n) for n in range(most + 1) for kind in ("entry", "ids")]))
        for n in [17, 100, 256, 1000] + ([4096, 10000] if deep else []):
            out.append(T("props1.c06_cgroups", v, n, reach=["decoded"], weight=4 + n / 100, samples=1,
                         no_validation=n > 300))
        if deep:
            out.append(T("props1.c06_cgroups", v, "sym5", reach=["decoded"], weight=50))
    return out


def c07(deep):
    out = [T("props1.c07_rejected", reach=["not iterated"])]
    for v in V:
        for own in (False, True):
            out.append(T("props1.c07_framing", v, 2, own, reach=["2 samples"], weight=3))
        out.append(T("props1.c07_framing", v, 1, False, 3, 2, reach=["1 samples"], weight=5))
        out.append(T("props1.c07_framing", v, 0, True, reach=["0 samples"]))
        out.append(T("props1.c07_manual", v, reach=["sections"]))
        most = 1100 if deep else 270
        out.append(T("props1.c07_long", v, most, reach=["%d samples" % most], weight=most / 8, samples=int(most < 100),
                     no_validation=most > 100))
        if deep:
            out.append(T("props1.c07_framing", v, 3, False, 2, 2, reach=["3 samples"], weight=50))
            out.append(T("props1.c07_framing", v, 4, True, 1, 1, reach=["4 samples"], weight=50))
    return out


def c08(deep):
    out = []
    for v in V:
        for flag in (None, True, False):
            out.append(T("props1.c08_cut", v, 1, True, flag, weight=4))
        out.append(T("props1.c08_cut", v, 2, False, None, weight=18))
        out.append(T("props1.c08_cut", v, 2, False, False, weight=18))
        out.append(T("props1.c08_cut", v, 1, False, None, True, weight=4))
        out.append(T("props1.c08_cut", v, 1 if deep or v in (V[0], V[-1]) else 0, True, False, True, 200 if deep else 25,
                     weight=30))
        for which in range(3 if v in CG else 2):
            for flag in (None, False):
                out.append(T("props1.c08_short", v, which, flag, reach=["short payload"]))
        for flag in (None, False):
            out.append(T("props1.c08_ioerror", v, flag, reach=["I/O error"]))
        if deep:
            for flag in (True, False):
                out.append(T("props1.c08_cut", v, 2, True, flag, weight=60))
                out.append(T("props1.c08_cut", v, 3, False, flag, weight=90))
    return out


def c09(deep):
    out = []
    for v in V:
        out.append(T("props1.c09_limit", v, 2, reach=["limit reached", "limit not reached"], weight=2))
        out.append(T("props1.c09_limit", v, 1, True, reach=["limit reached", "limit not reached"]))
        out.append(T("props1.c09_limit", v, 80 if deep else 30, reach=["limit reached", "limit not reached"], weight=3))
        if deep:
            out.append(T("props1.c09_limit", v, 4, reach=["limit reached", "limit not reached"], weight=30))
        if deep or v in (V[0], V[3], V[-1]):
            out.append(T("props1.c09_default", v, reach=["default limit"], weight=20, no_validation=True,
                         replay_s=400))
    return out


def c10(deep):
    out = []
    for v in V:
        for kind in props2.kinds(v):
            for n in (0, 1, 3) + ((2, 7, 1 << 40) if deep else ()) if kind == "SStat" else (1,):
                size = {"SStat": 8, "TStat": 2}.get(kind, 1)
                out.append(T("props2.c10_dict", v, kind, n, reach=["converted"], weight=size))
            out.append(T("props2.c10_nested", v, kind, reach=["converted"], weight=3))
        if v in CG:
            out.append(T("props2.c10_cgroup", v, 8 if deep else 4, reach=["converted"]))
    return out


def c11(deep):
    out = []
    for v in V:
        for path, cap, array in L.counters(v, L.root(v, "SStat")):
            out.append(T("props2.c11_counts", v, path, cap, array, deep, reach=["counted"], weight=cap / 100))
        for high, low in ((0, 2), (2, 0)) + (((5, 1), (1, 5), (1 << 20, 1), (1, 1 << 20)) if deep else ()):
            out.append(T("props2.c11_pair", v, high, low, reach=["converted"], weight=5))
    return out


def c12(deep):
    return [T("props2.c12_system", name, reach=["one entry"]) for name in props2.SYSTEM] + \
        [T("props2.c12_cores", True, reach=["cores"], weight=5)]


def c13(deep):
    return [T("props2.c13_devices", name, -3, reach=["devices"], weight=10) for name in props2.DEVICES]


def c14(deep):
    out = [T("props2.c14_tasks", name, n, reach=["tasks"]) for name in props2.TASKS
           for n in (0, 1, 2, 3) + ((5, 8, 12, 20) if deep else (6,))]
    for name in props2.TASKS:
        for n in (100, 300) + ((1000, 5000) if deep else ()):
            if name not in props2.FLAGGED:
                out.append(T("props2.c14_tasks", name, n, reach=["tasks"], weight=2 + n / 10, samples=1,
                             no_validation=n > 300))
    return out


def c15(deep):
    out = []
    for v in V:
        out += [T("props2.c15_convert", v, kind, reach=["converted"]) for kind in props2.kinds(v)]
        out.append(T("props2.c15_log", v, reach=["converted"], weight=3))
    out += [T("props2.c15_parseable", name, reach=["completed"]) for name in props2.PARSEABLES]
    return out


def c16(deep):
    out = []
    for i, v in enumerate(V):
        for j, ending in enumerate(("exact", "cut", "damage")):
            out.append(T("props3.c16_full", v, 1, ending, (i + j) % 4, True, True, bool((i + j) % 2), weight=8))
            out.append(T("props3.c16_full", v, 0, ending, (i + j + 1) % 4, bool(i % 2), False))
            for tasks, cgroups in ((False, False), (True, False), (False, True)):
                if deep or (j == 0 and v in (V[0], V[5], V[-2], V[-1])):
                    out.append(T("props3.c16_full", v, 1, ending, (i + j) % 4, tasks, cgroups, bool(j % 2), weight=8))
        out.append(T("props3.c16_full", v, 2, "exact", i % 4, True, True, weight=10))
        if deep:
            out.append(T("props3.c16_full", v, 2, "cut", i % 4, True, True, weight=40))
            out.append(T("props3.c16_full", v, 3, "exact", (i + 1) % 4, True, True, weight=40))
        most = 270 if deep else 100
        out.append(T("props3.c16_long", v, most, i % 4, [], True, True, reach=["%d samples" % most], weight=3))
        if v != "1.26":
            for n, req in enumerate((["CPU"], ["PRG", "cpu"])):
                out.append(T("props3.c16_refused", v, (i + n) % 4, req, reach=["refused"]))
    for n, version in enumerate(("2.13", "3.0", "1.27", "2.2")):
        out.append(T("props3.c16_refused", V[-1], n % 4, ["MEM"], version, reach=["refused"]))
        out.append(T("props3.c16_full", V[-1], 1, "exact", n % 4, True, True, False, version, weight=5))
    names = props3.OFFERED
    for i, name in enumerate(names):
        for j, ending in enumerate(("exact", "cut", "damage")):
            out.append(T("props3.c16_parse", 1, ending, (i + j) % 4, [name], bool((i + j) % 2), weight=4))
        out.append(T("props3.c16_parse", 0, "cut", i % 4, [name]))
        out.append(T("props3.c16_parse", 2, "exact", i % 4, [names[(i + 4) % 15], name], weight=4))
        if deep:
            for other in names:
                out.append(T("props3.c16_parse", 1, "exact", i % 4, [name, other], weight=2))
            out.append(T("props3.c16_parse", 2, "cut", i % 4, [name], weight=10))
            out.append(T("props3.c16_parse", 3, "exact", i % 4, [name], weight=10))
        out.append(T("props3.c16_pretty", "1.26", 1, [name], False, False, reach=["printed both ways"], weight=2))
    for i, v in enumerate(V):
        out.append(T("props3.c16_pretty", v, 1, [], True, True, reach=["printed both ways"], weight=4))
        out.append(T("props3.c16_pretty", v, 2, [], bool(i % 2), False, reach=["printed both ways"], weight=4))
        if v != "1.26":
            out.append(T("props3.c16_pretty", v, 0, ["CPU"], False, False, reach=["printed both ways"]))
    for req in (["PRC", "CPL", "DSK"], ["NETL", "PRM"], ["CPU", "SWP", "LVM", "PRN"]):
        out.append(T("props3.c16_long", "1.26", 1100 if deep else 270, 0, req, weight=3))
    for req in (["CPL", "CPL"], ["cpu", "CPU", "cpu"], ["PRG", "DSK", "DSK"]):
        out.append(T("props3.c16_parse", 1, "exact", 0, req, weight=4))
    out.append(T("props3.c16_parse", 1, "exact", 0, names, weight=10))
    out.append(T("props3.c16_parse", 1, "exact", 1, names[::-1], weight=10))
    return out


def c17(deep):
    out = []
    pairs = [["1.26", "2.12"], ["2.11", "2.3"], ["1.26", "1.26"]]
    if deep:
        pairs += [[v, "2.12"] for v in V[1:]] + [["1.26", v] for v in V[1:-1]] + [["1.26", "2.12", "2.5"]]
    for place in ("after", "before", "mixed"):
        for versions in pairs:
            out.append(T("props3.c17_options", versions, [], place, weight=4))
            out.append(T("props3.c17_options", versions, ["CPU", "DSK"], place, weight=4))
            if deep or versions == pairs[0]:
                out.append(T("props3.c17_options", versions, ["PRM", "cpu", "PRM"], place, weight=4))
        for v in ("1.26", "2.12") if not deep else V:
            out.append(T("props3.c17_options", [v], [], place, True, weight=2))
            out.append(T("props3.c17_options", [v], ["PRG", "cpu"], place, True, weight=2))
    for i, name in enumerate(props11.NAMES):
        for v in V if deep else ("1.26", V[1 + i % 10]):
            for requested in ([], ["MEM", "DSK"]):
                out.append(T("props11.c17_names", v, name, requested, reach=["named"]))
    return out


def c18(deep):
    out = []
    for i, one in enumerate(V):
        for j, two in enumerate(V):
            if deep or j in (i, (i + 1) % len(V), (i + 4) % len(V)) or j == len(V) - 1:
                out.append(T("props3.c18_interleaved", one, two, reach=["interleaved"], weight=4 + (i > 8) + (j > 8)))
            if deep or j in (i, (i + 1) % len(V), (i + 6) % len(V)):
                out.append(T("props3.c18_rejected", one, two, reach=["unaffected"]))
            if deep or j in (i, (i + 2) % len(V), len(V) - 1):
                out.append(T("props3.c18_tolerated", one, two, reach=["tolerated"], weight=3))
            if deep or j in (i, (i + 3) % len(V)):
                out.append(T("props3.c18_switched", one, two, False, reach=["switched"], weight=4))
                if deep or j == i:
                    out.append(T("props3.c18_switched", one, two, True, reach=["switched"], weight=4))
        out.append(T("props3.c18_interleaved", one, V[-1], "2.13", reach=["interleaved"], weight=5))
    for i, v in enumerate(V):
        out.append(T("props3.c18_long", v, V[(i * 3 + 1) % len(V)], 200 if deep else 40, reach=["kept"], weight=6))
        out.append(T("props3.c18_lengths", v, reach=["other lengths"], weight=4))
    out.append(T("props3.c18_headers", V, reach=["headers kept"]))
    out.append(T("props3.c18_headers", V[::-1], reach=["headers kept"]))
    out.append(T("props3.c18_headers", [v for pair in zip(V, V[::-1]) for v in pair], reach=["headers kept"]))
    return out


def c19(deep):
    reach = ["incomplete", "not a log", "incompatible"]
    out = []
    flags = [[bool(n & 4), bool(n & 2), bool(n & 1)] for n in range(8)]
    for i, v in enumerate(V):
        for opts in flags if deep else (flags[i % 8], flags[7 - i % 8]):
            out.append(T("props4.c19_refused", v, True, bool(i % 2), [], opts, reach=reach, weight=3))
        if deep or v in (V[0], V[4]):
            out.append(T("props4.c19_refused", v, True, not i % 2, ["CPU", "PRG"], flags[i % 8], reach=reach, weight=3))
        out.append(T("props4.c19_missing", v, [], reach=["missing"]))
    for num, opts in enumerate(flags):
        out.append(T("props4.c19_refused", V[0], False, bool(num % 2), [], opts, reach=reach))
        out.append(T("props4.c19_refused", V[0], False, not num % 2, ["MEM"], opts, reach=reach))
    out.append(T("props4.c19_missing", V[0], ["DSK"], reach=["missing"]))
    for v in (V[0], V[-1]):
        out += [T("props4.c19_usage", v, n, reach=["usage"]) for n in range(len(props4.USAGE))]
    return out


def c20(deep):
    out = [T("props4.c20_header", check, reach=["accepted", "rejected"]) for check in (True, False)]
    for i, v in enumerate(V):
        for own in (False, True):
            out.append(T("props4.c20_stream", v, 2, "exact", own, reach=["streamed"], weight=3))
            if deep:
                out.append(T("props4.c20_stream", v, 3, "exact", own, reach=["streamed"], weight=9))
        for j, ending in enumerate(("cut", "damage")):
            for own in (False, True) if deep else (bool((i + j) % 2),):
                out.append(T("props4.c20_stream", v, 1, ending, own, reach=["streamed"], weight=4))
        out.append(T("props4.c20_stream", v, 60 if deep else 25, ("exact", "cut", "damage")[i % 3], bool(i % 2),
                     reach=["streamed"], weight=5))
        out.append(T("props4.c20_manual", v, reach=["sections"]))
    return out


def c21(deep):
    out = []
    for i, v in enumerate(V):
        for j, how in enumerate(("limit", "close", "drop")):
            out.append(T("props4.c21_resumed", v, 2, how, bool((i + j) % 2), reach=["resumed"], weight=4))
            if deep or j == i % 3:
                out.append(T("props4.c21_resumed", v, 20 if deep else 6, how, bool(i % 2), reach=["resumed"], weight=9))
            if deep:
                out.append(T("props4.c21_resumed", v, 2, how, not (i + j) % 2, reach=["resumed"], weight=4))
                out.append(T("props4.c21_resumed", v, 4, how, bool((i + j) % 2), reach=["resumed"], weight=30))
    return out


def c22(deep):
    out = []
    names = props2.PARSEABLES
    for i, name in enumerate(names):
        others = names if deep else {names[(i + 1) % len(names)], names[(i + 5) % len(names)], "cpu", "PRM"}
        for other in sorted(set(others) - {name}):
            out.append(T("props5.c22_parseables", name, other, reach=["pure"]))
    out.append(T("props5.c22_sample", names, reach=["pure"], weight=3))
    out.append(T("props5.c22_sample", names[::-1], reach=["pure"], weight=3))
    for v in V:
        for kind in props2.kinds(v):
            out.append(T("props5.c22_convert", v, kind, reach=["pure"]))
        out.append(T("props5.c22_lists", v, reach=["fresh"], weight=2))
    return out


def c23(deep):
    out = []
    reach = ["interrupted", "one after the other"]

    def pair(one, two, visits, weight=1, back=False, share=None):
        task = T("props5.c23_threads", one, two, visits, back, share, reach=reach[:1] if share else reach,
                 weight=weight)
        out.append(task)

    names = props2.PARSEABLES
    for i, v in enumerate(V):
        for j, w in enumerate(V):
            if deep or j in (i, (i + 1) % len(V), (i + 5) % len(V)):
                pair(v, w, 3, 5)
            if deep or j in (i, (i + 3) % len(V)):
                pair("convert " + v, "convert " + w, 6 if deep else 3, 2)
        pair("sstat " + v, "sstat " + V[(i * 3 + 2) % len(V)], 12 if deep else 3, 3)
        pair(v, "convert " + V[(i + 2) % len(V)], 3, 4)
        pair("convert " + V[(i + 2) % len(V)], v, 3, 4)
    pair("parse " + " ".join(names), "parse " + " ".join(names[::-1]), 3, 5)
    for i, name in enumerate(names):
        pair("parse " + name, "parse " + name, 3)
        pair("parse " + name, "parse " + names[(i + 4) % len(names)], 3)
    pair("1.26", "parse " + " ".join(names), 3, 5)
    pair("parse " + " ".join(names), "1.26", 3, 5)
    if deep:
        for one, two in (("1.26", "1.26"), ("2.12", "2.12"), ("1.26", "2.12"), ("2.11", "2.3")):
            for n in range(8):
                pair(one, two, 2, 200, True, (n, 8))
        for what in ("parse cpu CPU", "parse DSK PRC", "convert 1.26", "convert 2.12"):
            pair(what, what, 3, 50, True)
    else:
        pair("parse cpu", "parse cpu", 2, 9, True)
        pair("convert 2.12", "convert 2.12", 2, 20, True)
    return out


FLAGS = [(False, False, False), (True, False, False), (False, True, True), (True, True, False), (False, False, True)]


def c24(deep):
    out = []
    for i, v in enumerate(V):
        w = V[(i + 4) % len(V)]
        for j, (before, packed) in enumerate(((None, False), (w, False), (None, True), (w, True))):
            for flags in FLAGS if deep else (FLAGS[(i + j) % len(FLAGS)],):
                for count in (1, 2):
                    out.append(T("props6.c24_read", v, before, packed, (), flags, count,
                                 reach=["unreadable header", "unreadable sample"]))
        for requested in ([["CPU"], ["DSK", "PRC"], OFFERED] if deep or v == "1.26" else [["PRM", "cpu"]]):
            for packed in (False, True):
                out.append(T("props6.c24_read", v, "1.26" if packed else None, packed, requested,
                             reach=["unreadable header"]))
        for flags in FLAGS if deep else (FLAGS[i % len(FLAGS)],):
            out.append(T("props6.c24_write", v, w, (), flags, reach=["full", "complete"]))
        out.append(T("props6.c24_write", v, w, ["PRC", "MEM"], reach=["full", "complete"]))
    return out


def c25(deep):
    out = []
    for i, v in enumerate(V):
        w, x = V[(i + 3) % len(V)], V[(i + 7) % len(V)]
        for j, last in enumerate(("complete", "cut", "missing", "refused", "unreadable")):
            for names in range(4) if deep else ((i + j) % 4,):
                several = [v, w] if last in ("complete", "cut") or (i % 4 and not deep) else [v]
                out.append(T("props6.c25_files", several, last, (), names, reach=[last], weight=3))
        out.append(T("props6.c25_files", [v, w, x], "complete", (), i % 4, reach=["complete"], weight=3))
        out.append(T("props6.c25_files", ["1.26", v], ("complete", "missing", "unreadable")[i % 3], ["PRM", "NETL"],
                     i % 4, reach=[("complete", "missing", "unreadable")[i % 3]], weight=3))
    return out


def c26(deep):
    out = []
    most = 600 if deep else 300
    for i, v in enumerate(V):
        out.append(T("props6.c26_samples", v, most, "read", bool(i % 2), reach=["bounded"], weight=3))
        for kinds in [["Header", "Record", "TStat"]] + [["SStat"]] * (deep or i % 3 == 0) + \
                [["CStat"]] * (v in CG):
            out.append(T("props6.c26_distinct", v, kinds, most, reach=["bounded"], weight=20))
        if deep or v in ("1.26", "2.8", "2.12"):
            out.append(T("props6.c26_samples", v, most, "convert", not i % 2, reach=["bounded"], weight=9))
        out.append(T("props6.c26_logs", [v], most, reach=["bounded"]))
    for j in range(0, len(props2.PARSEABLES), 4):
        out.append(T("props6.c26_distinct", "1.26", [], most, props2.PARSEABLES[j:j + 4], reach=["bounded"], weight=20))
    out.append(T("props6.c26_samples", "1.26", most, "report", reach=["bounded"], weight=9))
    out.append(T("props6.c26_logs", V, 2 * most, reach=["bounded"]))
    return out


def c27(deep):
    out = []
    forms = ["positional", "named", "set only", "name only"]
    some = [["PRC", "CPU"], ["cpu"], OFFERED, ["NETL", "NETL", "MEM"]]
    for i, v in enumerate(V):
        for packed in (False, True) if deep else (bool(i % 2),):
            out.append(T("props7.c27_same", v, [], packed, reach=forms, weight=3))
            for requested in some if deep or v == "1.26" else some[i % 4:i % 4 + 1]:
                out.append(T("props7.c27_same", v, requested, packed, reach=forms, weight=2))
        w = V[(i + 3) % len(V)]
        for j, between in enumerate(("nothing", "command", "refused", "missing", "short")):
            for k, pair in enumerate(([[], []], [["PRM", "DSK"], []], [[], ["LVM", "PRN"]], [["PAG"], ["PAG"]])):
                if deep or k == (i + j) % 4:
                    out.append(T("props7.c27_calls", v, w, pair, between, reach=["two calls"], weight=4))
                    if k or deep:
                        out.append(T("props7.c27_calls", "1.26", v, pair, between, reach=["two calls"], weight=4))
    return out


def c28(deep):
    out = []
    for v in V:
        for size in (0, 1, 8) if deep else (0, 8):
            for count in (1, 2, 4):
                out.append(T("props7.c28_degenerate", v, size, count, reach=["ended"], weight=999))
    for i, v in enumerate(V):
        reach = ["0 samples, raised StopIteration", "0 samples, raised ValueError", "0 samples, raised error"]
        one, two = "1 samples, raised StopIteration", "2 samples, raised StopIteration"
        for check in (True, False):
            out.append(T("props7.c28_bytes", v, 1, check, reach=reach + [one], weight=9))
            if v not in CG:
                out.append(T("props7.c28_bytes", v, 3 if deep else 2, check, 2, reach=reach + [one, two], weight=9))
        if v in CG and deep:
            out.append(T("props7.c28_bytes", v, 1, True, 2, reach=reach + [one], weight=99))
            out.append(T("props7.c28_bytes", v, 2, True, 1, reach=reach + [one, two], weight=99))
        for path, _, _ in L.counters(v, L.root(v, "SStat")):
            out.append(T("props7.c28_convert", v, path, reach=["converted"]))
        for j, counter in enumerate((0, 1, -1, 100000)):
            if deep or counter == 1 or v not in CG:
                flags = FLAGS[(i + j) % len(FLAGS)]
                out.append(T("props7.c28_command", v, [], counter, flags, reach=["error", "0 entries", "1 entries"],
                             weight=9))
    for name in props2.PARSEABLES:
        for cores in (True, False):
            for limit in (0, 2, 5) if deep else (2,):
                out.append(T("props7.c28_report", name, limit, cores, reach=["reported"]))
    for counter in (-1, 0, 1):
        for requested in (["PRC", "MEM"], OFFERED if counter >= 0 else ["PRM", "CPL"]):
            for flags in FLAGS if deep else FLAGS[:2]:
                out.append(T("props7.c28_command", "1.26", requested, counter, flags, reach=["error", "0 entries"],
                             weight=3))
    return out


def c29(deep):
    out = []
    for i, v in enumerate(V):
        for j, way in enumerate(props8.WAYS):
            out.append(T("props8.c29_log", v, way, reach=["copied"], weight=5))
            out.append(T("props8.c29_header", v, way, reach=["compatible", "incompatible"], weight=3))
            out.append(T("props8.c29_decoded", v, way, reach=["copied"], weight=3))
    for way in props8.WAYS:
        for version in ("2.0", "2.13", "3.1") if deep else ("2.13",):
            out.append(T("props8.c29_log", L.NEWEST, way, version, reach=["copied"], weight=5))
        for names in ([[name] for name in props2.PARSEABLES] if deep else [props2.PARSEABLES]):
            out.append(T("props8.c29_parseables", way, names, reach=["copied"], weight=9))
    return out


def c30(deep):
    out = []
    some = [[], ["PRG", "DSK"], ["CPU", "NETL"], ["PRC", "LVM"], ["PRM", "MDD"], ["PRN", "MEM"]]
    for i, v in enumerate(V):
        for name in range(len(props8.NAMES)):
            if deep or name in (i % 5, 3 - i % 4):
                out.append(T("props8.c30_output", v, [], name, reach=["printed"], weight=3))
            for requested in some[1:] if deep or v == "1.26" else some[1:2]:
                out.append(T("props8.c30_output", v, requested, name, reach=["printed"], weight=3))
    return out


def c31(deep):
    out = [T("props9.c31_log", v, check, reach=["bytes"], weight=2) for v in V for check in (True, False)]
    return out + [T("props9.c31_log", V[-1], check, name, reach=["bytes"], weight=2)
                  for check in (True, False) for name in ("2.13", "3.0", "1.27")]


def c32(deep):
    out = []
    for i, v in enumerate(V):
        for way in ("same", "header", "reopened") if deep else (("same", "header", "reopened")[i % 3], "same"):
            out.append(T("props10.c32_followed", v, way, 3 if deep else 2,
                         reach=["followed after %d" % n for n in range(2)], weight=3))
        out.append(T("props10.c32_kept", v, 4 if deep else 3, reach=["%d iterations" % n for n in range(1, 4)], weight=3))
    return list({str(task): task for task in out}.values())


def c34(deep):
    out, reach = [], ["undisturbed", "KeyboardInterrupt", "MemoryError"]
    for i, v in enumerate(V):
        for j in range(len(V)) if deep else ((i * 3 + 1) % len(V),):
            out.append(T("props11.c34_read", v, V[j], 6 if deep else 3, 3 if deep else 2, reach=reach, weight=6))
        out.append(T("props11.c34_use", "convert " + v, "convert " + V[(i * 3 + 2) % len(V)], reach=reach, weight=2))
        out.append(T("props11.c34_use", "sstat " + v, "sstat " + V[(i + 4) % len(V)], reach=reach, weight=3))
        flags = [[bool(k & 1), bool(k & 2), bool(k & 4)] for k in (range(8) if deep else (i % 8,))]
        for some in flags:
            out.append(T("props11.c34_command", v, V[(i + 3) % len(V)], [], some, reach=reach, weight=8))
        for requested in ([["CPU", "PRG"], ["DSK", "PRM"], ["cpu", "NETL"]] if deep or v == "1.26" else [["MEM"]]):
            out.append(T("props11.c34_command", v, V[i - 1], requested, reach=reach, weight=8))
    for i, name in enumerate(props2.PARSEABLES):
        out.append(T("props11.c34_use", "parse " + name, "parse " + props2.PARSEABLES[i - 4], reach=reach, weight=2))
    return out


LONG = ("c07_long", "c09_default", "c18_long", "c26_samples", "c26_distinct", "c23_threads")


def c33(deep):
    """Some tasks of every other harness."""
    out = []
    for pid in sorted(PROPERTIES):
        named = {}
        for task in tasks(pid, "quick") if pid not in ("C33", "C34") else ():
            named.setdefault(task["harness"], []).append(task)
        for name, some in sorted(named.items()):
            if name.partition(".")[2] in LONG:
                continue
            count = min(len(some), 6 if deep else 2)
            for i in range(count):
                task = dict(some[(2 * i + 1) * len(some) // (2 * count)])
                task.update(harness="props10.c33_stripped", args=[1 + (i + len(out)) % 2, task["harness"], task["args"]])
                out.append(task)
    return out


PROPERTIES = {
    "C01": {"tasks": c01, "bounds": "11 versions; every byte of the 480 header bytes and the file size (from 480) are "
            "symbolic, except the magic number, the version word's low 15 bits and, with the compatibility check, the "
            "structure lengths", "outside": "nothing but the premises", "assumptions": [SPEC, STUBS]},
    "C02": {"tasks": c02, "bounds": "every byte and the size of the file symbolic, as the first header of the process and "
            "after an accepted, refused or unchecked one of each version; unlisted versions read with one "
            "sample of at most one task and one cgroup", "outside": "nothing in the acceptance decision",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C03": {"tasks": c03, "bounds": "11 versions; file size, position and all bytes symbolic",
            "outside": "nothing", "assumptions": [SPEC, STUBS]},
    "C04": {"tasks": c04, "bounds": "11 versions; record, position, file size, stream and payload symbolic; array "
            "elements at a symbolic index", "outside": "a stream shorter than the announced length",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C05": {"tasks": c05, "bounds": "11 versions; 0-3 tasks with symbolic count, and the listed large counts "
            "concretely (quick: to 4096, three versions to 65537; thorough: to 200000); payload, lengths, position "
            "and (longer mode) the announced task length symbolic; any count at all when the payload holds fewer than "
            "three whole tasks (thorough: seven)", "outside": "other task counts; task lengths "
            "below the structure's size", "assumptions": [SPEC, STUBS, ZLIB]},
    "C06": {"tasks": c06, "bounds": "2.11 and 2.12; 0-3 cgroups (thorough: 0-5) with symbolic structure lengths and "
            "process counts, 17-1000 (thorough: 10000) cgroups with concrete ones; any announced number "
            "of cgroups when a payload ends within one of the first three (thorough: five)", "outside": "negative "
            "structure lengths or process counts", "assumptions": [SPEC, STUBS, ZLIB]},
    "C07": {"tasks": c07, "bounds": "11 versions; 0-2 consecutive samples (thorough: 4) from an arbitrary position, "
            "with up to 3 tasks and 2 cgroups, all lengths and contents symbolic; logs of 270 (thorough: 1100) "
            "samples with constant lengths and counts and arbitrary contents", "outside": "longer histories", "assumptions": [SPEC, STUBS, ZLIB]},
    "C08": {"tasks": c08, "bounds": "11 versions; up to 2 complete samples (thorough: 3) and a cut at any byte of the "
            "next, or any damaged section; all lengths, contents and the cut position symbolic; the same after 25 (thorough: 200) "
            "samples of constant lengths; failing reads 0-5 with any of five errors (input/output, timeout, end of a compressed stream, memory)",
            "outside": "a damaged section that is still a valid stream; a cut inside the first four bytes of a "
            "record's system length, where either ending is accepted", "assumptions": [SPEC, STUBS, ZLIB]},
    "C09": {"tasks": c09, "bounds": "11 versions; any limit from 0 over logs of 1-2 (thorough: 4) samples, and of 30 (80) with constant lengths; the "
            "default limit over an endless repetition of one symbolic sample", "outside": "negative limits",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C10": {"tasks": c10, "bounds": "every structure of 11 versions with arbitrary content, with the counters of "
            "counted arrays bound to 0, 1 and 3 (thorough: also 2, 7 and above every capacity); cgroups with up to 4 "
            "(thorough: 8) process ids", "outside": "other counter values (C11)", "assumptions": [SPEC, STUBS]},
    "C11": {"tasks": c11, "bounds": "every counted array of 11 versions; its counter 0-3 or from capacity-1 upwards "
            "without limit (thorough: every value from 0), other counters 1; and two alternating assignments of all "
            "counters", "outside": "negative counters", "assumptions": [SPEC, STUBS]},
    "C12": {"tasks": c12, "bounds": "arbitrary header, record, system statistics; core counts from 0 without limit",
            "outside": "negative core counts", "assumptions": [SPEC, STUBS]},
    "C13": {"tasks": c13, "bounds": "arbitrary header, record, system statistics; every number of devices up to the "
            "array's capacity", "outside": "nothing", "assumptions": [SPEC, STUBS]},
    "C14": {"tasks": c14, "bounds": "arbitrary header, record and 0-3 and 6 tasks (thorough: to 20), and 100 and 300 "
            "(thorough: to 5000) tasks for parseables without flags", "outside": "longer task lists",
            "assumptions": [SPEC, STUBS]},
    "C15": {"tasks": c15, "bounds": "arbitrary bytes in every text field of every structure (array counters 2) and of "
            "whole logs of one sample with up to one task and cgroup; every parseable with two devices or tasks",
            "outside": "longer arrays", "assumptions": [SPEC, STUBS, ZLIB]},
    "C16": {"tasks": c16, "bounds": "11 versions and four without a layout; 0-2 complete samples (thorough: 3) with "
            "up to one task, cgroup and process id, array counters 1, then the end, a cut at any byte or a damaged "
            "section; logs of 100 (thorough: 270), "
            "with parseables 270 (1100), samples of constant lengths; plain and gzip; each parseable alone, in pairs and all together", "outside": "file names that "
            "contain .gz elsewhere; the textual form of NaN and infinities; gzip containers that are damaged",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C17": {"tasks": c17, "bounds": "every combination of the options (symbolic choices) in three positions and two "
            "orders, over one or two files (thorough: three) in either order, one possibly repeated; one arbitrary "
            "sample per file; nine file names with special characters", "outside": "abbreviated options other than --pretty",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C18": {"tasks": c18, "bounds": "two logs of two arbitrary samples read in turns, the first read again afterwards; the same with 40 (thorough: "
            "200) samples of constant lengths; "
            "one log read, whole or step by step, during any one file operation on the other; "
            "pairs of versions (quick: 44 and an unlisted version, thorough: all 121); 22 headers kept at once; a "
            "rejected and a damaged file in between", "outside": "longer histories", "assumptions": [SPEC, STUBS, ZLIB]},
    "C19": {"tasks": c19, "bounds": "any unacceptable file content of any size, plain or gzip, alone or after a log of "
            "11 versions with one arbitrary sample; combinations of the flags (thorough: all of them for every version), three choices of parseables; nine "
            "wrong usages", "outside": "files after the refused one; damaged gzip containers",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C20": {"tasks": c20, "bounds": "headers of any content and size; logs of 11 versions with 1-2 (thorough: 3) "
            "arbitrary samples, or 25 (60) of constant lengths, then the end, a cut at any byte or a damaged section, both truncation modes",
            "outside": "streams that return fewer bytes than asked for before their end",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C21": {"tasks": c21, "bounds": "11 versions; logs of 2 (thorough: 4) arbitrary samples read in three turns of any "
            "sizes, the first two ended by a limit, by closing or by dropping the iterator", "outside": "longer logs",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C22": {"tasks": c22, "bounds": "1.26 samples with two cores, devices and tasks each and arbitrary content; each "
            "parseable asked for alone, in turns with itself on a second sample and with others (quick: four, thorough: "
            "all); all parseables and conversions of one sample twice; pairs of structures of every kind and version; "
            "logs of two samples whose lists the caller changes", "outside": "larger samples; callers that change "
            "structures", "assumptions": [SPEC, STUBS, ZLIB]},
    "C23": {"tasks": c23, "bounds": "two threads, each reading a log of one sample, converting structures or asking for "
            "parseables, with arbitrary contents; the first is interrupted before any statement or after any call of "
            "the package (each place: its first three executions), and the second then runs to its end (thorough: also "
            "up to any point of its own, then the first to its end, then the rest of the second)",
            "outside": "more than two context switches; interruptions inside an expression other than after a call; "
            "later executions of the same place; threads that share a file, a header or an iterator",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C24": {"tasks": c24, "bounds": "a log of 11 versions with one or two arbitrary samples, plain or gzip, "
            "unreadable from any byte on, alone or after a complete log; two logs whose output fails at any of the first "
            "five writes; five kinds of read errors, four of write errors; choices of flags and parseables", "outside": "failures that go away; failing closes and "
            "flushes; errors other than OSError", "assumptions": [SPEC, STUBS, ZLIB]},
    "C25": {"tasks": c25, "bounds": "two to three logs of 11 versions, plain or gzip, in different directories, the last "
            "complete, cut, unreadable, missing or any unacceptable content; all flags; a user without the right to "
            "write", "outside": "more than three logs; files opened by other means than open, gzip and pathlib",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C26": {"tasks": c26, "bounds": "logs of 300 (thorough: 600) samples with constant lengths and arbitrary contents, "
            "only read, converted or reported; 300 (600) structures that have no value in common; 300-600 (1200) logs one after "
            "the other", "outside": "growth that starts "
            "later; the list of entries the command prints", "assumptions": [SPEC, STUBS, ZLIB]},
    "C27": {"tasks": c27, "bounds": "logs of 11 versions with one arbitrary sample, plain or gzip; every combination of the "
            "three options, passed by position, by name, only where set, or not at all; the same printed by the command; two "
            "calls one after the other, with nothing, the command, any unacceptable, a missing or an undecodable file in between",
            "outside": "more than two calls; longer logs (C16)", "assumptions": [SPEC, STUBS, ZLIB]},
    "C28": {"tasks": c28, "bounds": "any bytes after the header, with and without the compatibility check (lengths "
            "arbitrary), read as 1-2 (thorough: 3) samples of any announced lengths, at most 1-2 tasks and cgroups; system "
            "statistics with any value in one counter (-2 to 2, or beyond the capacity in either direction); samples with "
            "any content reported by each parseable, up to two (thorough: five) devices; the command on any one sample",
            "outside": "more announced tasks and cgroups than given (C05, C06); content large enough to exhaust memory",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C29": {"tasks": c29, "bounds": "any header read without the compatibility check; one-sample logs of 11 versions and of unlisted ones, with one task and cgroup, arbitrary "
            "contents; every structure copied in five ways (copy, deepcopy, pickling into a newly imported package, "
            "from_buffer_copy, from_buffer), the original overwritten; versions asked for before and after, in any order",
            "outside": "pickling of cgroups, whose process ids are arrays of a type made on the fly; other versions of the "
            "package in the other process", "assumptions": [SPEC, STUBS, ZLIB]},
    "C30": {"tasks": c30, "bounds": "one-sample logs of 11 versions, arbitrary contents; file names with a directory, spaces and "
            "other scripts, plain and gzip; every combination of the flags; 10 parseables in pairs; environment variables "
            "the package asks for unset or any text of up to 23 bytes, standard output a terminal of 1 to 1000 columns "
            "or not, in three encodings; error entries compared between two directories, machines, users and clocks",
            "outside": "what the interpreter and its libraries do with the environment; other sources than variables, "
            "streams, files, locale, clock, and what the system tells about the user, the process and the machine", "assumptions": [SPEC, STUBS, ZLIB]},
    "C31": {"tasks": c31, "bounds": "two-sample logs of 11 versions and of unlisted ones, arbitrary contents, up to 2 "
            "tasks and one cgroup; every byte of every structure at a symbolic index; with and without the "
            "compatibility check; before and after conversion and reporting",
            "outside": "process-id lists (C06)", "assumptions": [SPEC, STUBS, ZLIB]},
    "C32": {"tasks": c32, "bounds": "logs of 11 versions with 2 samples (thorough 3), arbitrary contents, of which any number "
            "of leading bytes is written at first, then the rest; 3 (4) samples appended one by one at any time during "
            "iteration; the same or a fresh header, the same or another file object",
            "outside": "logs that are cut or rewritten while they are read; gzip streams that grow",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C33": {"tasks": c33, "bounds": "one or two (thorough up to six) of the tasks of every harness of the other properties, with "
            "their bounds, on the package compiled without assertions (-O) or without assertions and docstrings (-OO)",
            "outside": "other interpreter options; C23 and C34, and the long runs of C07, C09, C18 and C26",
            "assumptions": [SPEC, STUBS, ZLIB]},
    "C34": {"tasks": c34, "bounds": "an interrupt (KeyboardInterrupt) or a lack of memory (MemoryError) before any statement "
            "or after any call of the package (each place: its first two or three executions), while a log of two arbitrary "
            "samples is read, structures are converted or reported, or the command runs over two logs",
            "outside": "errors that arise inside the interpreter's own libraries and leave these in disorder; more than "
            "one interrupt; later executions of the same place", "assumptions": [SPEC, STUBS, ZLIB]},
}
