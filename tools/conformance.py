"""The encoding against the package itself, on the logs the repository ships (a development tool, not a check).

Every sample log is read once by the real package and once by the instrumented source over constant bytes: headers,
records, dictionaries and parseables have to agree.
"""
import glob
import gzip
import importlib
import io
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ATOPARSER_REPO", "/repo")
sys.path[:0] = [ROOT, REPO]

from checks.domain import SymDom  # noqa: E402
from engine import core, symio, text  # noqa: E402


def same(one, two, where):
    """Leaves of the engine may be segments of constant bytes or opaque floats."""
    if isinstance(one, dict):
        assert list(one) == list(two), (where, list(one), list(two))
        return sum(same(one[key], two[key], "%s.%s" % (where, key)) for key in one)
    if isinstance(one, (list, tuple)):
        assert len(one) == len(two), (where, len(one), len(two))
        return sum(same(x, y, "%s[%d]" % (where, i)) for i, (x, y) in enumerate(zip(one, two)))
    if isinstance(one, float) and one != one:
        return 1
    res = two == one
    assert res is True or bool(res), (where, one)
    return 1


def read(package, parsers, fh, limit):
    header = package.get_header(fh)
    out = [package.struct_to_dict(header)]
    for record, sstat, tstats, cgroups in package.generate_statistics(fh, header, max_samples=limit):
        out.append([package.struct_to_dict(record), package.struct_to_dict(sstat),
                    [package.struct_to_dict(t) for t in tstats], [package.struct_to_dict(c) for c in cgroups]])
        for name, func in sorted(parsers.items()) if header.semantic_version == "1.26" else ():
            out.append([name, list(func(header, record, sstat, tstats))])
    return out


def parsers_of(module):
    return {name: func for name, func in vars(module).items() if name.startswith("parse_")}


def main():
    import atoparser

    parsers = parsers_of(importlib.import_module("atoparser.parsers.atop_1_26"))
    limit = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    total = 0
    for path in sorted(glob.glob(os.path.join(REPO, "atoparser", "test", "files", "*.log.gz"))):
        with gzip.open(path) as fh:
            data = fh.read()
        real = read(atoparser, parsers, io.BytesIO(data), limit)
        context = core.Context()
        seen = {}

        def harness(ctx):
            dom = SymDom(ctx)
            segs = text.segs_of(data)
            seen["got"] = read(dom.package(), parsers_of(dom.package("atoparser.parsers.atop_1_26")),
                               symio.SymFile(segs), limit)
            seen["leaves"] = same(real, seen["got"], os.path.basename(path))

        context.explore(harness, sample_models=0)
        assert not context.problems and not context.cexes and context.stats.paths == 1, (path, context.problems,
                                                                                         context.cexes)
        total += seen["leaves"]
        print("%s: %d values agree" % (os.path.basename(path), seen["leaves"]), flush=True)
    print("total", total)


if __name__ == "__main__":
    main()
