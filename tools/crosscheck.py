"""A sample of the solver's queries, decided again by cvc5 (a development tool, not a check).

python3-vt tools/crosscheck.py C05 C08 ... [--per N]     every N-th query of the first tasks of each property
"""
import argparse
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from checks import domain, registry  # noqa: E402
from engine import core  # noqa: E402


def main():
    args = argparse.ArgumentParser()
    args.add_argument("ids", nargs="+")
    args.add_argument("--per", type=int, default=10)
    args.add_argument("--tasks", type=int, default=6)
    opts = args.parse_args()
    agree = unknown = 0
    for pid in opts.ids:
        tasks = [t for t in registry.tasks(pid, "quick") if t.get("weight", 1) < 60]
        for task in tasks[::max(1, len(tasks) // opts.tasks)][:opts.tasks]:
            queries = []

            class Recorder(core.Context):
                def check(self, *extra):
                    res = super().check(*extra)
                    if self.stats.queries % opts.per == 0 and len(queries) < 300:
                        self.solver.push()
                        self.solver.add(*extra)
                        queries.append((self.solver.to_smt2(), res))
                        self.solver.pop()
                    return res

            context = Recorder()
            func = registry.harness(task["harness"])
            context.explore(lambda ctx: func(domain.SymDom(ctx, "quick"), *task["args"]), sample_models=0)
            for query, res in queries:
                with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
                    fh.write("(set-logic ALL)\n" + query)
                    fh.flush()
                    out = subprocess.run(["cvc5", "--tlimit=20000", fh.name], capture_output=True, text=True,
                                         check=False).stdout.split()
                if not out or out[0] not in ("sat", "unsat"):
                    unknown += 1
                    continue
                assert out[0] == ("sat" if res else "unsat"), (registry.title(task), out, res, query[:2000])
                agree += 1
            print("%s: %d queries compared so far, %d undecided by cvc5" % (registry.title(task), agree, unknown),
                  flush=True)


if __name__ == "__main__":
    main()
