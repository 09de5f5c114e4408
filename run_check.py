"""Decide one property: run_check.py <ID> [--tier quick|thorough]; or replay a reported case: --replay <dir>."""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from checks import runner  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property", nargs="?")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    args = parser.parse_args()
    if args.replay:
        with open(os.path.join(args.replay, "case.json")) as fh:
            case = json.load(fh)
        res = runner.replay(case["task"], args.tier, case["inputs"], [case["filler"]])
        print(json.dumps(res, indent=1))
        return 1 if any(r["status"] == "failed" for r in res) else 0
    return runner.check(args.property, args.tier, args.seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
