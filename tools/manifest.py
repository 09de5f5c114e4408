"""Write MANIFEST.json from the registry of properties."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from checks import registry  # noqa: E402


def main():
    checks = []
    for pid, prop in registry.PROPERTIES.items():
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt run_check.py %s --tier quick" % pid,
            "thorough_cmd": "python3-vt run_check.py %s --tier thorough" % pid,
            "technique": "symbolic execution of the package's Python source with z3 (path exploration, counterexamples "
                         "replayed on the real package)",
            "level": "model_checking",
            "level_note": "Bounded: %s. Outside: %s. Assumes the engine's models of ctypes, files, zlib (DESIGN.md), "
                          "exercised by setup_cmd and by replaying sampled paths on the real package."
                          % (prop["bounds"], prop["outside"]),
        })
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump({
            "version": 1,
            "setup_cmd": "python3-vt tools/selftest.py",
            "checks": checks,
            "not_applicable": [],
            "notes": "No hooks in /repo: the engine instruments the source as it loads it. Repairs of /repo are the "
                     "commits listed in known_findings.txt.",
        }, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
