#!/opt/venv/bin/python
"""check.py <property> [--thorough] [--only REGEX] | check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONHASHSEED", "0")


def main(argv):
    from sa import report
    if "--replay" in argv:
        return report.replay(argv[argv.index("--replay") + 1])
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    props = [a for a in argv if a.startswith("C") and a[1:].isdigit()]
    rc = 0
    for p in props:
        rc = max(rc, report.run(p, tier, seed, only=only))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
