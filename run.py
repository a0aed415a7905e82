#!/opt/venv/bin/python
"""run.py check ID [--tier quick|thorough] [--seeds N] [--seconds S] | replay FILE | selftest ID [N] | build"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "selftest", "build"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("n", nargs="?", type=int, default=40)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    base = os.environ.get("VERIF_SEED", "1")
    if a.cmd == "build":
        runner.build()
        return 0
    if a.cmd == "replay":
        return runner.replay(os.path.abspath(a.what))
    if a.cmd == "selftest":
        return runner.selftest(a.what, a.n)
    return runner.Check(a.what, a.tier, base, a.jobs, a.seeds, a.seconds).go()


if __name__ == "__main__":
    sys.exit(main())
