#!/usr/bin/env python3
"""check.py P01 [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
check.py --replay FILE
check.py --list
check.py --selftest            every check: two runs of the same seed, in two processes with other hash seeds, are identical"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--digest", action="store_true")
    a = ap.parse_args()
    from dst import repo
    repo.setup()
    from dst import runner
    from dst.registry import CHECKS
    if a.list:
        print("\n".join(CHECKS))
        return 0
    if a.selftest or a.digest:
        from dst import selftest
        return selftest.digests(a.seed, a.runs or 4, a.property) if a.digest else selftest.main(a.seed, a.runs or 4, a.property)
    if a.replay:
        return runner.main_replay(a.replay)
    return runner.main_check(a.property, a.tier, a.seed, a.runs, a.wall)


if __name__ == "__main__":
    sys.exit(main())
