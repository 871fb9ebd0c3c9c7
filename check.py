#!/usr/bin/env python3
"""python3 /verif/check.py C05 [--tier quick|thorough] [--only obligation] [--verbose]"""
import argparse
import os
import sys
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--repo", default=os.environ.get("SA_REPO", "/repo"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    from sa import framework
    import sa.obligations  # noqa: F401
    return framework.run_check(a.property, a.tier, a.repo, VERIF, a.only, a.verbose)


def guarded():
    global rc
    try:
        rc = main()
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 3


rc = 3
if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=guarded)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc)
