#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] | check.py --replay FILE | check.py --setup

Exit 0: the property held on everything explored; 1: VIOLATION line printed;
anything else: the check could not decide.
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from hsv import common  # noqa: E402

RT = {"P%02d" % i for i in range(1, 16)} | {"P26", "P27"}
CLI = {"P%02d" % i for i in range(16, 26)} | {"P28"}


def main(argv):
    args = argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = None
    rest = []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            path = args.pop(0)
            pid = json.load(open(path))["Property"]
            return module(pid).replay(path)
        elif a == "--setup":
            from hsv import setup
            return setup.main()
        else:
            rest.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(rest) != 1 or rest[0] not in RT | CLI:
        print(__doc__)
        return 2
    return module(rest[0]).check(rest[0], tier, common.seed_from_env(seed))


def module(pid):
    if pid in RT:
        from hsv import rtcheck
        return rtcheck
    from hsv import clicheck
    if "HSV_VENV" not in os.environ and not clicheck.have_hypothesis():
        os.environ["HSV_VENV"] = "1"
        py = "/opt/veriftools/pyvenv/bin/python3"
        os.execv(py, [py] + sys.argv)
    return clicheck


if __name__ == "__main__":
    try:
        sys.stdout.flush()
        rc = main(sys.argv)
    except common.HarnessError as e:
        print("NO VERDICT: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
