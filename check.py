#!/usr/bin/env python3
"""Entry point: check.py <property> [--tier quick|thorough] [--seed N]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import harness  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == "--tier":
            tier = a.pop(0)
        elif o == "--seed":
            seed = int(a.pop(0))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = harness.Check(prop, tier, seed)
    try:
        mod = importlib.import_module("checks.%s" % prop.lower())
        mod.run(c)
    except harness.Hang:
        return c.finish()
    except harness.HarnessError as e:
        print("ERROR: %s" % e)
        c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        rc = c.finish()
        return 1 if rc == 1 else 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
