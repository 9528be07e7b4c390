#!/usr/bin/env python3
"""run.py <property> [quick|thorough] : decide one property on /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from vlib import checks, core  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in checks.CHECKS:
        print("usage: run.py <%s> [quick|thorough]" % "|".join(checks.CHECKS))
        return 3
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return checks.run(prop, tier, seed)
    except core.HarnessError as e:
        print("HARNESS-ERROR property=%s: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
