#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree: every obligation of the
contracts behind the property is generated from the current source and must be
discharged.  Exit 0: held; exit 1 with a VIOLATION line otherwise.
"""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pyvc import decide      # noqa: E402


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.exit(decide.run(a.property, a.tier, a.jobs, a.v))
