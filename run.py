#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise; exit 2: no answer (tool failure).
"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
import props
from engine import VERIF, ToolError


def main():
    pid = sys.argv[1]
    if pid == "setup":          # nothing is kept: every check builds what it needs; this only proves that the tools are there
        work = engine.Work()
        try:
            work.java()
            work.build()
            print("setup ok")
        finally:
            work.close()
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = engine.Work()
    try:
        code = props.decide(work, pid, tier, seed, t0)
    except ToolError as e:
        print("no answer: %s" % e)
        code = 2
    finally:
        work.close()
    sys.exit(code)


if __name__ == "__main__":
    main()
