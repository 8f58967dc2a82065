#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree."""
import json, os, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
import run
import report

if __name__ == "__main__":
    code = run.main(lambda: report.check(sys.argv[1], sys.argv[2:]))
    sys.exit(code if code is not None else 1)
