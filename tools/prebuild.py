#!/usr/bin/env python3
"""setup_cmd: compiles the harnesses once so that the checks only rebuild what changed.
Failing here is not fatal: every check builds what it needs itself."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path.insert(0, TOP)
import check
for i in sorted(check.CHECKS):
    try:
        check.build(check.CHECKS[i].get("flavor", "asan"), i)
    except SystemExit:
        pass
