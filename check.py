#!/usr/bin/env python3
"""check.py PROPERTY [--quick|--thorough]: decides one property of /repo's
current sources by static analysis (see DESIGN.md)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import runner, props
try:
    rc = runner.main(sys.argv)
except Exception:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
