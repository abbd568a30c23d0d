#!/bin/bash
# Builds the IR dumper used by all checks.
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.dont_write_bytecode = True; sys.path.insert(0, '.')
from vf import ir; ir.build_tool(); print('built', ir.TOOL)"
