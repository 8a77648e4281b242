#!/usr/bin/env python3
"""setup_cmd: build the conformance driver from /repo."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
try:
    core.build()
except core.ToolError as e:
    print(e)
    sys.exit(2)
