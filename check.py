#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py --replay <file>"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import engine
from check_registry import PROPS
sys.exit(engine.main(PROPS, sys.argv[1:]))
