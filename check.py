#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   |   check.py <property> replay <file>"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp.core import main
sys.exit(main(sys.argv[1:]))
