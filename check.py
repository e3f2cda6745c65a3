#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decide one property on the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from checks import CHECKS
vlib.main(CHECKS)
