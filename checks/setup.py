#!/usr/bin/env python3
"""Setup: builds the real library of the current tree once. Every check does the same if it is missing."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check
try:
    build.lib_pair(check.GUARD)
except build.BuildError as e:
    print(str(e)[-2000:])
