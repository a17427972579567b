#!/usr/bin/env python3
"""Sanity check of the tools the checks need (nothing is kept between runs)."""
import os, subprocess, sys
print(subprocess.check_output(["go", "version"], text=True).strip())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
print(len(CHECKS), "checks")
