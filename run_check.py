"""usage: run_check.py <property id>   - decides one property on the current tree"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf.checklib import run
pid = sys.argv[1]
run(importlib.import_module("checks." + pid.lower()).main)
