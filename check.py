#!/opt/venv/bin/python
"""Run one property's check:  check.py C01 [--tier quick|thorough] [--case SUBSTR] [--replay FILE] [-v]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv.pop(1)
from vlib import harness  # noqa: E402

try:
    mod = importlib.import_module("checks." + prop.lower())
except Exception as e:  # an internal name the check relies on is gone: no verdict, and no alarm
    sys.exit(harness.not_decided(prop, e))
sys.exit(harness.main(mod, prop, assumptions=list(harness.ASSUME) + list(getattr(mod, "ASSUME", [])), functions=mod.FUNCTIONS, bounds=mod.BOUNDS, pre=getattr(mod, "pre", None), notes=getattr(mod, "notes", None)))
