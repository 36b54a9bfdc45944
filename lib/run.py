import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base

MODULES = ['c_data', 'c_store', 'c_text', 'c_misc']

if __name__ == '__main__':
    checks = {}
    for m in MODULES:
        checks.update(importlib.import_module(m).CHECKS)
    base.main(checks)
