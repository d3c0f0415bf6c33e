"""run.py <PROPERTY> [--thorough] [--replay FILE] [--cases N] [--serial]"""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
if __name__ == '__main__':
    core.load_repo()
    mod = importlib.import_module('checks.' + sys.argv[1].lower())
    rc = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
