"""Generate frozen reference tables from a pristine tree (not run by any check).

usage: gen_ref.py NAME
"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import wload
wload.load()
import importlib

if __name__ == '__main__':
    for n in sys.argv[1:]:
        importlib.import_module('props.' + n).generate()
        print('generated', n)
