"""setup_cmd: build every interpreter variant the checks use."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import build as B
for st in ('compact', 'fatty', 'hygienic'):
    for fl in ('opt', 'san'):
        print(B.build(st + '-' + fl))
