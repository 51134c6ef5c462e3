#!/usr/bin/env python3-vt
"""./check.py <property id>: decide one property on /repo's current tree (exit 0 held, 1 violated)."""
import importlib
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'engine'))
sys.path.insert(0, os.path.join(here, 'checks'))
sys.setrecursionlimit(20000)
import fw

GROUP = {'H': 'healpix', 'T': 'tle', 'D': 'dates', 'S': 'sky', 'P': 'search', 'V': 'visibility', 'O': 'orbit'}

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module(GROUP[pid[0]])
    sys.exit(fw.run_main(pid, getattr(mod, pid)))
