#!/usr/bin/env python3-vt
import sys, os, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'dv'), os.path.join(V, 'checks')]
import check
mod = importlib.import_module(sys.argv[1].lower())
sys.exit(check.main(mod, sys.argv[2:]))
