#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property on /repo's working tree."""
import importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(H, 'lib'), os.path.join(H, 'checks')]
import vlib
pid = sys.argv[1]
vlib.main(pid, importlib.import_module(pid).body)
