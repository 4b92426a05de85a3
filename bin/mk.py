#!/usr/bin/env python3
"""mk.py <variant> <driver>...: builds drivers (for debugging)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.Ctx('dbg', 'quick', 1).build(sys.argv[1], sys.argv[2:]))
