#!/usr/bin/env python3
"""check.py <property>: decide one property (see DESIGN.md)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib, checks
if __name__ == '__main__':
    p = sys.argv[1]
    sys.exit(vlib.main(p, checks.CHECKS[p]))
