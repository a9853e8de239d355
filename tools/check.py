#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree (see DESIGN.md)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, checks
pid = sys.argv[1]
if len(sys.argv) > 2: vf.TIER = sys.argv[2]
c = checks.CHECKS[pid]
vf.main(pid, c['level'], c['fn'], c['assumptions'])
