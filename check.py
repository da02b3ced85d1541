#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [harness...]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, table
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
hs = table.harnesses(prop)
if len(sys.argv) > 3:
    hs = [h for h in hs if h.name in sys.argv[3:]]
sys.exit(vf.main(prop, "", hs, tier, table.ASSUMPTIONS.get(prop, []) + table.COMMON))
