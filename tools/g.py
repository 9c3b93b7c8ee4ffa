#!/usr/bin/env python3
"""Run groups by name on a MIR dump (development aid): g.py MIRDIR TIER group[:arg]..."""
import sys, time
sys.path.insert(0, "/verif")
import check
from sa import mir
prog = mir.load(sys.argv[1])
for s in sys.argv[3:]:
    t = time.time()
    for g in check.run_groups(prog, [tuple(s.split(":"))], sys.argv[2]):
        print("%-22s functions %3d  cases %6d  obligations %6d  discharged %6d  undecided %4d  violations %d  %.1fs" % (
            g.name, len(g.functions), g.partitions, g.obligations, g.discharged, len(g.undecided), len(g.violations), time.time() - t))
        for f in sorted(g.functions):
            print("   fn", f)
        for u in g.undecided[:6]:
            print("   undecided", u)
        for v in g.violations[:8]:
            print("   VIOL", v)
