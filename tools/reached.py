#!/usr/bin/env python3
"""Development: which functions of the workspace no analysis enters.  reached.py MIRDIR"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import mir, props, interp, core
import check, time
LOG = "/tmp/reached.log"
seen = set()
orig = interp.Interp.run


def run(self, body, args):
    if body.key not in seen:
        seen.add(body.key)
        with open(LOG, "a") as fh:
            fh.write(body.key + "\n")
    return orig(self, body, args)


interp.Interp.run = run
prog = mir.load(sys.argv[1])
open(LOG, "w").close()
core.DEADLINE[0] = time.time() + 3000
specs = []
for p in props.PROPS.values():
    specs += p["groups"]
specs = [s for s in dict.fromkeys(specs) if not any("-low" in str(x) or "-high" in str(x) or "-fork" in str(x) for x in s) and s[0] != "bmeas" or s[1:] == ("bdd",)]
check.run_groups(prog, specs, "quick")
got = set(open(LOG).read().split("\n"))
for k, b in sorted(prog.bodies.items()):
    if b.kind == "body" and b.name != "{closure}" and k not in got:
        print("pub " if b.pub else "    ", b.where(), b.trait or "")
