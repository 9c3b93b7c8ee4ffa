#!/usr/bin/env python3
"""Decide one property of /repo's current source.   check.py <property> [--tier quick|thorough]

Exit 0: no violation.  Exit 1: VIOLATION lines.  Exit 2: the source could not be analysed (does
not compile, driver missing)."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import core, mir, props, report          # noqa: E402
from sa.forest import Missing              # noqa: E402
from sa.core import Undecided              # noqa: E402

EXPLAIN = ("Static: the type-checked MIR of the workspace is dumped by a rustc driver and abstractly interpreted; "
           "no program code is executed and no solver is used. Per function, the abstract states are partitioned by node kind, "
           "variable order, id equality and table outcome; 'cases' counts these partitions, an obligation is one partition's "
           "result compared with the rule, 'undecided' partitions met a construct without a model and raise no alarm.")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--mir", help="reuse a MIR dump (development only)")
    ap.add_argument("--evidence", help="directory for the evidence file (development only)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    if a.prop not in props.PROPS:
        print("unknown property %s" % a.prop, file=sys.stderr)
        return 2
    core.DEADLINE[0] = t0 + (560 if tier == "quick" else 840)
    try:
        prog = mir.load(a.mir)
    except Exception as e:
        print("cannot analyse the workspace: %s" % e, file=sys.stderr)
        return 2
    groups = run_groups(prog, props.PROPS[a.prop]["groups"], tier)
    return conclude(a.prop, groups, tier, t0, a.v, a.evidence)


def run_groups(prog, specs, tier):
    from sa import ops
    out = []
    world = None
    try:
        world = ops.World(prog)
    except Missing as m:
        g = report.Group("workspace", "the managers exist")
        g.missing(m.what)
        return [g]
    specs = list(dict.fromkeys(specs))
    if any(sp[0] in ("ops", "memo") for sp in specs):
        from sa import g_ops
        try:
            g_ops.pass1(world)
        except Exception:
            world._pass1 = None     # every group reports it for itself
    jobs = min(len(specs), int(os.environ.get("VERIF_JOBS", "0") or 0) or os.cpu_count() or 1)
    if jobs <= 1:
        return [run_group(world, sp, tier) for sp in specs]
    import multiprocessing
    global WORLD
    WORLD = world
    with multiprocessing.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        return pool.starmap(pooled, [(sp, tier) for sp in specs], chunksize=1)


WORLD = None


def pooled(spec, tier):
    return run_group(WORLD, spec, tier)


def run_group(world, spec, tier):
    fn, args = spec[0], spec[1:]
    name = ":".join(map(str, spec))
    t = time.time()
    try:
        g = props.GROUPS[fn](world, *args, tier=tier)
    except Missing as m:
        g = report.Group(name, "")
        g.missing(m.what)
    except Undecided as u:
        g = report.Group(name, "")
        g.unsure(fn, "", str(u))
    except RecursionError:
        g = report.Group(name, "")
        g.unsure(fn, "", "recursion too deep")
    except Exception:
        g = report.Group(name, "")
        g.unsure(fn, "", "analysis error: " + traceback.format_exc().strip().splitlines()[-1])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    g.seconds = round(time.time() - t, 1)
    return g


def findings():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = {}
                head, _, what = line[len("finding:"):].partition(" :: ")
                for kv in head.split("|"):
                    k, _, v = kv.strip().partition("=")
                    d[k] = v
                d["what"] = what
                out.append(d)
    return out


def conclude(prop, groups, tier, t0, verbose, evdir=None):
    known = [f for f in findings() if f.get("property") == prop]
    viol, reported = [], []
    for g in groups:
        for v in g.violations:
            k = [f for f in known if f.get("where") == report.norm(v["where"]) and f.get("rule") == v["rule"]]
            if k:
                if k[0] not in reported:
                    reported.append(k[0])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
            else:
                viol.append((g, v))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": EXPLAIN,
            "functions_analysed": len(set().union(*[g.functions for g in groups])) if groups else 0,
            "cases": sum(g.partitions for g in groups),
            "obligations": sum(g.obligations for g in groups),
            "discharged": sum(g.discharged for g in groups),
            "undecided": sum(len(g.undecided) for g in groups),
            "groups": [g.json() for g in groups],
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    d = evdir or os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, "%s.violations.json" % prop)
    json.dump(ev, open(os.path.join(d, "%s.json" % prop), "w"), indent=1)
    for g in groups:
        print("%-22s functions %3d  cases %6d  obligations %6d  discharged %6d  undecided %4d  violations %d" % (
            g.name, len(g.functions), g.partitions, g.obligations, g.discharged, len(g.undecided), len(g.violations)))
        if verbose:
            for u in g.undecided[:8]:
                print("    undecided", u)
    if viol:
        json.dump([{"group": g.name, **v} for g, v in viol], open(rp, "w"), indent=1)
        for g, v in viol:
            print("  %s\n    rule: %s\n    case: %s\n    %s" % (v["where"], v["rule"], v["case"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    return 0


if __name__ == "__main__":
    sys.exit(main())
