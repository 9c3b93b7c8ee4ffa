"""Groups: the diagram operations (contracts) with and without memo hits."""
from .core import *
from .ops import DEFS, BYNAME, verify
from .report import Group

FAMILY = {
    "bdd": [d for d in DEFS if d.owner == "bdd"],
    "mdd": [d for d in DEFS if d.owner == "mdd"],
    "mtmdd": [d for d in DEFS if d.owner == "mtmdd"],
    "zdd": [d for d in DEFS if d.owner == "zdd"],
    "zmdd": [d for d in DEFS if d.owner == "zmdd"],
    "mt2": [d for d in DEFS if d.owner == "mt2"],
}


def absorb(g, run, body, what):
    g.fn(body)
    g.partitions += run.partitions
    g.points += run.points
    bad = len(run.violations)
    for v in run.violations:
        g.bad(v["where"], v["rule"], v["case"], v["detail"])
    for case, why in run.undecided:
        g.unsure(body.where(), "%s: %s" % (what, case), why)
    n = max(0, run.partitions - bad - len(run.undecided))
    g.ok(n)


def pass1(world):
    """Every operation with all memo lookups missing; records what the memo tables hold."""
    if getattr(world, "_pass1", None) is None:
        world._pass1 = {}
        for d in DEFS:
            if d.name in world.bodies:
                world._pass1[d.name] = verify(world, d)
    return world._pass1


def ops(world, fam, tier):
    g = Group("ops:" + fam, "each operation returns the diagram of its pointwise/set meaning, by structural induction over operand partitions")
    p1 = pass1(world)
    defs = FAMILY[fam]
    for d in defs:
        if d.name not in world.bodies:
            if not d.optional:
                g.missing("%s::%s" % (world_owner(world, d.owner), d.method))
            continue
        b = world.bodies[d.name]
        absorb(g, p1[d.name], b, "%s, no memo hit" % d.name)
        g.sample("%s: %d operand partitions, %d points compared" % (d.name, p1[d.name].partitions, p1[d.name].points))
        if d.consts:
            absorb(g, verify(world, d, consts=True), b, "%s on constants" % d.name)
        if fam not in ("bdd", "zdd"):
            absorb(g, verify(world, d, arity=3), b, "%s, three-valued variables" % d.name)
            absorb(g, verify(world, d, arity=4, limit=60000), b, "%s, four-valued variables" % d.name)
            for n in (11, 260):
                absorb(g, verify(world, d, arity=n, limit=60000), b, "%s, variables of %d states" % (d.name, n))
    g.need("operations of " + fam, 20)
    return g


def memo(world, fam, tier):
    g = Group("memo:" + fam, "an operation that finds any entry stored by any operation of the manager still returns its own meaning")
    pass1(world)
    pats = world.memo_patterns.get("all", [])
    hits = 0
    for d in FAMILY[fam]:
        if d.name not in world.bodies:
            continue
        b = world.bodies[d.name]
        r = verify(world, d, patterns=pats)
        hits += r.hits
        absorb(g, r, b, "%s with memo hits" % d.name)
        if fam not in ("bdd", "zdd"):
            absorb(g, verify(world, d, patterns=pats, arity=3, limit=60000), b, "%s with memo hits, three-valued variables" % d.name)
            absorb(g, verify(world, d, patterns=pats, arity=11, limit=60000), b, "%s with memo hits, variables of 11 states" % d.name)
    g.sample("%d memo hits considered, %d stored entry forms" % (hits, len(pats)))
    return g


def world_owner(world, o):
    return "mddcore::MtMdd2Manager" if o == "mt2" else "%s::%s" % (world.forests[o].crate, world.forests[o].mgr)
