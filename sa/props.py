"""Which analyses decide which property."""
from . import g_ops, g_node, g_cache, g_gc, g_diag, g_walk, g_sol, g_wrap, g_expr, g_pins, g_acc, g_dot, g_keep, g_canon, g_many

GROUPS = {
    "ops": lambda w, f, tier: g_ops.ops(w, f, tier),
    "memo": lambda w, f, tier: g_ops.memo(w, f, tier),
    "node": lambda w, f, tier: g_node.creation(w, f, tier),
    "cache": lambda w, tier: g_cache.cache(w, tier),
    "gc": lambda w, f, tier: g_gc.gc(w, f, tier),
    "prob": lambda w, f, tier: g_diag.prob(w, f, tier),
    "bmeas": lambda w, f, tier: g_diag.bmeas(w, f, tier),
    "count": lambda w, f, tier: g_walk.boundcount(w, f, tier),
    "countstep": lambda w, f, tier: g_walk.stepcount(w, f, tier),
    "enum": lambda w, f, tier: g_walk.enum(w, f, tier),
    "size": lambda w, f, tier: g_walk.size(w, f, tier),
    "strata": lambda w, tier: g_walk.strata(w, tier),
    "sol": lambda w, f, tier: g_sol.solve(w, f, tier),
    "handle": lambda w, f, tier: g_wrap.handles(w, f, tier),
    "nary": lambda w, f, tier: g_wrap.nary(w, f, tier),
    "tagged": lambda w, tier: g_wrap.tags(w, tier),
    "rpn": lambda w, f, tier: g_expr.rpn(w, f, tier),
    "pins": lambda w, f, tier: g_pins.pins(w, f, tier),
    "acc": lambda w, f, tier: g_acc.accessors(w, f, tier) if f != "zmdd" else g_acc.family_accessors(w, tier),
    "vars": lambda w, f, tier: g_acc.variables(w, f, tier),
    "fromsets": lambda w, tier: g_acc.from_sets(w, tier),
    "famvars": lambda w, tier: g_acc.famvars(w, tier),
    "dual": lambda w, tier: g_sol.dual(w, tier),
    "many": lambda w, f, tier: g_many.many(w, f, tier),
    "canon": lambda w, f, tier: g_canon.canon(w, f, tier),
    "dot": lambda w, f, tier: g_dot.dot(w, f, tier),
    "upkeep": lambda w, f, tier: g_keep.upkeep(w, f, tier),
    "delegate": lambda w, f, tier: g_keep.delegation(w, f, tier),
    "gc2": lambda w, tier: g_gc.gc2(w, tier),
}
FORESTS = ("bdd", "zdd", "mdd", "mtmdd", "zmdd")

DIAG = ("bdd", "mdd", "mtmdd")



def deep(what, forests):
    """The small diagrams of a forest, and the deeper ones of a fixed outline."""
    return [(what, f + x) for x in ("", "-low", "-high", "-fork") for f in forests]


PROPS = {
    "P01": {"groups": [("ops", "bdd"), ("memo", "bdd"), ("node", "bdd"), ("cache",)]},
    "P02": {"groups": [("ops", "mdd"), ("memo", "mdd"), ("node", "mdd"), ("cache",)]},
    "P03": {"groups": [("ops", "mtmdd"), ("memo", "mtmdd"), ("node", "mtmdd"), ("cache",)]},
    "P04": {"groups": [("ops", "mt2"), ("memo", "mt2"), ("ops", "mdd"), ("ops", "mtmdd"), ("node", "mdd"), ("node", "mtmdd"), ("tagged",), ("cache",)]},
    "P05": {"groups": [("ops", "zdd"), ("memo", "zdd"), ("node", "zdd")]},
    "P06": {"groups": [("ops", "zmdd"), ("memo", "zmdd"), ("node", "zmdd"), ("cache",)]},
    "P07": {"groups": [("node", f) for f in FORESTS] + [("canon", "bss"), ("canon", "mss")]},
    "P08": {"groups": [("memo", f) for f in FORESTS + ("mt2",)] + [("cache",)]},
    "P09": {"groups": [("gc", f) for f in FORESTS] + [("gc2",), ("cache",)]},
    "P10": {"groups": [("prob", f) for f in DIAG]},
    "P11": {"groups": [("bmeas", f) for f in DIAG]},
    "P12": {"groups": deep("count", FORESTS) + [("countstep", f) for f in ("bdd", "zdd", "zmdd")]},
    "P13": {"groups": deep("enum", FORESTS) + [("strata",)]},
    "P14": {"groups": deep("size", FORESTS[:4])},
    "P15": {"groups": [("sol", "minpath-bdd"), ("sol", "mincut-bdd")]},
    "P16": {"groups": [("sol", m + "-" + f) for f in ("mdd", "mtmdd") for m in ("minpath", "mincut")]},
    "P17": {"groups": [("nary", "bdd"), ("nary", "mdd"), ("many", "bdd"), ("many", "mdd"), ("dual",)]},
    "P18": {"groups": [("handle", s) for s in ("bdd", "zdd", "mt", "zmdd")]},
    "P19": {"groups": [("rpn", x) for x in ("bdd-x", "bdd-0", "bdd-3", "bdd-4", "mdd-x", "mdd-0", "mdd-2", "mdd-4", "mdd-5", "mdd-6", "mdd-7")]},
    "P20": {"groups": [("pins", "bdd-%d" % i) for i in range(14)] + [("pins", "mt-%d" % i) for i in range(14)]
            + [("pins", x) for x in ("zdd", "zmdd", "bdd-arm", "zdd-arm", "mt-arm", "zdd-minpath", "zdd-mincut", "zmdd-minpath", "zmdd-mincut")]},
    "P21": {"groups": [("acc", f) for f in FORESTS] + [("vars", x) for x in ("bdd", "bdd-BssMgr", "zdd", "mt", "mt-MssMgr")] + [("fromsets",), ("famvars",)]},
    "P22": {"groups": deep("dot", FORESTS)},
    "P23": {"groups": [("upkeep", f) for f in FORESTS + ("mt2",)] + [("delegate", "bss"), ("delegate", "mss"), ("cache",)]},
}

ASSUMPTIONS = [
    "the rustc front end and the MIR it produces represent the source",
    "the models of the standard library containers and iterators used by the workspace",
]
