"""One header per variable in a family forest: families of several minpath/mincut calls share their diagrams.

A forest is canonical only if a variable has one header; the conversion of a solution into the family
forest must therefore find the header an earlier conversion made."""
from . import sem
from .core import *
from .lab import *
from .g_wrap import Handles
from .g_expr import ExprLab, Vars, cores
from .g_acc import opt
from .report import Group

RNG = {"x": 2, "y": 3, "z": 2}


class Ground:
    """Results of operations on completely known diagrams (variable i has level i), as reduced terms."""

    def __init__(self, world, ctx):
        self.w, self.ctx = world, ctx

    def leaf(self, f, t):
        """The value at a leaf, or None for a node."""
        if isinstance(t, int):
            st = self.w.forests[f].static()
            return {"Zero": 0, "One": 1, "Undet": sem.BOT}[st[t]]
        return t[2] if t[0] == "const" else None

    def unleaf(self, f, v):
        st = self.w.forests[f]
        if v == sem.BOT:
            return st.id_of("Undet")
        return ("const", f, v) if f == "mtmdd" else st.id_of("One" if v else "Zero")

    def __call__(self, name, ts):
        if name not in sem.PW:
            return None
        ts = [self.full(t) for t in ts]
        if not all(self.ctx.definite(t) for t in ts):
            return None
        fs, fn = sem.PW[name]
        return self.apply(name.split(".")[0], fs, fn, ts)

    def full(self, t):
        t = self.ctx.canon(t)
        if isinstance(t, tuple) and t[0] == "mk":
            ks = tuple(self.full(c) for c in t[3:])
            if t[1] in sem.ZS:
                empty = self.w.forests[t[1]].id_of("Zero" if t[1] == "zdd" else "Undet")
                return ks[0] if all(k == empty for k in ks[1:]) else t[:3] + ks
            return ks[0] if len(set(ks)) == 1 else t[:3] + ks
        return t

    def apply(self, f, fs, fn, ts):
        vs = [self.leaf(x, t) for x, t in zip(fs, ts)]
        if all(v is not None for v in vs):
            return self.unleaf(f, fn(*vs))
        h = max(t[2] for t, v in zip(ts, vs) if v is None)
        n = max(len(t) - 3 for t, v in zip(ts, vs) if v is None and t[2] == h)
        ks = tuple(self.apply(f, fs, fn, [t[3 + i] if v is None and t[2] == h else t for t, v in zip(ts, vs)]) for i in range(n))
        return ks[0] if len(set(ks)) == 1 else ("mk", f, h) + ks


class CanonLab(ExprLab):
    """Multi-valued zero-suppressed nodes are reduced as create_node documents."""

    def arityof(self, it, f, t):
        t = it.ctx.canon(t)
        return len(t) - 3 if t[0] == "mk" else super().arityof(it, f, t)

    def made(self, it, f, t):
        ctx = it.ctx
        h = ctx.canon(t[2])
        if f.name != "zmdd" or not isinstance(h, int):
            return super().made(it, f, t)
        kids = [ctx.canon(c) for c in t[3:]]
        u = f.id_of("Undet")
        if all(ctx.node_eq(c, u) for c in kids[1:]):
            k = ctx.canon(kids[0])
            if ctx.canon(t) != k:
                ctx.setrep(ctx.canon(t), k)
            return f.kind(it, k)
        t = ctx.canon(t)
        ctx.kinds[t] = "NonTerminal"
        for a, b in [(("hdr", t), h)] + [(("ch", t, i), c) for i, c in enumerate(kids)]:
            a, b = ctx.canon(a), ctx.canon(b)
            if a != b:
                ctx.setrep(a, b)
        return "NonTerminal"


def canon(world, arg, tier):
    bss = arg == "bss"
    g = Group("canon:" + arg, "equal families of several minpath and mincut calls are the same diagram, and each variable has one header")
    mgr, node, dst = ("BssMgr", "ZddNode", "zdd") if bss else ("MssMgr", "ZmddNode", "zmdd")
    inner = "BddMgr" if bss else "MddMgr"
    src = Handles(world, "bdd" if bss else "mt", mgr)
    bodies = {n: world.need(arg, mgr, n) for n in ("minpath", "mincut")}
    getid = world.need(arg, node, "get_id")
    names = ["x", "y", "xy"] + ([] if bss else ["y>1"])
    # equal families of different calls
    same = {("mincut", "x"): ("minpath", "x"), ("mincut", "y"): ("minpath", "y")} if bss else {}

    def entry(order, lab, it):
        ctx = it.ctx
        ctx.data["ground"] = Ground(world, ctx)
        m = src.manager(lab, it)
        fn = {}

        def call(name, *args):
            return it.force(it.run(world.need(arg, mgr, name), [Ref(Cell(m))] + list(args)))
        for n in order:
            fn[n] = call("defvar", n, *([] if bss else [RNG[n]]))
        hdr = {n: it.load(opt(it, it.run(world.need(arg, "BddNode" if bss else "MddNode", "get_header"), [Ref(Cell(fn[n]))]))[0]) for n in fn}
        top, low = order[1], order[0]

        def made(h, kids):
            if bss:
                return call("create_node", hdr[h], *[Ref(Cell(k)) for k in kids])
            return call("create_node", hdr[h], slicev(kids))
        if bss:
            fn["xy"] = made(top, [call("zero"), fn[low]])
        else:
            fn["xy"] = made(top, [call("value", 0)] + [fn[low] for _ in range(RNG[top] - 1)])
            fn["y>1"] = made("y", [call("boolean", False), call("boolean", False), call("boolean", True)])
        out = ctx.data["calls"] = []
        for _ in range(2 if tier == "quick" else 3):
            meth = ("minpath", "mincut")[ctx.choose(2)]
            f = names[ctx.choose(len(names))]
            ctx.fact("%s(%s)" % (meth, f))
            r = opt(it, it.run(bodies[meth], [Ref(Cell(m)), Ref(Cell(fn[f]))]))
            if r is None:
                raise Infeasible()      # the functions are monotone (group sol decides that)
            out.append((meth, f, it.load(it.run(getid, [Ref(Cell(r[0]))]))))
        ctx.data["m"] = m
        return UNIT

    def check(lab, it, ctx, v):
        calls = ctx.data["calls"]
        vs = Vars(world, it, ctx.data["m"], dst, 3 * len(calls) + 3)
        for n, hs in vs.by.items():
            if not isinstance(n, str):
                raise Undecided("label %r" % (n,))
            if len(hs) != 1:
                return "variable %s has %d headers in the family forest" % (n, len(hs))
        for i, (m1, f1, a) in enumerate(calls):
            for m2, f2, b in calls[:i]:
                if same.get((m1, f1), (m1, f1)) == same.get((m2, f2), (m2, f2)) and it.compare_eq(a, b) is not True:
                    return "%s(%s) and %s(%s) are the same family but different diagrams" % (m2, f2, m1, f1)
        return None

    for order in (("x", "y", "z"), ("y", "x", "z")):
        r = LabRun(g, lambda: CanonLab(world, [(i, n, RNG[n]) for i, n in enumerate(order)], {}), lambda lab, it: entry(order, lab, it), check, [],
                   bodies["minpath"], limit=20000)
        r.rules = "one header per variable across conversions"
        r.phase(None, ())
    g.need("conversions into " + dst, 8)
    return g
