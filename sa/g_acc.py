"""Variables, constants and the accessors of handles and managers."""
from .core import *
from .lab import *
from .g_wrap import Handles, untag, opts
from .g_expr import ExprLab, Vars, cores
from .g_diag import Side, root, kind_of
from .g_walk import ZWalk
from .report import Group


def opt(it, v):
    """None, or the (forced) payload of an Option."""
    v = it.force(v)
    if not isinstance(v, Agg) or v.adt != OPT:
        raise Undecided("result %r" % (v,))
    if v.variant == 0:
        return None
    return (it.force(v.fields[0]),)


def text(v):
    return isinstance(v, str)


class Acc:
    def __init__(self, world, forest):
        self.w, self.forest = world, forest
        self.f = world.forests[forest]
        H = H3 if forest in ("bdd", "zdd") else M3S
        self.H = H
        self.sd = Side(world, forest, H) if forest != "zmdd" else None

    def lab(self):
        return Lab(self.w, self.H, {})

    def kinds(self, ctx, t):
        """Kinds the root can still have."""
        t = ctx.canon(t)
        k = kind_of(ctx, t, self.forest)
        if k is not None:
            return [k]
        st = self.f.static()
        return [k for k in self.f.kinds if not (k in st and k not in ("NonTerminal", "Terminal") and (
            (t, st.index(k)) in ctx.neq or (st.index(k), t) in ctx.neq))]

    def read(self, it, h):
        h = it.force(it.load(h))
        for x in h.fields:
            if isinstance(x, Agg) and str(x.adt).endswith("mtmdd2::Node"):
                return untag(it, self.w, x)
        return self.forest, node_of_handle(it, h)

    def same_mgr(self, it, h):
        m = it.ctx.data["mgr"]
        rc = [x.cell for x in it.force(m).fields if isinstance(x, RcV)]
        return all(not (isinstance(x, RcV) and x.weak) or any(x.cell is c for c in rc) for x in it.force(it.load(h)).fields)


def accessors(world, forest, tier):
    g = Group("acc:" + forest, "an accessor describes the diagram the handle is on")
    a = Acc(world, forest)
    node = a.sd.node
    crate = a.sd.crate
    side = {"bdd": "bdd", "zdd": "zdd"}.get(forest, "mt")
    st = a.f

    def run(name, expected, needhdr=False):
        body = world.need(crate, node, name)

        def entry(lab, it):
            h = a.sd.handle(lab, it)
            return it.run(body, [Ref(Cell(h))])

        def check(lab, it, ctx, v):
            t = ctx.canon(root("f", forest))
            for k in a.kinds(ctx, t):
                h = None
                if k == "NonTerminal":
                    h = ctx.canon(("hdr", t))
                    if needhdr and not isinstance(h, int):
                        raise Undecided("the variable of the root was not decided")
                w = expected(lab, it, ctx, k, h, v)
                if w:
                    return "%s for a %s root: %s" % (name, {"NonTerminal": "variable"}.get(k, k), w)
            return None
        r = LabRun(g, a.lab, entry, check, [], body, limit=2000)
        r.rules = "accessor " + name
        r.phase(None, ())

    def opteq(it, v, want):
        r = opt(it, v)
        if r is None or want is None:
            return None if r is None and want is None else "gives %s instead of %s" % ("None" if r is None else r[0], want)
        x = r[0]
        if isinstance(x, S):
            x = it.ctx.canon(x.t)
        if isinstance(want, tuple) and not isinstance(x, (tuple, int, str)):
            raise Undecided("result %r" % (x,))
        return None if x == want else "gives %s instead of %s" % (x, want)

    def nt(fn):
        return lambda lab, it, ctx, k, h, v: opteq(it, v, fn(lab, h) if k == "NonTerminal" else None)
    run("get_level", nt(lambda lab, h: lab.level(h)), True)
    run("get_label", nt(lambda lab, h: lab.label(h)), True)
    run("get_header", nt(lambda lab, h: h), True)

    def children(lab, it, ctx, k, h, v):
        r = opt(it, v)
        if (r is None) != (k != "NonTerminal"):
            return "gives %s" % ("None" if r is None else "children")
        if r is None:
            return None
        xs = r[0].items if isinstance(r[0], Seq) else r[0].fields
        n = 2 if a.sd.binary else lab.range(h)
        if len(xs) != n:
            return "%d children instead of %d" % (len(xs), n)
        for i, x in enumerate(xs):
            f, c = a.read(it, x)
            if f != forest or c != ctx.canon(("ch", root("f", forest), i)):
                return "child %d is %s" % (i, tstr(c))
            if not a.same_mgr(it, x):
                return "child %d belongs to another manager" % i
        return None
    run("get_children", children, True)

    def pred(fn):
        def e(lab, it, ctx, k, h, v):
            if not isinstance(v, bool):
                raise Undecided("result %r" % (v,))
            return None if v == fn(k) else "is %s" % v
        return e
    if forest != "mtmdd":
        run("is_zero", pred(lambda k: k == "Zero"))
        run("is_one", pred(lambda k: k == "One"))
        if forest != "zdd":
            run("is_undet", pred(lambda k: k == "Undet"))
    if side == "mt":
        run("is_boolean", pred(lambda k: forest == "mdd"))
        run("is_value", pred(lambda k: forest == "mtmdd"))

        def val(lab, it, ctx, k, h, v):
            r = opt(it, v)
            if forest == "mdd" or k != "Terminal":
                return None if r is None else "is a value"
            if r is None:
                return "is None"
            x = ctx.canon(r[0].t) if isinstance(r[0], S) else r[0]
            y = ctx.tval(ctx.canon(root("f", forest)))
            return None if x == (ctx.canon(y) if isinstance(y, tuple) else y) else "is %s" % (x,)
        run("value", val)

    # identity
    for name in ("get_id",) + (("get_id2",) if side == "mt" else ()):
        def ident(lab, it, ctx, k, h, v, name=name):
            t = ctx.canon(root("f", forest))
            v = it.force(v)
            xs = [ctx.canon(x.t) if isinstance(x, S) else x for x in (v.fields if isinstance(v, Agg) else [v])]
            want = [t] if name == "get_id" else [t, 0] if forest == "mtmdd" else [0, t]
            return None if xs == want else "gives %s" % ", ".join(tstr(x) for x in xs)
        run(name, ident)
    g.need("accessors of " + forest, 8)
    return g


def family_accessors(world, tier):
    g = Group("acc:zmdd", "a family handle reports its reading and the variables it was made over")
    a = Acc(world, "zmdd")

    def run(name, check):
        body = world.need("mss", "ZmddNode", name)

        def entry(lab, it):
            ctx = it.ctx
            ctx.data["rev"] = ctx.choose(2) == 1
            return it.run(body, [Ref(Cell(ZWalk(world, lab.H, ctx.data["rev"]).handle(lab, it)))])
        r = LabRun(g, a.lab, entry, check, [], body, limit=100)
        r.rules = "accessor " + name
        r.phase(None, ())
    run("is_cut", lambda lab, it, ctx, v: None if v is ctx.data["rev"] else "is_cut is %s for a %s family" % (v, "cut" if ctx.data["rev"] else "path"))

    def vars_(lab, it, ctx, v):
        got = pairs(it, v)
        want = [(lb, rg) for _, lb, rg in sorted(lab.H)]
        return None if got == want else "vars is %s" % (got,)
    run("vars", vars_)

    def ident(lab, it, ctx, v):
        t = ctx.canon(v.t) if isinstance(v, S) else v
        return None if t == ctx.canon(root("f", "zmdd")) else "the id is %s" % tstr(t)
    run("get_id", ident)
    g.need("accessors of families", 3)
    return g


def pairs(it, v):
    """A list of (name, number of states), or of names."""
    v = it.force(it.load(v))
    out = []
    for x in (v.items if isinstance(v, Seq) else it.items(v)):
        x = it.force(it.load(x))
        if isinstance(x, Agg):
            out.append(tuple(it.load(y) for y in x.fields))
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------------------
NAMES3 = ["a", "b", "c", "x1"]
RNG = {"a": 2, "b": 3, "c": 4, "x1": 3}


def variables(world, arg, tier):
    """Histories of variable definitions and constants on one manager."""
    g = Group("vars:" + arg, "variables are defined once, in order of first use, as the diagram of their value; constants are terminals")
    side, _, via = arg.partition("-")
    bss = side in ("bdd", "zdd")
    hs = Handles(world, side, via or None)
    mgr = via or hs.mgr
    forest = {"bdd": "bdd", "zdd": "zdd", "mt": "mtmdd"}[side]
    st = world.forests[forest]
    depth = 3 if tier == "quick" else 4

    def mklab():
        return ExprLab(world, [(i, "v%d" % i, 2 if bss else 3) for i in range(6)], {})
    body = world.need(hs.crate, mgr, "singleton" if side == "zdd" else "defvar")

    def M(it, m, name, *args):
        return it.force(it.run(world.need(hs.crate, mgr, name), [Ref(Cell(m))] + list(args)))

    def define(it, m, n):
        if side == "zdd":
            return M(it, m, "singleton", n)
        return M(it, m, "defvar", n, *([] if side == "bdd" else [RNG[n]]))

    def entry(lab, it):
        ctx = it.ctx
        m = hs.manager(lab, it)
        ctx.data["m"] = m
        order, made, bad = [], [], None
        ctx.data["made"], ctx.data["order"] = made, order
        known = NAMES3[:depth]
        for i in range(ctx.choose(depth) + 1):
            n = known[ctx.choose(len(known))]
            ctx.fact("variable %s" % n)
            if n not in order:
                order.append(n)
            made.append((n, define(it, m, n)))
        if side != "zdd":
            ctx.data["listed"] = pairs(it, M(it, m, "get_varorder"))
        return made

    def check(lab, it, ctx, v):
        order = ctx.data["order"]
        rg = {n: RNG[n] if not bss else 2 for n in order}
        vs = Vars(world, it, ctx.data["m"], forest, len(order) + 1)
        w = vs.check([(n, rg[n]) for n in order])
        if w:
            return w
        vs.zero, vs.one = st.id_of("Zero") if bss else None, st.id_of("One") if bss else None
        for n, h in ctx.data["made"]:
            f, t = hs.read(it, h)
            hd = vs.by[n][0][0]
            want = ("mk", forest, hd, vs.zero, vs.one) if bss else ("mk", forest, hd) + tuple(("const", "mtmdd", i) for i in range(rg[n]))
            if f != forest or t != want:
                return "variable %s is %s" % (n, tstr(t))
            if not hs.same_manager(it, h, ctx.data["mgr"]):
                return "the variable belongs to another manager"
        if "listed" in ctx.data:
            want = [n if bss else (n, rg[n]) for n in order]
            if ctx.data["listed"] != want:
                return "get_varorder gives %s instead of %s" % (ctx.data["listed"], want)
        return None
    r = LabRun(g, mklab, entry, check, [], body, limit=20000)
    r.rules = "definition of variables"
    r.phase(None, ())

    # constants
    T = {"bdd": [("zero", [], "bdd", "Zero"), ("one", [], "bdd", "One")],
         "zdd": [("empty", [], "zdd", "Zero"), ("base", [], "zdd", "One"), ("zero", [], "zdd", "Zero"), ("one", [], "zdd", "One")],
         "mt": [("boolean", [True], "mdd", "One"), ("boolean", [False], "mdd", "Zero"), ("undet_boolean", [], "mdd", "Undet"),
                ("undet_value", [], "mtmdd", "Undet"), ("value", [S(("c",), "val")], "mtmdd", ("const", "mtmdd", ("c",))),
                ("value", [0], "mtmdd", ("const", "mtmdd", 0))]}[side]
    for name, args, f, k in T:
        body = world.need(hs.crate, mgr, name)

        def entry(lab, it, body=body, args=args):
            m = hs.manager(lab, it)
            return it.run(body, [Ref(Cell(m))] + list(args))

        def check(lab, it, ctx, v, f=f, k=k, name=name):
            g2, t = hs.read(it, v)
            t = ctx.canon(t) if isinstance(t, tuple) else t
            ok = t == k if isinstance(k, tuple) else kind_of(ctx, t, f) == k
            if g2 != f or not ok:
                return "%s gives %s" % (name, tstr(t))
            if not hs.same_manager(it, v, ctx.data["mgr"]):
                return "the constant belongs to another manager"
            return None
        r = LabRun(g, mklab, entry, check, [], body, limit=100)
        r.rules = "constant " + name
        r.phase(None, ())

    # create_node
    if side != "zdd":
        body = world.need(hs.crate, mgr, "create_node")
        for f in ("bdd",) if bss else ("mdd", "mtmdd"):
            def entry(lab, it, f=f):
                m = hs.manager(lab, it)
                n = it.ctx.choose(2)
                hd = n
                it.ctx.data["hd"] = hd
                xs = [hs.handle(lab, it, i, f) for i in range(lab.range(hd))]
                return it.run(body, [Ref(Cell(m)), hd] + ([Ref(Cell(x)) for x in xs] if bss else [slicev(xs)]))

            def check(lab, it, ctx, v, f=f):
                g2, t = hs.read(it, v)
                want = ("mk", f, ctx.data["hd"]) + tuple(root("fgh"[i], f) for i in range(lab.range(ctx.data["hd"])))
                if g2 != f or t != ctx.canon(want):
                    return "create_node gives %s" % tstr(t)
                if not hs.same_manager(it, v, ctx.data["mgr"]):
                    return "the node belongs to another manager"
                return None
            r = LabRun(g, lambda: Lab(world, H3 if bss else M2, {}), entry, check, [], body, limit=100)
            r.rules = "create_node"
            r.phase(None, ())
    g.need("variables of " + side, 10)
    return g


def ground(ctx, vs, t, st):
    """The explicit family of a ground set-family term."""
    t = ctx.canon(t)
    if isinstance(t, int):
        k = st.static()[t] if t < len(st.static()) else None
        if k == "Zero":
            return frozenset()
        if k == "One":
            return frozenset([frozenset()])
        raise Undecided("family %s" % t)
    if t[0] == "mk":
        lo, hi = [ground(ctx, vs, c, st) for c in t[3:]]
        return lo | frozenset(s | {vs[t[2]]} for s in hi)
    if t[0] == "op":
        a, b = [ground(ctx, vs, c, st) for c in t[2:]]
        n = t[1].split(".")[1]
        if n == "union":
            return a | b
        if n == "intersect":
            return a & b
        if n == "setdiff":
            return a - b
        if n == "product":
            return frozenset(x | y for x in a for y in b)
    raise Undecided("family %s" % tstr(t))


class FamLab(ExprLab):
    """Set-family terms over known elements: nodes are the same exactly for equal families."""

    def same_ok(self, ctx, a, b):
        st = self.w.forests["zdd"]
        ids = {h: h for h in range(16)}
        return True if ground(ctx, ids, a, st) == ground(ctx, ids, b, st) else None


SETS = [[], ["a"], ["b", "a"], ["a", "a"], ["c", "b"], ["a", "b", "c"]]


def from_sets(world, tier):
    g = Group("fromsets", "from_sets builds exactly the given family")
    hs = Handles(world, "zdd")
    st = world.forests["zdd"]
    body = world.need("bss", "ZddMgr", "from_sets")

    def entry(lab, it):
        ctx = it.ctx
        m = hs.manager(lab, it)
        ctx.data["m"] = m
        out = ctx.data["made"] = []
        order = ctx.data["order"] = []
        if ctx.choose(2):
            it.run(world.need("bss", "ZddMgr", "singleton"), [Ref(Cell(m)), "b"])
            order.append("b")
            ctx.fact("b is an element already")
        for _ in range(1 + ctx.choose(2)):
            n = ctx.choose(2 if out else 3 if tier == "quick" or order else 4)
            fam = [SETS[ctx.choose(len(SETS) if n < 3 else 4)] for _ in range(n)]
            for s in fam:
                order += [x for i, x in enumerate(s) if x not in order and x not in s[:i]]
            ctx.fact("from_sets(%s)" % fam)
            out.append((fam, it.force(it.run(body, [Ref(Cell(m)), slicev([Seq(list(s)) for s in fam])]))))
        return out

    def check(lab, it, ctx, v):
        order = ctx.data["order"]
        vs = Vars(world, it, ctx.data["m"], "zdd", len(order) + 1)
        w = vs.check([(n, 2) for n in order])
        if w and set(vs.by) != set(order):
            return w
        if any(len(x) != 1 for x in vs.by.values()):
            return w
        names = {x[0][0]: n for n, x in vs.by.items()}
        for fam, h in ctx.data["made"]:
            got = ground(ctx, names, hs.read(it, h)[1], st)
            want = frozenset(frozenset(s) for s in fam)
            if got != want:
                return "from_sets(%s) is %s" % (fam, sorted(sorted(s) for s in got))
        return None
    r = LabRun(g, lambda: FamLab(world, [(i, "v%d" % i, 2) for i in range(6)], {}), entry, check, [], body, limit=50000)
    r.rules = "families from lists"
    r.phase(None, ())
    g.need("families from lists", 30)
    return g


def famvars(world, tier):
    """A minimal-vector family records every variable of the manager, also those the function ignores."""
    g = Group("famvars", "minpath and mincut record the variables and states of the manager")
    hs = Handles(world, "mt", "MssMgr")
    for method in ("minpath", "mincut"):
        body = world.need("mss", "MssMgr", method)

        def entry(lab, it):
            ctx = it.ctx
            m = hs.manager(lab, it)
            order = [["y", "x"], ["z", "x", "y"], ["z"]][ctx.choose(3)]
            ctx.data["order"] = order
            for n in order:
                it.force(it.run(world.need("mss", "MssMgr", "defvar"), [Ref(Cell(m)), n, {"x": 2, "y": 3, "z": 2}[n]]))
            name, arg = [("boolean", True), ("boolean", False), ("value", 5)][ctx.choose(3)]
            ctx.fact("%s(%s) over %s" % (name, arg, order))
            h = it.force(it.run(world.need("mss", "MssMgr", name), [Ref(Cell(m)), arg]))
            return it.run(body, [Ref(Cell(m)), Ref(Cell(h))])

        def check(lab, it, ctx, v):
            r = opt(it, v)
            if r is None:
                return "no family for a constant"
            got = pairs(it, it.run(world.need("mss", "ZmddNode", "vars"), [Ref(Cell(r[0]))]))
            want = [(n, {"x": 2, "y": 3, "z": 2}[n]) for n in ctx.data["order"]]
            return None if got == want else "the family is over %s instead of %s" % (got, want)
        r = LabRun(g, lambda: ExprLab(world, [(i, "v%d" % i, 3) for i in range(6)], {}), entry, check, [], body, limit=5000)
        r.rules = "variables of " + method
        r.phase(None, ())
    g.need("variables of families", 8)
    return g
