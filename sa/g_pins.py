"""Handles and collection: what the user-facing layer asks the core collector to keep.

Histories of handle operations up to a bound are followed with an arbitrary decision, at every
point where the code asks for the number of live nodes, whether a collection is due.  At each
collection the roots handed to the core must cover every diagram that a live handle, a defined
variable or the operation in progress still needs; a final collection must not keep anything
else.  The core operations and the collector itself are contracts (decided by other groups)."""
from .core import *
from .lab import *
from .g_wrap import Handles, untag, tagged
from .g_expr import ExprLab
from .g_sol import Sol, inner
from .g_diag import Side, root
from .g_walk import ZWalk
from .report import Group


class PinLab(ExprLab):
    """The scripts of a history build different functions: different terms are different nodes."""

    def same_ok(self, ctx, a, b):
        return None


class Trace:
    """The collector and live-count contracts, and the history of one partition."""

    def __init__(self, world, side, forests):
        self.w, self.side, self.forests = world, side, forests

    def hooks(self):
        h = {}
        p = self.w.prog
        sets = [(f.crate, f.mgr, n) for n, f in self.w.forests.items() if n in self.forests]
        if self.side == "mt":
            sets.append(("mddcore", "MtMdd2Manager", None))
        for crate, mgr, n in sets:
            b = p.find(crate, mgr, "gc")
            if b is not None:
                h[b.key] = self.gc(n)
            b = p.find(crate, mgr, "live_node_count")
            if b is not None:
                h[b.key] = self.live
        return h

    def gc(self, forest):
        def run(it, args, fr):
            ctx = it.ctx
            seq = it.load(args[1])
            if not isinstance(seq, Seq) or seq.tail is not None if hasattr(seq, "tail") else not isinstance(seq, Seq):
                raise Undecided("roots %r" % (seq,))
            roots = []
            for x in seq.items:
                if forest is None:
                    roots.append(untag(it, self.w, x))
                else:
                    x = it.load(x)
                    roots.append((forest, ctx.canon(x.t) if isinstance(x, S) else x))
            ctx.event("collect", forest, tuple(roots), it.where())
            ctx.data["gcs"] = ctx.data.get("gcs", 0) + 1
            if forest is None:
                return Agg("tuple", 0, [0, 0])
            return 0
        return run

    def live(self, it, args, fr):
        ctx = it.ctx
        f = ctx.data.get("livefn")
        if f is not None:
            return f(it)
        if ctx.data.get("setup"):
            return 0
        k = ("live", ctx.data.get("gcs", 0), ctx.data.get("step", 0))
        seen = ctx.data.setdefault("lives", {})
        if k not in seen:
            due = ctx.data.get("gcs", 0) == ctx.data.get("gcs0", 0) and ctx.choose(2) == 1
            if due:
                ctx.fact("a collection is due")
            seen[k] = 1 << 40 if due else 1
        return seen[k]

    # ---- the history
    def step(self, it, what, fn, handles):
        ctx = it.ctx
        ctx.data["step"] = ctx.data.get("step", 0) + 1
        ctx.data["gcs0"] = ctx.data.get("gcs", 0)
        ctx.fact(what)
        s = {"what": what, "from": len(ctx.events), "live": [self.term(it, h) for h in handles], "n": len(handles)}
        r = fn()
        s["to"] = len(ctx.events)
        s["result"] = [self.term(it, h) for h in r]
        if what.startswith("a new") and ctx.data.get("varterms"):
            ctx.data["varterms"] = ctx.data["varterms"] + s["result"][:1]
        s["vars"] = list(ctx.data.get("varterms", []))
        ctx.data.setdefault("steps", []).append(s)
        return r

    def term(self, it, h):
        return ctx_canon(it.ctx, self.hs.read(it, h))

    def const(self, t):
        t = t[1]
        return isinstance(t, int) or (isinstance(t, tuple) and t[0] == "const")

    def reach(self, ctx, roots, t):
        """t is below one of the roots."""
        if self.const(t):
            return True
        f, n = t
        down = set()

        def add(x):
            x = ctx.canon(x)
            if x in down or not isinstance(x, tuple):
                return
            down.add(x)
            if x[0] == "mk":
                for c in x[3:]:
                    add(c)
        for g, r in roots:
            if g == f:
                add(r)
        n = ctx.canon(n)
        while True:
            if n in down:
                return True
            if isinstance(n, tuple) and n[0] == "ch":
                n = ctx.canon(n[1])
                continue
            return False

    def check(self, it, ctx, exact=True):
        for s in ctx.data["steps"]:
            vars_ = [ctx_canon(ctx, v) for v in s["vars"]]
            live = [ctx_canon(ctx, t) for t in s["live"]]
            made, last, lastat = {}, None, -1
            gcs = []
            for i in range(s["from"], s["to"]):
                e = ctx.events[i]
                if e[0] == "collect":
                    roots = [ctx_canon(ctx, t) for t in e[2]]
                    kinds = {e[1]} if e[1] else set(self.forests)
                    for t in live + vars_:
                        if t[0] in kinds and not self.reach(ctx, roots, t):
                            return "%s: a collection does not keep %s, which %s" % (
                                s["what"], tstr(t[1]), "is a defined variable" if t in vars_ else "a live handle refers to")
                    gcs.append((i, roots, kinds))
                    if s.get("exact") or s["what"].startswith("final"):
                        for t in roots:
                            if t[0] in kinds and not self.reach(ctx, live + vars_ + s["result"], t):
                                return "%s: a collection keeps %s, which nothing refers to" % (s["what"], tstr(t[1]))
                    continue
                if e[0] == "call":
                    t, ops = ("op", e[1]) + tuple(e[2]), e[2]
                elif e[0] == "mk":
                    t, ops = e[1], e[1][3:]
                else:
                    continue
                for x in ops:
                    w = self.stale(ctx, x, made, gcs, live + vars_)
                    if w:
                        return "%s: %s" % (s["what"], w)
                made[ctx.canon(t)] = i
            for t in s["result"]:
                w = self.stale(ctx, ctx_canon(ctx, t)[1], made, gcs, live + vars_)
                if w:
                    return "%s: the result: %s" % (s["what"], w)
        return None

    def stale(self, ctx, x, made, gcs, live):
        x = ctx.canon(x)
        f = ctx.forest_name(x) if isinstance(x, tuple) else None
        if f not in self.forests or self.const((f, x)):
            return None
        at = made.get(x, -1)
        for i, roots, kinds in gcs:
            if f in kinds and i > at and not self.reach(ctx, roots, (f, x)):
                return "%s is used although a collection since it was made did not keep it" % tstr(x)
        return None


def ctx_canon(ctx, t):
    return (t[0], ctx.canon(t[1]) if isinstance(t[1], tuple) else t[1])


def pins(world, arg, tier):
    side, _, part = arg.partition("-")
    g = Group("pins:" + arg, "a collection keeps every diagram a live handle, a defined variable or the running operation needs, and nothing else")
    hs = Handles(world, side)
    forests = {"bdd": ("bdd",), "zdd": ("zdd",), "mt": ("mdd", "mtmdd"), "zmdd": ("zmdd",)}[side]
    tr = Trace(world, side, forests)
    tr.hs = hs
    crate, mgr, node = hs.crate, hs.mgr, hs.node

    def mklab():
        return PinLab(world, [(i, "v%d" % i, 2) for i in range(6)], {})

    def M(it, m, name, *args):
        return it.run(world.need(crate, mgr, name), [Ref(Cell(m))] + list(args))

    def N(it, name, *hsl):
        return it.run(world.need(crate, node, name), [Ref(Cell(h)) if isinstance(h, Agg) else h for h in hsl])

    def strs(xs):
        return slicev([Seq(list(s)) for s in xs])

    def copies(it, hsl):
        """A slice of handles (clones made by the code)."""
        return slicev([clone_of(it, h) for h in hsl])

    def clone_of(it, h):
        b = world.need(crate, node, "clone", "Clone")
        return it.force(it.run(b, [Ref(Cell(h))]))

    def opt(it, v):
        v = it.force(v)
        if v.variant == 0:
            return []
        x = it.force(v.fields[0])
        return [it.force(y) for y in (x.items if isinstance(x, Seq) else x.fields)]
    if side == "bdd":
        makers = [
            ("and(A, B)", lambda it, m, v, l: [N(it, "and", v[0], v[1])]),
            ("not(or(B, C))", lambda it, m, v, l: [tmp(it, N(it, "or", v[1], v[2]), lambda t: N(it, "not", t))]),
            ("ite(A, B, C)", lambda it, m, v, l: [N(it, "ite", v[0], v[1], v[2])]),
            ("rpn(A B & C D & |)", lambda it, m, v, l: [res(it, M(it, m, "rpn", "A B & save(x) C D & | load(x) ^"))]),
            ("and([A, B, C])", lambda it, m, v, l: [drop_arg(it, copies(it, v), lambda a: M(it, m, "and", a))]),
            ("or([A, B, C])", lambda it, m, v, l: [drop_arg(it, copies(it, v), lambda a: M(it, m, "or", a))]),
            ("kofn(2, [A, B, C])", lambda it, m, v, l: [drop_arg(it, copies(it, v), lambda a: M(it, m, "kofn", 2, a))]),
            ("create_node(A, last, C)", lambda it, m, v, l: [M(it, m, "create_node", 0, Ref(Cell(l[-1] if l else v[1])), Ref(Cell(v[2])))]),
            ("children", lambda it, m, v, l: tmp(it, N(it, "or", v[0], v[1]), lambda a: tmp(it, N(it, "and", v[0], v[2]), lambda b: tmp(
                it, M(it, m, "create_node", 3, Ref(Cell(a)), Ref(Cell(b))), lambda h: opt(it, N(it, "get_children", h)))))),
            ("zero", lambda it, m, v, l: [M(it, m, "zero")]),
            ("one", lambda it, m, v, l: [M(it, m, "one")]),
            ("xor(last, A)", lambda it, m, v, l: [N(it, "xor", l[-1] if l else v[1], v[0])]),
            ("dual(last)", lambda it, m, v, l: [N(it, "dual", v[0])]),
            ("a new variable", lambda it, m, v, l: [M(it, m, "defvar", "E")]),
        ]
    elif side == "zdd":
        makers = [
            ("union(a, b)", lambda it, m, v, l: [N(it, "union", v[0], v[1])]),
            ("setdiff(union(a, b), c)", lambda it, m, v, l: [tmp(it, N(it, "union", v[0], v[1]), lambda t: N(it, "setdiff", t, v[2]))]),
            ("from_sets", lambda it, m, v, l: [M(it, m, "from_sets", strs([["a", "b"], ["d"]]))]),
            ("product(a, last)", lambda it, m, v, l: [N(it, "product", v[0], l[-1] if l else v[1])]),
            ("children", lambda it, m, v, l: tmp(it, N(it, "union", v[0], v[1]), lambda h: opt(it, N(it, "get_children", h)))),
            ("intersect(a, last)", lambda it, m, v, l: [N(it, "intersect", v[0], l[-1] if l else v[2])]),
            ("divide(a, b)", lambda it, m, v, l: [N(it, "divide", v[0], v[1])]),
            ("empty", lambda it, m, v, l: [M(it, m, "empty")]),
            ("base", lambda it, m, v, l: [M(it, m, "base")]),
            ("a new singleton", lambda it, m, v, l: [M(it, m, "singleton", "e")]),
        ]
    elif side == "zmdd":
        makers = [
            ("intersect(A, B)", lambda it, m, v, l: [N(it, "intersect", v[0], v[1])]),
            ("setdiff(B, last)", lambda it, m, v, l: [N(it, "setdiff", v[1], l[-1] if l else v[2])]),
            ("setdiff(intersect(B, C), A)", lambda it, m, v, l: [tmp(it, N(it, "intersect", v[1], v[2]), lambda t: N(it, "setdiff", t, v[0]))]),
            ("intersect(last, C)", lambda it, m, v, l: [N(it, "intersect", l[-1] if l else v[0], v[2])]),
        ]
    else:
        makers = [
            ("add(x, y)", lambda it, m, v, l: [N(it, "add", v[0], v[1])]),
            ("ite(lt(x, y), y, z)", lambda it, m, v, l: [tmp(it, N(it, "lt", v[0], v[1]), lambda t: N(it, "ite", t, v[1], v[2]))]),
            ("rpn", lambda it, m, v, l: [res(it, M(it, m, "rpn", "x y + save(k) z w min == load(k) 1 > ||", Ref(Cell(mkmap([("x", 2), ("y", 2), ("z", 2), ("w", 2)])))))]),
            ("min([x, y, z])", lambda it, m, v, l: [drop_arg(it, copies(it, v), lambda a: M(it, m, "min", a))]),
            ("max([x, y, z])", lambda it, m, v, l: [drop_arg(it, copies(it, v), lambda a: M(it, m, "max", a))]),
            ("create_node(x, last, z)", lambda it, m, v, l: [drop_arg(it, copies(it, [v[1], v[2]]), lambda a: M(it, m, "create_node", 0, a))]),
            ("children", lambda it, m, v, l: tmp(it, N(it, "mul", v[0], v[1]), lambda a: tmp(it, N(it, "sub", v[0], v[2]), lambda b: tmp(
                it, drop_arg(it, copies(it, [a, b]), lambda x: M(it, m, "create_node", 3, x)), lambda h: opt(it, N(it, "get_children", h)))))),
            ("Boolean children", lambda it, m, v, l: tmp(it, N(it, "ge", v[0], v[1]), lambda a: tmp(it, N(it, "lt", v[0], v[2]), lambda b: tmp(
                it, drop_arg(it, copies(it, [a, b]), lambda x: M(it, m, "create_node", 3, x)), lambda h: opt(it, N(it, "get_children", h)))))),
            ("boolean", lambda it, m, v, l: [M(it, m, "boolean", True)]),
            ("value", lambda it, m, v, l: [M(it, m, "value", 7)]),
            ("undet_value", lambda it, m, v, l: [M(it, m, "undet_value")]),
            ("not(ge(x, z))", lambda it, m, v, l: [tmp(it, N(it, "ge", v[0], v[2]), lambda t: N(it, "not", t))]),
            ("eq(x, last)", lambda it, m, v, l: [N(it, "eq", v[0], l[-1] if l and tr.term(it, l[-1])[0] == "mtmdd" else v[1])]),
            ("a new variable", lambda it, m, v, l: [M(it, m, "defvar", "e", 2)]),
        ]

    def res(it, v):
        v = it.force(v)
        if not isinstance(v, Agg) or v.adt != RES or v.variant:
            raise Undecided("rpn result %r" % (v,))
        return v.fields[0]

    def drop_arg(it, a, fn):
        r = it.force(fn(a))
        for h in a.cell.v.items:
            it.drop_value(Cell(h), ())
        return r

    def tmp(it, h, fn):
        h = it.force(h)
        r = it.force(fn(h))
        it.drop_value(Cell(h), ())
        return r

    def collect(it, m, keep=()):
        if side in ("zdd", "zmdd"):
            it.ctx.data["lives"][("live", it.ctx.data.get("gcs", 0), it.ctx.data["step"])] = 1 << 40
        if side == "zmdd":
            v = it.ctx.data["given"]
            return [N(it, "setdiff", v[0], v[2])]
        if side == "zdd":
            it.drop_value(Cell(it.force(M(it, m, "empty"))), ())
        else:
            M(it, m, "gc", slicev([Ref(Cell(h)) for h in keep]))
        return []

    def arm():
        """When a collection is due: at or above the threshold; afterwards twice the survivors, never below the floor."""
        if side == "bdd":
            ops = [lambda it, m, v: N(it, "and", v[0], v[1]), lambda it, m, v: M(it, m, "one"), lambda it, m, v: N(it, "or", v[1], v[2])]
        elif side == "zdd":
            ops = [lambda it, m, v: N(it, "union", v[0], v[1]), lambda it, m, v: M(it, m, "empty"), lambda it, m, v: N(it, "intersect", v[1], v[2])]
        else:
            ops = [lambda it, m, v: N(it, "add", v[0], v[1]), lambda it, m, v: M(it, m, "value", 7), lambda it, m, v: N(it, "lt", v[1], v[2])]
        body = world.need(crate, mgr, "set_gc_threshold")

        def entry(lab, it):
            ctx = it.ctx
            m = hs.manager(lab, it)
            st = ctx.data["arm"] = {"live": 0, "after": None, "bad": None}

            def livefn(it):
                if ctx.data.get("gcs", 0) > st["gcs"] and st["after"] is None:
                    st["after"] = st["live"] = (3, 5, 40)[ctx.choose(3)]
                    ctx.fact("%d nodes survive" % st["live"])
                return st["live"]
            ctx.data["livefn"] = livefn
            st["gcs"] = 0
            vs = [it.force(M(it, m, "singleton", x)) for x in "abc"] if side == "zdd" else \
                 [it.force(M(it, m, "defvar", *((x,) if side == "bdd" else (x, 2)))) for x in "xyz"]
            it.run(body, [Ref(Cell(m)), 10])
            thr, floor = 10, 10
            for i in range(3):
                if i == 2 and tier != "quick" and ctx.choose(2):
                    it.run(body, [Ref(Cell(m)), 30])
                    ctx.fact("the threshold is set to 30")
                    thr = floor = 30
                st["live"] = [thr - 1, thr, thr + 1][ctx.choose(3)]
                st["gcs"], st["after"] = ctx.data.get("gcs", 0), None
                ctx.fact("%d nodes are live" % st["live"])
                due = st["live"] >= thr
                ops[i](it, m, vs)
                n = ctx.data.get("gcs", 0) - st["gcs"]
                if (n > 0) != due:
                    st["bad"] = "with the threshold at %d a collection is %s" % (thr, "not run" if due else "run")
                    return None
                if n:
                    if st["after"] is None:
                        raise Undecided("the survivors are not counted")
                    thr = max(2 * st["after"], floor)
            return None

        def check(lab, it, ctx, v):
            return ctx.data["arm"]["bad"]
        r = LabRun(g, mklab, entry, check, [], body, limit=20000, hooks=tr.hooks())
        r.rules = "automatic collection threshold"
        r.phase(None, ())

    def families(method):
        """The family a minimal-vector analysis returns survives a collection that runs while it is made."""
        bss = side == "zdd"
        cr, sysm, wr = ("bss", "BssMgr", "BddMgr") if bss else ("mss", "MssMgr", "MddMgr")
        for src in ("bdd",) if bss else ("mtmdd", "mdd"):
            H = H2 if bss else M1
            c = Sol(world, H, src, side, method == "mincut" and not bss, 0 if method == "mincut" and not bss else 1)
            sd = Side(world, src, H)
            body = world.need(cr, sysm, method)

            def entry(lab, it):
                ctx = it.ctx
                m = lab.manager(it, cr, sysm)
                ctx.data["mgr"] = inner(lab, it, m, wr)
                h = sd.handle(lab, it)
                ctx.data["lives"] = {}
                return it.run(body, [Ref(Cell(m)), Ref(Cell(h))])

            def check(lab, it, ctx, v):
                v = it.force(v)
                if not v.variant:
                    return None
                t = (side, node_of_handle(it, v.fields[0]))
                last = max([i for i, e in enumerate(ctx.events) if e[0] in ("reccall", "call", "mk")] or [-1])
                for i, e in enumerate(ctx.events):
                    if e[0] == "collect" and e[1] == side and i > last and not tr.reach(ctx, [ctx_canon(ctx, x) for x in e[2]], ctx_canon(ctx, t)):
                        return "a collection does not keep the returned family"
                return None
            r = LabRun(g, c.lab, entry, check, c.specs(), body, limit=20000, hooks=tr.hooks())
            r.rules = "the returned family is pinned"
            r.phase(None, ())
        return g

    if part in ("minpath", "mincut"):
        return families(part)

    if part == "arm":
        arm()
        g.need("threshold histories of " + side, 40)
        return g

    def run(short):
        body = world.need(crate, node, "clone", "Clone")

        def entry(lab, it):
            ctx = it.ctx
            m = hs.manager(lab, it)
            ctx.data["setup"] = True
            ctx.data["lives"] = {}
            if side == "bdd":
                vs = [it.force(M(it, m, "defvar", x)) for x in "ABCD"]
            elif side == "zdd":
                vs = [it.force(M(it, m, "singleton", x)) for x in "abc"]
            elif side == "zmdd":
                vs = [clone_of(it, ZWalk(world, lab.H, False).handle(lab, it, x)) for x in "fgh"]
                ctx.data["given"] = list(vs)
            else:
                vs = [it.force(M(it, m, "defvar", x, 2)) for x in "xyzw"]
            if side in ("bdd", "mt"):
                ctx.data["varterms"] = [tr.term(it, h) for h in vs]
            if side in ("bdd", "mt") and ctx.choose(2):
                # only the manager holds the last variable
                it.drop_value(Cell(vs[-1]), ())
                ctx.fact("the handle of the last variable is dropped")
                vs.pop()
            ctx.data["setup"] = False
            del ctx.events[:]
            live = []

            def do(what, fn):
                r = [it.force(x) for x in tr.step(it, what, fn, vs + live)]
                live.extend(r)
            k = int(part) if part else ctx.choose(len(makers))
            do(makers[k][0], lambda: makers[k][1](it, m, vs, live))
            for n in range(2 if short else 3):
                acts = ["stop", "clone", "make", "collect"] + ["drop %d" % i for i in range(len(live))]
                a = acts[ctx.choose(len(acts))]
                if a == "stop":
                    break
                if a == "clone":
                    if not live:
                        raise Infeasible()
                    do("clone", lambda: [clone_of(it, live[-1])])
                elif a == "make":
                    j = (k + 1 + n + (4 if not short and n == 0 and ctx.choose(2) else 0)) % len(makers)
                    do(makers[j][0], lambda: makers[j][1](it, m, vs, live))
                elif a == "collect":
                    if side in ("zdd", "zmdd"):
                        raise Infeasible()
                    keep = live[-1:] if ctx.choose(2) else []
                    do("gc(%s)" % ("last" if keep else ""), lambda: collect(it, m, keep))
                else:
                    i = int(a[5:])
                    h = live.pop(i)
                    ctx.fact("drop of handle %d" % i)
                    it.drop_value(Cell(h), ())
            do("final collection", lambda: collect(it, m))
            return None

        def check(lab, it, ctx, v):
            return tr.check(it, ctx)
        r = LabRun(g, mklab, entry, check, [], body, limit=400000, hooks=tr.hooks())
        r.rules = "handles and collections"
        r.phase(None, ())
    run(tier == "quick")
    g.need("handle histories of " + side, 60)
    return g
