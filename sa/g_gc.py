"""Group: garbage collection.  Every manager's gc on arbitrary root sets over bounded-height
diagrams plus one generic unreachable node."""
from .core import *
from .core import explore
from .std import truth, SymArr
from .forest import mkinterp, Missing, CacheV, SymStack, SymNodes
from .report import Group
from . import g_ops, g_node

COVER = {"retain_live": (1, 2, 3), "retain_live3": (0, 1, 2, 3), "clear": None}


def depth(ctx, t):
    d = 0
    while isinstance(t, tuple) and t and t[0] == "ch":
        d += 1
        t = t[1]
    return d


def bounded(D):
    """kindhook: below depth D only leaves."""
    def h(it, f, t):
        if isinstance(t, tuple) and t[0] in ("n", "ch") and depth(it.ctx, t) >= D:
            return f.decide(it, t, [k for k in f.kinds if k != "NonTerminal" and k in f.allowed(it.ctx, t)])
        return None
    return h


def closure(it, f, roots):
    """All node terms reachable from roots."""
    ctx = it.ctx
    seen, work = [], [ctx.canon(r) for r in roots]
    while work:
        t = ctx.canon(work.pop())
        if t in seen:
            continue
        k = f.kind(it, t)
        t = ctx.canon(t)
        if t in seen:
            continue
        seen.append(t)
        if k == "NonTerminal":
            for i in range(f.arity(ctx)):
                work.append(ctx.canon(("ch", t, i)))
    return seen


def tables(world, fn):
    """(unique tables, value tables) of a forest: the ones create_node / value consult."""
    f = world.forests[fn]
    out = []
    for meth in ("create_node", "value"):
        b = world.prog.find(f.crate, f.mgr, meth)
        names = set()
        if b is not None and not (meth == "value" and "Terminal" not in f.kinds):
            def one(ctx, b=b, meth=meth):
                world.setup(ctx, {}, 2)
                it = mkinterp(world.prog, ctx, {})
                m = f.symbolic(it)
                if meth == "value":
                    args = [Ref(Cell(m)), S(("v", "x"), "val")]
                elif b.argc == 4:
                    args = [Ref(Cell(m)), S(("h", "x"), "hdr")] + [S(("n", "c%d" % i, fn), "node") for i in range(2)]
                else:
                    args = [Ref(Cell(m)), S(("h", "x"), "hdr"), Ref(Cell(Seq([S(("n", "c%d" % i, fn), "node") for i in range(2)], "slice")))]
                it.run(b, args)
            for ctx, o, v in explore(one, 500):
                for e in ctx.events:
                    if e[0] in ("hit", "miss", "insert"):
                        names.add(e[1])
        out.append(names)
    return out


def keyval(it, ty, words):
    """A table key of type ty holding the given words in order."""
    if ty[0] == "int" or ty[0] == "param":
        w = words.pop(0)
        return w if isinstance(w, int) else S(w, "val" if ty[0] == "param" else "node")
    if ty[0] == "tuple":
        return Agg("tuple", 0, [keyval(it, x, words) for x in ty[1]])
    if ty[0] == "adt" and ty[1].endswith("::Box") or ty[0] == "adt" and ty[1].endswith("::Vec"):
        inner = ty[2][0]
        el = inner[1] if inner[0] == "slice" else inner
        s = Seq([keyval(it, el, words) for _ in range(len(words))])
        return BoxV(Cell(s)) if ty[1].endswith("::Box") else s
    if ty[0] == "array":
        return Seq([keyval(it, ty[1], words) for _ in range(ty[2])], "array")
    if ty[0] == "adt" and it.prog.adts.get(ty[1], {}).get("local"):
        w = words.pop(0)
        if isinstance(w, tuple) and w[0] == "agg":
            return Agg(ty[1], w[2], [])
        adt = it.prog.adts[ty[1]]
        if len(adt["variants"]) == 1:
            words.insert(0, w)
            return Agg(ty[1], 0, [keyval(it, x[1], words) for x in adt["variants"][0]["fields"]])
    raise Undecided("key type %s" % (ty,))


class GcRun:
    many = 0            # constants listed before the roots
    narrow = False      # only the last edge of a node is arbitrary

    def __init__(self, world, fn, ar, D, nroots):
        self.w, self.fn, self.ar, self.D, self.nroots = world, fn, ar, D, nroots
        self.f = world.forests[fn]
        self.dead = ("n", "dead", fn)

    def hooks(self):
        h = {}
        for m in COVER:
            b = self.w.need("common", "ComputeCache", m)
            h[b.key] = self.cache_hook(m)
        return h

    def cache_hook(self, m):
        def h(it, args, fr):
            c = it.load(args[0])
            if not isinstance(c, CacheV):
                return NotImplemented
            live = None
            if len(args) > 1:
                lv = it.load(args[1])
                live = self.snapshot(it, lv)
            it.ctx.event("purge", c.name, m, live, it.where())
            return UNIT
        return h

    def snapshot(self, it, lv):
        """truth of live[dead] at this moment"""
        if isinstance(lv, (SymArr,)) or hasattr(lv, "getitem"):
            self.isolate(it)
            v = lv.getitem(it, S(self.dead, "node"))
            return truth(it, v)
        raise Undecided("liveness argument %r" % (lv,))

    def isolate(self, it):
        """The generic unreachable node differs from every reachable one."""
        ctx = it.ctx
        for t in closure(it, self.f, self.roots) + list(range(len(self.f.static()))):
            if not isinstance(t, int) or t < len(self.f.static()):
                ctx.neq.add((self.dead, t))

    def domain(self, it, n):
        if n == ("len", self.fn, "nodes") or (isinstance(n, tuple) and n[0] == "lin" and n[1] == ("len", self.fn, "nodes")):
            ctx = it.ctx
            cl = closure(it, self.f, self.roots)
            self.isolate(it)
            ids = list(range(len(self.f.static())))
            out = ids + [S(t, "node") for t in cl if not isinstance(t, int)] + [S(self.dead, "node")]
            return out
        return None

    def retainhook(self, it, tab, m, pred):
        ctx = it.ctx
        cl = [t for t in closure(it, self.f, self.roots)]
        self.isolate(it)
        name = m.name
        it.ctx.event("retain", name, it.where())
        if name in self.utab or name in self.vtab:
            kty = tab.ty[2][0]
            kinds = ("NonTerminal",) if name in self.utab else ("Terminal",)
            cands = [t for t in cl if not isinstance(t, int) and ctx.kind_known(t, self.f) in kinds] + [self.dead]
            for t in cands:
                if t == self.dead:
                    ctx.kinds[t] = kinds[0]
                words = [ctx.canon(("hdr", t))] + [ctx.canon(("ch", t, i)) for i in range(self.f.arity(ctx))] if kinds[0] == "NonTerminal" else [ctx.tval(t)]
                key = keyval(it, kty, words)
                ev = Cell(S(t, "node"))
                r = truth(it, it.call_value(pred, [Ref(Cell(key)), Ref(ev)]))
                ctx.event("kept", name, ctx.canon(t), r, it.where())
            return UNIT
        pats = [p for p in self.w.memo_patterns.get("all", []) if p[0] == (name[1], name[2])]
        if not pats:
            return UNIT
        if self.D >= 2 or self.nroots > 1:
            # the memo tables are examined on the small root sets
            ctx.event("memokept", name, False, True, it.where())
            return UNIT
        p = pats[ctx.choose(len(pats))]
        live = [t for t in cl] or [0]
        words, used = [], []
        for k in p[1]:
            if isinstance(k, tuple) and k[0] != "agg":
                c = self.dead if ctx.choose(2) else live[0]
                words.append(c)
                used.append(c)
            else:
                words.append(k)
        v = self.dead if ctx.choose(2) else live[0]
        used.append(v)
        key = keyval(it, tab.ty[2][0], list(words))
        ev = Cell(S(v, "node") if not isinstance(v, int) else v)
        r = truth(it, it.call_value(pred, [Ref(Cell(key)), Ref(ev)]))
        ctx.event("memokept", name, self.dead in used, r, it.where())
        return UNIT

    def run(self, g, body):
        w, f = self.w, self.f
        self.utab, self.vtab = tables(w, self.fn)
        where = body.where()

        def one(ctx):
            w.setup(ctx, {}, self.ar)
            ctx.data["kindhook"] = bounded(self.D)
            ctx.data["domain"] = self.domain
            ctx.data["retainhook"] = self.retainhook
            it = mkinterp(w.prog, ctx, self.hooks())
            m = f.symbolic(it)
            self.roots = [("n", "r%d" % i, self.fn) for i in range(self.nroots)]
            if self.narrow:
                t = self.roots[0]
                for _ in range(self.D):
                    for i in range(self.ar - 1):
                        f.decide(it, ("ch", t, i), [f.static()[0]])
                    t = ("ch", t, self.ar - 1)
            rs = Seq([0] * self.many + [S(r, "node") for r in self.roots], "slice")
            cell = Cell(m)
            it.run(body, [Ref(cell), Ref(Cell(rs))])
            m = cell.v
            cl = closure(it, f, self.roots)
            self.isolate(it)
            return it, m, cl
        for ctx, out, val in explore(one, 20000):
            g.partitions += 1
            case = "%d roots; " % self.nroots + "; ".join(ctx.facts)
            if out in ("undecided", "cut"):
                g.unsure(where, case, val)
                continue
            if out == "panic":
                g.bad(where, "collection succeeds", case, val)
                continue
            it, m, cl = val
            try:
                self.judge(ctx, it, m, cl, g, where, case)
            except Undecided as u:
                g.unsure(where, case, str(u))

    def free_slots(self, ctx, it, m):
        """ids offered for reuse after the collection, and whether older offers were dropped."""
        for i, (fn, ty, _) in enumerate(self.f.fields):
            v = it.load(m.fields[i])
            if ty[0] == "adt" and ty[1].endswith("::Vec") and ty[2][0][0] == "int":
                if isinstance(v, SymStack):
                    return [ctx.canon(it.term(x)) for x in v.pushes], v.cleared or v.drained
                if isinstance(v, Seq):
                    return [ctx.canon(it.term(x)) for x in v.items], True
                raise Undecided("free list %r" % (v,))
        raise Undecided("no free list field")

    def judge(self, ctx, it, m, cl, g, where, case):
        f = self.f
        st = list(range(len(f.static())))
        free, fresh = self.free_slots(ctx, it, m)
        live = [ctx.canon(t) for t in cl] + st
        for x in free:
            if x in live:
                g.bad(where, "no node reachable from the roots is offered for reuse", case, "%s is put on the free list" % tstr(x))
                return
            if x != self.dead:
                raise Undecided("free list entry %s" % tstr(x))
        if not fresh:
            g.bad(where, "no slot is offered for reuse twice", case, "the free list keeps its old entries")
            return
        if free.count(self.dead) > 1:
            g.bad(where, "no slot is offered for reuse twice", case, "a dead slot is listed %d times" % free.count(self.dead))
            return
        if not free:
            g.bad(where, "an unreachable node is reclaimed", case, "the dead slot is not listed")
            return
        for e in ctx.events:
            if e[0] == "slot" and ctx.canon(e[2]) in live:
                g.bad(where, "a surviving node is not modified", case, "slot %s is overwritten" % tstr(e[2]))
                return
        # unique and value tables
        for name, kind in [(n, "NonTerminal") for n in self.utab] + [(n, "Terminal") for n in self.vtab]:
            cleared = any(e[0] == "clear" and e[1] == name for e in ctx.events)
            kept = [e for e in ctx.events if e[0] == "kept" and e[1] == name]
            need = [t for t in live if not isinstance(t, int) and ctx.kind_known(t, f) == kind]
            if cleared:
                mv = [v for v in m.fields if isinstance(v, MapV) and v.name == name]
                have = [ctx.canon(it.term(e[2].v)) for v in mv for e in v.ents]
                lost = [t for t in need if t not in have]
                if lost:
                    g.bad(where, "a surviving node stays in the unique/value table", case, "%s is cleared and %s is not entered again" % (name[-1], tstr(lost[0])))
                    return
                if self.dead in have:
                    g.bad(where, "a reclaimed node leaves the unique/value table", case, "%s keeps the dead node" % name[-1])
                    return
                continue
            if not kept:
                g.bad(where, "a reclaimed node leaves the unique/value table", case, "%s is not purged" % name[-1])
                return
            seen = {}
            for e in kept:
                seen[e[2]] = seen.get(e[2], True) and e[3]
            if seen.get(self.dead, False):
                g.bad(where, "a reclaimed node leaves the unique/value table", case, "%s keeps an entry of a dead node" % name[-1])
                return
            for t in need:
                if seen.get(t) is False:
                    g.bad(where, "a surviving node stays in the unique/value table", case, "%s drops the entry of %s" % (name[-1], tstr(t)))
                    return
        self.memo(ctx, it, m, g, where, case) and g.ok()

    def memo(self, ctx, it, m, g, where, case):
        return memo_purged(self.w, {self.fn}, ctx, g, where, case)


def memo_purged(world, owners, ctx, g, where, case):
    R = "a memoised result naming a reclaimed node is forgotten"
    pats = world.memo_patterns.get("all", [])
    names = {p[0] for p in pats if p[0][0] in owners}
    for name in sorted(names):
        words = set()
        for p in pats:
            if p[0] == name:
                for i, k in enumerate(p[1]):
                    if isinstance(k, tuple) and k[0] != "agg":
                        words.add(i)
                words.add(3)
        purges = [e for e in ctx.events if e[0] == "purge" and e[1] == name]
        kept = [e for e in ctx.events if e[0] == "memokept" and e[1][1:] == name]
        cleared = any(e[0] == "clear" and tuple(e[1][1:]) == name for e in ctx.events)
        if cleared or any(e[2] == "clear" for e in purges):
            continue
        if kept:
            if any(e[2] and e[3] for e in kept):
                g.bad(where, R, case, "%s keeps an entry that names a dead node" % name[-1])
                return False
            continue
        ok_ = False
        why = "%s is not purged" % name[-1]
        for e in purges:
            if e[3]:
                why = "%s is purged with a bitmap that still marks the dead node" % name[-1]
            elif not words <= set(COVER[e[2]]):
                why = "%s is purged by %s, which ignores key word %s" % (name[-1], e[2], sorted(words - set(COVER[e[2]])))
            else:
                ok_ = True
        if not ok_:
            g.bad(where, R, case, why)
            return False
    return True


def gc(world, fn, tier):
    g = Group("gc:" + fn, "gc keeps every node reachable from the roots and purges every table and memo of the reclaimed ones")
    g_ops.pass1(world)
    f = world.forests[fn]
    body = world.need(f.crate, f.mgr, "gc")
    g.fn(body)
    plans = [(2, 2, 1), (2, 1, 1), (2, 1, 2), (2, 1, 0)]
    if f.crate != "bddcore":
        plans.append((3, 1, 1))
    if tier == "thorough":
        plans += [(2, 3, 1), (2, 2, 2)] if f.crate == "bddcore" else [(3, 2, 1)]
    for ar, D, n in plans:
        if f.crate == "bddcore" and ar != 2:
            continue
        GcRun(world, fn, ar, D, n).run(g, body)
    # a long root list, and nodes with many edges
    r = GcRun(world, fn, 2, 1, 1)
    r.many = 140
    r.run(g, body)
    if f.crate != "bddcore":
        for ar in (11, 70):
            r = GcRun(world, fn, ar, 2, 1)
            r.narrow = True
            r.run(g, body)
    g.need(body.where(), 10)
    return g


def gc2(world, tier):
    """The composite manager."""
    g = Group("gc:mt2", "the composite gc hands each root to its own forest and flushes the cross-forest memo tables")
    g_ops.pass1(world)
    body = world.need("mddcore", "MtMdd2Manager", "gc")
    g.fn(body)
    where = body.where()
    node = world.prog.adt_by_name("mddcore", "Node", mod="mtmdd2") if False else None
    nadt = [a for k, a in world.prog.adts.items() if k.endswith("mtmdd2::Node")]
    if not nadt:
        raise Missing("mddcore::mtmdd2::Node")
    vs = {v["name"]: i for i, v in enumerate(nadt[0]["variants"])}
    gcs = {world.need(world.forests[x].crate, world.forests[x].mgr, "gc").key: x for x in ("mdd", "mtmdd")}
    tags = [("Value", "mtmdd"), ("Bool", "mdd")]
    import itertools
    for combo in itertools.product(range(2), repeat=3):
        roots = [("n", "r%d" % i, tags[c][1]) for i, c in enumerate(combo)]

        def one(ctx):
            world.setup(ctx, {}, 2)
            run = GcRun(world, "mdd", 2, 1, 0)
            run.roots = []
            h = run.hooks()
            for key, fn in gcs.items():
                def hk(it, args, fr, fn=fn):
                    rs = it.load(args[1])
                    if not isinstance(rs, Seq):
                        raise Undecided("roots %r" % (rs,))
                    it.ctx.event("subgc", fn, [it.term(x) for x in rs.items], it.where())
                    return S(("reclaimed", fn), "int")
                h[key] = hk
            it = mkinterp(world.prog, ctx, h)
            m = world.manager(it, "mt2")
            rs = Seq([Agg(nadt[0]["key"], vs[tags[c][0]], [S(r, "node")]) for c, r in zip(combo, roots)], "slice")
            r = it.run(body, [Ref(Cell(m)), Ref(Cell(rs))])
            return it, m, r
        for ctx, out, val in explore(one, 2000):
            g.partitions += 1
            case = "roots %s; " % [tags[c][0] for c in combo] + "; ".join(ctx.facts)
            if out in ("undecided", "cut"):
                g.unsure(where, case, val)
                continue
            if out == "panic":
                g.bad(where, "collection succeeds", case, val)
                continue
            it, m, r = val
            good = True
            for c, (tag, fn) in enumerate(tags):
                calls = [e for e in ctx.events if e[0] == "subgc" and e[1] == fn]
                want = [rt for rt, cc in zip(roots, combo) if cc == c]
                for e in calls:
                    lost = [x for x in want if x not in e[2]]
                    if lost:
                        g.bad(where, "every root is passed to the collection of its forest", case, "%s is not a root of the %s collection" % (tstr(lost[0]), fn))
                        good = False
                if not calls:
                    g.bad(where, "both forests are collected", case, "the %s forest is not collected" % fn)
                    good = False
            if good and memo_purged(world, {"mt2"}, ctx, g, where, case):
                g.ok()
    # children of the composite live in the sub-forests: collected there
    g.need(where, 8)
    return g
