"""Upkeep of a manager: clearing remembered results, live-node counts, and the system managers'
delegation of upkeep to the managers they own."""
from .core import *
from .core import explore
from .forest import mkinterp, CacheV, SymNodes, SymHeaders, SymStack, Missing
from .lab import *
from .g_wrap import Handles
from .g_gc import tables
from .g_pins import Trace
from .report import Group

CORES = ("bdd", "zdd", "mt2", "zmdd")


def core(world, fn):
    if fn == "mt2":
        return "mddcore", "MtMdd2Manager"
    f = world.forests[fn]
    return f.crate, f.mgr


def parts(world, v, out=None):
    """Forest managers, and computed tables outside them, inside an abstract value."""
    out = [] if out is None else out
    if isinstance(v, Agg):
        for f in world.forests.values():
            if v.adt == f.adt:
                out.append((f, v))
                return out
        for x in v.fields:
            if isinstance(x, CacheV):
                out.append((None, x))
            else:
                parts(world, x, out)
    elif isinstance(v, (RcV, BoxV, RefCellV)):
        parts(world, v.cell.v, out)
    return out


def freelists(world, f):
    """Fields of the manager from which node creation takes freed slots."""
    b = world.need(f.crate, f.mgr, "create_node")
    names = set()

    def one(ctx):
        world.setup(ctx, {}, 2)
        it = mkinterp(world.prog, ctx, {})
        m = f.symbolic(it)
        kids = [S(("n", "c%d" % i, f.name), "node") for i in range(2)]
        it.run(b, [Ref(Cell(m)), S(("h", "x"), "hdr")] + (kids if b.argc == 4 else [Ref(Cell(Seq(kids, "slice")))]))
    for ctx, o, v in explore(one, 500):
        for e in ctx.events:
            if e[0] == "popfree":
                names.add(e[1])
    return names


def upkeep(world, fn, tier):
    """The core managers."""
    g = Group("upkeep:" + fn, "clear_cache forgets every remembered result and changes nothing else; live_node_count is the number of slots in use")
    crate, mgr = core(world, fn)

    def drive(name, rule, entry, check):
        body = world.need(crate, mgr, name)
        g.fn(body)
        where = body.where()

        def one(ctx):
            world.setup(ctx, {}, 2)
            it = mkinterp(world.prog, ctx, hooks())
            m = world.manager(it, fn)
            return it, m, entry(it, m, body)
        for ctx, out, v in explore(one, 500):
            g.partitions += 1
            case = "; ".join(ctx.facts) or "any state of the manager"
            if out in ("undecided", "cut"):
                g.unsure(where, case, v)
                continue
            if out == "panic":
                g.bad(where, rule, case, v)
                continue
            try:
                w = check(ctx, *v)
            except Undecided as u:
                g.unsure(where, case, str(u))
                continue
            if w:
                g.bad(where, rule, case, w)
            else:
                g.ok()

    def hooks():
        h = {}
        for n in ("clear",):
            b = world.need("common", "ComputeCache", n)

            def run(it, args, fr):
                c = it.load(args[0])
                if not isinstance(c, CacheV):
                    return NotImplemented
                it.ctx.event("purge", c.name, it.where())
                return UNIT
            h[b.key] = run
        b = world.prog.find("common", "ComputeCache", "len")
        if b is not None:
            h[b.key] = lambda it, args, fr: S(("clen", it.load(args[0]).name), "int") if isinstance(it.load(args[0]), CacheV) else NotImplemented
        return h

    def snapshot(m):
        return [[(x if isinstance(x, int) else None) for x in v.fields] for f, v in parts(world, m) if f]

    def clear(it, m, body):
        before = snapshot(m)
        caches = [(f, i, x) for f, v in parts(world, m) if f for i, x in enumerate(v.fields) if isinstance(x, CacheV)]
        caches += [(None, None, x) for f, x in parts(world, m) if f is None]
        it.run(body, [Ref(Cell(m))])
        return before, [c.name for _, _, c in caches]

    def cleared(ctx, it, m, r):
        before, caches = r
        if snapshot(m) != before:
            return "a constant of the manager changes"
        purged = {e[1] for e in ctx.events if e[0] == "purge"}
        for f, v in parts(world, m):
            if f is None:
                if v.name not in purged:
                    return "the results in %s are still remembered" % v.name[-1]
                continue
            ut, vt = tables(world, f.name)
            for (name, ty, _), x in zip(f.fields, v.fields):
                if isinstance(x, SymNodes) and (x.writes or x.pushed):
                    return "the node table changes"
                if isinstance(x, SymHeaders) and (x.writes or x.pushed):
                    return "the variable table changes"
                if isinstance(x, SymStack) and (x.pushes or x.cleared or x.pops):
                    return "%s changes" % name
                if isinstance(x, CacheV) and x.name not in purged:
                    return "the results in %s are still remembered" % name
                if isinstance(x, MapV) and isinstance(x.name, tuple) and x.name[0] == "table":
                    uniq = x.name in ut or x.name in vt
                    if uniq and (x.sym is None or x.ents):
                        return "the unique table %s changes" % name
                    if not uniq and x.sym is not None:
                        return "the results in %s are still remembered" % name
                if ty[0] == "adt" and ty[1].split("::")[-1] in ("Vec",) and isinstance(x, Seq):
                    return "%s is replaced" % name
                if isinstance(x, MapV) and not (isinstance(x.name, tuple) and x.name[0] == "table"):
                    if any(n[-1] == name for n in ut | vt):
                        return "the unique table %s is replaced" % name
        return None
    drive("clear_cache", "clearing the caches forgets results and nothing else", clear, cleared)

    def live(it, m, body):
        for f, x in parts(world, m):
            if f is None:
                continue
            fl = freelists(world, f)
            nodes = [y for y in x.fields if isinstance(y, SymNodes)]
            free = [y for y in x.fields if isinstance(y, SymStack) and y.name in fl]
            for n in nodes:
                for k in free:
                    # every free slot is a slot, and the terminals are never free
                    it.ctx.order("int").add(it.term(k.length(it)), "<", it.term(n.length(it)))
        return it.run(body, [Ref(Cell(m))])

    def counted(ctx, it, m, v):
        want = 0
        for f, x in parts(world, m):
            if f is None:
                continue
            fl = freelists(world, f)
            if len(fl) != 1:
                raise Undecided("free list of %s" % f.mgr)
            nodes = free = None
            for (name, ty, _), y in zip(f.fields, x.fields):
                if isinstance(y, SymNodes):
                    nodes = y.length(it)
                elif isinstance(y, SymStack) and y.name in fl:
                    free = y.length(it)
            if nodes is None or free is None:
                raise Undecided("tables of %s" % f.mgr)
            want = ("add", want, ("sub", it.term(nodes), it.term(free)))
        return numdiff(ctx, v, want, None)
    drive("live_node_count", "the live nodes are the slots in use", live, counted)

    def sized(ctx, it, m, v):
        v = it.force(v)
        hdr, slots = None, 0
        for f, x in parts(world, m):
            if f is None:
                continue
            for y in x.fields:
                if isinstance(y, SymNodes):
                    slots = ("add", slots, y.length(it).t)
                elif isinstance(y, SymHeaders):
                    # the sub-forests of one manager have the same variables
                    hdr = (hdr or []) + [y.length(it).t]
        if not hdr:
            raise Undecided("variable table")
        if all(numdiff(ctx, v.fields[0], h, None) for h in hdr):
            return "the number of variables: " + numdiff(ctx, v.fields[0], hdr[0], None)
        w = numdiff(ctx, v.fields[1], slots, None)
        return w and "the number of node slots: " + w
    drive("size", "size reports the variables and the node slots", live, sized)
    g.need("upkeep of " + fn, 3)
    return g


def delegation(world, arg, tier):
    """The user-facing managers."""
    g = Group("delegate:" + arg, "a manager's upkeep is that of the managers it owns")
    crate = "bss" if arg == "bss" else "mss"
    plain = [("BddMgr", "bdd", "bdd"), ("ZddMgr", "zdd", "zdd")] if crate == "bss" else [("MddMgr", "mt2", "mt"), ("ZmddMgr", "zmdd", "zmdd")]
    sysm = "BssMgr" if crate == "bss" else "MssMgr"

    def hook(n, fn):
        def clear(it, args, fr):
            it.ctx.event("clear", n)
            return UNIT

        def live(it, args, fr):
            return S(("live", n), "int")

        def size(it, args, fr):
            k = len(fr["dty"][1]) if isinstance(fr, dict) and "dty" in fr else (3 if n in ("bdd", "zdd") else 4)
            return Agg("tuple", 0, [S(("size", n, i), "int") for i in range(k)])
        return {"clear_cache": clear, "live_node_count": live, "size": size}[fn]

    def hooks():
        h = {}
        for n in CORES:
            c, m = core(world, n)
            for fn in ("clear_cache", "live_node_count", "size"):
                b = world.prog.find(c, m, fn)
                if b is not None:
                    h[b.key] = hook(n, fn)
        return h

    def mklab():
        return Lab(world, H2 if crate == "bss" else M22, {})

    def drive(mgr, name, entry, check, rule, hk=None):
        body = world.need(crate, mgr, name)

        def ent(lab, it):
            m = lab.manager(it, crate, mgr)
            it.ctx.data["m"] = m
            del it.ctx.events[:]
            return entry(lab, it, m, body)
        r = LabRun(g, mklab, ent, check, [], body, limit=200, hooks=hk or hooks())
        r.rules = rule
        r.phase(None, ())

    def call(lab, it, m, body):
        return it.run(body, [Ref(Cell(m))])
    for mgr, n, side in plain + [(sysm, None, None)]:
        want = {n} if n else {x for _, x, _ in plain}

        def cleared(lab, it, ctx, v, want=want):
            got = {e[1] for e in ctx.events if e[0] == "clear"}
            if got != want:
                return "the results of %s are still remembered" % sorted(want - got)
            bad = [e[0] for e in ctx.events if e[0] not in ("clear",)]
            return "clearing the caches also does %s" % bad[0] if bad else None
        drive(mgr, "clear_cache", call, cleared, "clear_cache reaches every manager below")
        first = plain[0][1]
        if n != "zmdd" and mgr != "BssMgr":
            def live(lab, it, ctx, v, n=n or first):
                return numdiff(ctx, v, ("live", n), None)
            drive(mgr, "live_node_count", call, live, "live_node_count is that of the diagrams")

        def size(lab, it, ctx, v, n=n or first):
            v = it.force(v)
            for i, x in enumerate(v.fields):
                w = numdiff(ctx, x, ("size", n, i), None)
                if w:
                    return "component %d: %s" % (i, w)
            return None
        drive(mgr, "size", call, size, "size is that of the diagrams")

    def inner(it, m, ty):
        for i, x in enumerate(it.force(m).fields):
            if isinstance(x, Agg) and str(x.adt).endswith("::" + ty):
                return x
        raise Undecided("no %s in the manager" % ty)
    # the owned managers are the ones handed out
    for acc, ty in (("bdd", "BddMgr"), ("zdd", "ZddMgr")) if crate == "bss" else (("mdd", "MddMgr"), ("zmdd", "ZmddMgr")):
        def owned(lab, it, ctx, v, ty=ty):
            x = it.load(v)
            return None if x is inner(it, ctx.data["m"], ty) else "%s is not the manager owned" % ty
        drive(sysm, acc, call, owned, "accessor of the owned manager")

    if crate == "mss":
        # set_gc_threshold and gc of the system manager are those of its diagram manager
        tr = Trace(world, "mt", ("mdd", "mtmdd"))
        tr.hs = Handles(world, "mt")

        def state(it, m):
            out = []

            def go(v, d=0):
                if isinstance(v, Agg) and str(v.adt).endswith("::GcState"):
                    out.append([x if isinstance(x, int) else None for x in v.fields])
                elif isinstance(v, Agg):
                    for x in v.fields:
                        go(x, d + 1)
                elif isinstance(v, (RcV, BoxV, RefCellV)) and d < 6:
                    go(v.cell.v, d + 1)
            go(inner(it, m, "MddMgr"))
            if not out:
                raise Undecided("collector state")
            return out

        def setthr(lab, it, m, body):
            it.run(body, [Ref(Cell(m)), 123])
            a = state(it, m)
            m2 = lab.manager(it, crate, sysm)
            it.run(world.need(crate, "MddMgr", "set_gc_threshold"), [Ref(Cell(inner(it, m2, "MddMgr"))), 123])
            return a, state(it, m2)

        def same(lab, it, ctx, v):
            return None if v[0] == v[1] else "the collector of the diagrams is left at %s instead of %s" % (v[0][0], v[1][0])
        drive(sysm, "set_gc_threshold", setthr, same, "the threshold is that of the diagrams")

        def collect(lab, it, m, body):
            ctx = it.ctx
            ctx.data["lives"] = {}
            ctx.data["setup"] = True
            vs = [it.force(it.run(world.need(crate, sysm, "defvar"), [Ref(Cell(m)), n, 2])) for n in "xy"]
            s = it.force(it.run(world.need(crate, "MddNode", "add"), [Ref(Cell(vs[0])), Ref(Cell(vs[1]))]))
            if ctx.choose(2):
                it.drop_value(Cell(s), ())
                ctx.fact("x + y is dropped")
                keep = []
            else:
                keep = [s] if ctx.choose(2) else []
            out = []
            for b, who in ((body, m), (world.need(crate, "MddMgr", "gc"), inner(it, m, "MddMgr"))):
                del ctx.events[:]
                it.run(b, [Ref(Cell(who)), slicev([Ref(Cell(h)) for h in keep])])
                out.append([sorted({(t[0], ctx.canon(t[1])) for t in e[2]}, key=repr) for e in ctx.events if e[0] == "collect"])
            return out

        def roots(lab, it, ctx, v):
            return None if v[0] == v[1] else "the collection keeps %d diagrams instead of %d" % (len(v[0][0]) if v[0] else 0, len(v[1][0]) if v[1] else 0)
        h = tr.hooks()
        drive(sysm, "gc", collect, roots, "a collection is that of the diagrams", h)
    g.need("delegation of " + sysm, 8)
    return g
