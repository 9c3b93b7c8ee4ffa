"""Group: the computed table (ComputeCache) only ever answers with what was stored for the
same key, and drops what a collection makes stale."""
from .core import *
from .core import explore
from .forest import mkinterp, GenVec, Missing
from .report import Group

SENT = (1 << 32) - 1


def mkcache(world, it):
    b = world.need("common", "ComputeCache", "new")
    adt = world.prog.adt_by_name("common", "ComputeCache")
    if adt is None:
        raise Missing("common::ComputeCache")
    fs = []
    for fn, ty, _ in adt["variants"][0]["fields"]:
        if ty[0] == "adt" and ty[1].endswith("::Vec"):
            fs.append(GenVec(ty[2][0], ("cache", fn)))
        elif ty[0] == "int":
            fs.append(S(("cfield", fn), "int"))
        elif ty[0] == "adt" and ty[1].endswith("::Box") and ty[2][0][0] == "slice":
            fs.append(GenVec(ty[2][0][1], ("cache", fn)))
        else:
            raise Undecided("field %s of ComputeCache" % fn)
    it.ctx.data.setdefault("domain", lambda it, n: [S(("anyindex", n[1]), "int")] if isinstance(n, tuple) and n[0] == "len" and n[1][0] == "cache" else None)
    return Agg(adt["key"], 0, fs)


def flat(it, v):
    v = it.load(it.force(v))
    if isinstance(v, Seq):
        out = []
        for x in v.items:
            out += flat(it, x)
        return out
    if isinstance(v, Agg):
        out = [("var", v.variant)] if str(v.adt).endswith("::Option") else []
        for x in v.fields:
            out += flat(it, x)
        return out
    return [it.term(v)]


def slots(it, cache):
    """All (current leaves, original leaves or None) entries of the cache's vectors."""
    out = []
    for v in it.load(cache).fields:
        v = it.load(v)
        if isinstance(v, GenVec):
            if v.cleared:
                continue
            for e in v.ents:
                out.append((flat(it, e[1].v), flat(it, e[2]) if e[2] is not None else None))
        elif isinstance(v, Seq):
            for x in v.items:
                out.append((flat(it, x), None))
        elif type(v).__name__ in ("SymArr", "BigFill"):
            out.append((flat(it, v.v), None))
            for e in v.ents:
                out.append((flat(it, e[1].v if isinstance(e[1], Cell) else e[1]), None))
    return out


class LiveV:
    """The liveness bitmap: an arbitrary predicate on ids."""

    def length(self, it):
        return S(("len", "live"), "int")

    def getitem(self, it, s):
        t = it.term(it.load(s))
        return it.ctx.bool_atom(("live", t), "live[%s]" % tstr(t))

    def get_opt(self, it, r, ix):
        return some(Ref(r.cell, r.path + (it.load(ix),)))

    def setitem(self, it, s, v):
        raise Undecided("liveness bitmap written")


K = [("key", 0), ("key", 1), ("key", 2)]
VAL = ("value",)
OPAQUE = ("trailing_zeros", "leading_zeros", "count_ones", "pow(", "shl(", "next_power_of_two", "div(", "rem(")


def empty(leaves):
    return any(isinstance(x, int) and x == SENT for x in leaves) or ("var", 0) in leaves


def layout(world, g):
    """Positions of key words and value in a slot, learnt from put."""
    body = world.need("common", "ComputeCache", "put")
    g.fn(body)
    pos = None
    where = body.where()

    def one(ctx):
        world.setup(ctx)
        it = mkinterp(world.prog, ctx, {})
        c = Cell(mkcache(world, it))
        it.run(body, [Ref(c)] + [S(k, "node") for k in K] + [S(VAL, "node")])
        return it, c
    for ctx, out, v in explore(one, 3000):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, v)
            continue
        if out == "panic":
            if any(w in case for w in OPAQUE):
                g.unsure(where, case, "reached only under an arithmetic condition outside the domain: " + str(v))
            else:
                g.bad(where, "storing succeeds", case, v)
            continue
        it, c = v
        try:
            want = [ctx.canon(k) for k in K] + [ctx.canon(VAL)]
            stored = None
            for cur, orig in slots(it, c.v):
                if orig is not None and cur == orig:
                    continue
                if empty(cur):
                    continue
                if any(VAL == ctx.canon(x) for x in cur):
                    if not all(w in cur for w in want):
                        g.bad(where, "an entry is stored with its complete key", case, "slot becomes %s" % [tstr(x) for x in cur])
                        stored = False
                        break
                    p = [cur.index(w) for w in want]
                    stored = tuple(p)
                    continue
                # a copied entry: all words from one original slot
                src = {x[1] for x in cur if isinstance(x, tuple) and x[0] == "ix"}
                if len(src) == 1 and cur == [("ix", list(src)[0], i) for i in range(len(cur))]:
                    continue
                if len({origin(x) for x in cur}) == 1 and origin(cur[0]) is not None and [wordpos(x) for x in cur] == sorted(wordpos(x) for x in cur) and len(set(map(wordpos, cur))) == len(cur):
                    continue
                g.bad(where, "an existing entry keeps its key and value together", case, "slot becomes %s" % [tstr(x) for x in cur])
                stored = False
                break
            if stored is False:
                continue
            if stored and len(set(stored)) == 4:
                if pos is None:
                    pos = stored
                elif pos != stored:
                    g.bad(where, "entries are laid out uniformly", case, "%s / %s" % (pos, stored))
                    continue
            g.ok()
        except Undecided as u:
            g.unsure(where, case, str(u))
    return pos


def origin(t):
    while isinstance(t, tuple) and t:
        if t[0] == "gslot":
            return t
        if len(t) < 2:
            return None
        t = t[1]
    return None


def wordpos(t):
    return t[2:] if isinstance(t, tuple) else ()


def cache(world, tier):
    g = Group("computecache", "the computed table answers a lookup only with a value stored for exactly that key, and forgets entries naming dead ids")
    pos = layout(world, g)
    if pos is None:
        if not g.violations:
            g.unsure("common ComputeCache::put", "", "slot layout not recognised")
        return g
    lookup(world, g, pos)
    clear(world, g)
    for m, words in (("retain_live", (1, 2, 3)), ("retain_live3", (0, 1, 2, 3))):
        retain(world, g, m, [pos[w] for w in words])
    g.need("ComputeCache", 6)
    return g


def lookup(world, g, pos):
    body = world.need("common", "ComputeCache", "get")
    g.fn(body)
    where = body.where()

    def one(ctx):
        world.setup(ctx)
        it = mkinterp(world.prog, ctx, {})
        c = Cell(mkcache(world, it))
        r = it.load(it.run(body, [Ref(c)] + [S(k, "node") for k in K]))
        return it, c, r
    hits = 0
    for ctx, out, v in explore(one, 3000):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, v)
            continue
        if out == "panic":
            g.bad(where, "lookup succeeds", case, v)
            continue
        it, c, r = v
        try:
            r = it.force(r)
            if not isinstance(r, Agg) or r.variant == 0:
                g.ok()
                continue
            hits += 1
            rv = it.load(r.fields[0])
            rt = rv.t if isinstance(rv, S) else rv
            rc = ctx.canon(rt)
            good = False
            for cur, orig in slots(it, c.v):
                if orig is None or len(orig) <= max(pos):
                    continue
                if orig[pos[3]] not in (rt, rc):
                    continue
                if all(orig[pos[i]] == ctx.canon(K[i]) or ctx.canon(orig[pos[i]]) == ctx.canon(K[i]) for i in range(3)):
                    if any(k[0] == "sentinel" and not val for k, val in ctx.boolfacts.items() if isinstance(k, tuple) and k) or ("var", 1) in orig:
                        good = True
            if good:
                g.ok()
            else:
                g.bad(where, "a hit requires a full slot whose three key words equal the request", case, "returns %s" % tstr(rt))
        except Undecided as u:
            g.unsure(where, case, str(u))
    if not hits and not g.undecided:
        g.sample("lookups never hit")


def clear(world, g):
    body = world.need("common", "ComputeCache", "clear")
    g.fn(body)
    where = body.where()

    def one(ctx):
        world.setup(ctx)
        it = mkinterp(world.prog, ctx, {})
        c = Cell(mkcache(world, it))
        for v in c.v.fields:
            if isinstance(v, GenVec):
                v.getitem(it, S(("anyindex", v.name), "int"))
        it.run(body, [Ref(c)])
        return it, c
    for ctx, out, v in explore(one, 300):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, v)
            continue
        if out == "panic":
            g.bad(where, "clearing succeeds", case, v)
            continue
        it, c = v
        try:
            alive = [cur for cur, orig in slots(it, c.v) if not empty(cur)]
            if alive:
                g.bad(where, "clearing forgets every entry", case, "slot still holds %s" % [tstr(x) for x in alive[0]])
            else:
                g.ok()
        except Undecided as u:
            g.unsure(where, case, str(u))


def retain(world, g, m, need):
    body = world.need("common", "ComputeCache", m)
    g.fn(body)
    where = body.where()

    def one(ctx):
        world.setup(ctx)
        it = mkinterp(world.prog, ctx, {})
        c = Cell(mkcache(world, it))
        for v in c.v.fields:
            if isinstance(v, GenVec):
                v.getitem(it, S(("anyindex", v.name), "int"))
        it.run(body, [Ref(c), Ref(Cell(LiveV()))])
        return it, c
    for ctx, out, v in explore(one, 2000):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, v)
            continue
        if out == "panic":
            g.bad(where, "purging succeeds", case, v)
            continue
        it, c = v
        try:
            for cur, orig in slots(it, c.v):
                if empty(cur):
                    continue
                if orig is not None and cur != orig and ctx and [ctx.canon(x) for x in cur] != [ctx.canon(x) for x in orig]:
                    g.bad(where, "purging does not alter entries", case, "slot becomes %s" % [tstr(x) for x in cur])
                    break
                for p in need:
                    w = ctx.canon(cur[p])
                    if ctx.boolfacts.get(("live", w)) is not True:
                        g.bad(where, "an entry survives a collection only if every id it names is live", case,
                              "an entry survives although %s is not known to be live" % tstr(w))
                        break
                else:
                    continue
                break
            else:
                g.ok()
        except Undecided as u:
            g.unsure(where, case, str(u))
