"""Group: hash-consing.  create_node / value of every forest, on an arbitrary manager state."""
from .core import *
from .forest import mkinterp, Missing, SymNodes
from .report import Group


def leaves(t, path=()):
    """(leaf, direct?) pairs of a key term."""
    if isinstance(t, tuple) and t and t[0] in ("tup", "seq"):
        for x in t[1:]:
            yield from leaves(x)
    elif isinstance(t, tuple) and t and t[0] == "agg":
        for x in t[3:]:
            yield from leaves(x)
    else:
        yield t


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def key_problem(ctx, kt, parts):
    """None, ('bad', why) or ('unsure', why)."""
    ls = [ctx.canon(x) for x in leaves(kt)]
    # positions matter: the sub-sequence of leaves that are parts must list the parts in order
    want = [ctx.canon(p) for p in parts]
    for w in want:
        if w in ls:
            continue
        if isinstance(w, int) and any(isinstance(l, int) and l == w for l in ls):
            continue
        if any(isinstance(l, tuple) and l[0] == "narrow" and mentions(l, w) for l in ls):
            return ("bad", "the key stores %s truncated" % tstr(w))
        if any(mentions(l, w) for l in ls):
            return ("unsure", "the key contains %s only inside %s" % (tstr(w), tstr(kt)))
        return ("bad", "the key %s does not contain %s" % (tstr(kt), tstr(w)))
    if len(ls) < len(want):
        return ("bad", "the key %s has fewer components than %s" % (tstr(kt), [tstr(w) for w in want]))
    return None


def payload(it, node):
    """(id, header, children) of a non-terminal node value via its public accessors."""
    v = it.force(node)
    p = it.force(v.fields[0])
    return p


def creation(world, fn, tier):
    f = world.forests[fn]
    g = Group("create_node:" + fn, "create_node returns the reduced, shared node for (variable, children) on every manager state")
    body = world.need(f.crate, f.mgr, "create_node")
    g.fn(body)
    ars = [2] if f.crate == "bddcore" else [2, 3, 4, 5, 6, 11, 40]
    for ar in ars:
        one_creation(world, f, fn, body, ar, g)
    if "Terminal" in f.kinds:
        terminal(world, f, fn, g)
    g.need(body.where(), 3)
    return g


def accessor(world, it, f, payload, name, args=()):
    b = world.prog.find(f.crate, f.ntname, name) or world.prog.find(f.crate, f.ntname, name, "NonTerminal")
    if b is None:
        raise Missing("%s::%s::%s" % (f.crate, f.ntname, name))
    return it.load(it.run(b, [Ref(Cell(payload))] + list(args)))


def one_creation(world, f, fn, body, ar, g):
    hdr = ("h", "x")
    kids = [("n", "c%d" % i, fn) for i in range(ar)]
    box = {}

    def one(ctx):
        world.setup(ctx, {}, ar)
        it = mkinterp(world.prog, ctx, {})
        box["it"] = it
        m = f.symbolic(it)
        box["m"] = m
        ks = [S(k, "node") for k in kids]
        if body.argc == 4:
            args = [Ref(Cell(m)), S(hdr, "hdr")] + ks
        else:
            args = [Ref(Cell(m)), S(hdr, "hdr"), Ref(Cell(Seq(ks, "slice")))]
        r = it.load(it.run(body, args))
        t = it.term(r)
        return it, m, t

    from .core import explore
    where = body.where()
    for ctx, out, val in explore(one, 4000):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, val)
            continue
        if out == "panic":
            g.bad(where, "creation succeeds on every state", case, val)
            continue
        it, m, t = val
        try:
            judge(world, f, fn, ctx, it, m, t, hdr, kids, g, where, case)
        except Undecided as u:
            g.unsure(where, case, str(u))


def reduced(world, f, fn, ctx, kids):
    """The child the node reduces to, False if it does not reduce, None if undetermined."""
    cs = [ctx.canon(k) for k in kids]

    def eq(a, b):
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        if (a, b) in ctx.neq or (b, a) in ctx.neq:
            return False
        ka, kb = ctx.kind_known(a, f), ctx.kind_known(b, f)
        if ka and kb and ka != kb:
            return False
        return None
    if fn == "zdd":
        r = eq(cs[1], f.id_of("Zero"))
        return (cs[0] if r else r)
    if fn == "zmdd":
        und = f.id_of("Undet")
        rs = [eq(c, und) for c in cs[1:]]
        if all(r is True for r in rs):
            return cs[0]
        return False if any(r is False for r in rs) else None
    rs = [eq(c, cs[0]) for c in cs[1:]] + [eq(a, b) for a in cs[1:] for b in cs[1:]]
    if all(r is True for r in rs):
        return cs[0]
    return False if any(r is False for r in rs) else None


def judge(world, f, fn, ctx, it, m, t, hdr, kids, g, where, case):
    t = ctx.canon(t)
    red = reduced(world, f, fn, ctx, kids)
    writes = [e for e in ctx.events if e[0] in ("slot", "push")]
    hits = [e for e in ctx.events if e[0] == "hit"]
    misses = [e for e in ctx.events if e[0] == "miss"]
    inserts = [e for e in ctx.events if e[0] == "insert"]
    R1 = "a redundant node is replaced by its child"
    R2 = "a node that is not redundant is looked up and stored under its variable and all its children"
    R3 = "a stored node has the requested variable and children and its own id"
    if red not in (None, False):
        if t != red:
            g.bad(where, R1, case, "returns %s instead of the child %s" % (tstr(t), tstr(red)))
            return
        if writes:
            g.bad(where, R1, case, "a node is stored for a redundant request")
            return
        g.ok()
        return
    if red is None:
        # nothing contradicts redundancy: the code never asked
        cs = [ctx.canon(k) for k in kids]
        if t in cs and not writes and not hits:
            g.bad(where, R1, case, "returns the child %s although the children may differ" % tstr(t))
        else:
            g.bad(where, R1, case, "a node is stored or returned without excluding that it is redundant")
        return
    cs = [ctx.canon(k) for k in kids]
    parts = [ctx.canon(hdr)] + cs
    if not hits and not misses:
        if t in cs or isinstance(t, int):
            g.bad(where, R1, case, "returns %s although the node is not redundant" % tstr(t))
        else:
            g.bad(where, R2, case, "the unique table is not consulted")
        return
    for e in hits + misses:
        p = key_problem(ctx, e[2], parts)
        if p and p[0] == "bad":
            g.bad(where, R2, case, "lookup: %s" % p[1])
            return
        if p:
            raise Undecided(p[1])
    if hits:
        e = hits[-1]
        if t != ctx.canon(("hit", e[1], e[2])):
            g.bad(where, "the node found in the unique table is returned", case, "returns %s" % tstr(t))
            return
        if writes:
            g.bad(where, R2, case, "a second node is stored although the table has it")
            return
        g.ok()
        return
    tab = misses[-1][1]
    key = misses[-1][2]
    if len(writes) != 1:
        g.bad(where, R3, case, "%d nodes are stored" % len(writes))
        return
    w = writes[0]
    slot, node = ctx.canon(w[2]), w[3]
    pops = [e for e in ctx.events if e[0] == "popfree"]
    if w[0] == "slot":
        if not pops or slot != ctx.canon(pops[-1][2]):
            g.bad(where, "a node goes into a fresh slot or one taken off the free list", case, "slot %s is overwritten" % tstr(slot))
            return
    elif pops:
        g.bad(where, "a slot taken off the free list is used", case, "slot %s is lost" % tstr(pops[-1][2]))
        return
    v = it.force(node)
    if not isinstance(v, Agg) or f.kinds[v.variant] != "NonTerminal":
        g.bad(where, R3, case, "the stored node is %r" % (v,))
        return
    p = it.force(v.fields[0])
    nid = it.term(accessor(world, it, f, p, "id"))
    nh = it.term(accessor(world, it, f, p, "headerid"))
    nk = []
    ed = world.prog.find(f.crate, f.ntname, "edge")
    for i in range(len(kids)):
        if ed is not None:
            nk.append(it.term(it.run(ed, [Ref(Cell(p)), i])))
        else:
            b = world.prog.find(f.crate, f.ntname, "index", "Index")
            if b is None:
                raise Undecided("children accessor of %s" % f.ntname)
            nk.append(it.term(it.run(b, [Ref(Cell(p)), i])))
    if nid != slot:
        g.bad(where, R3, case, "slot %s holds a node with id %s" % (tstr(slot), tstr(nid)))
        return
    if nh != ctx.canon(hdr):
        g.bad(where, R3, case, "the node has variable %s" % tstr(nh))
        return
    if nk != cs:
        g.bad(where, R3, case, "the node has children %s instead of %s" % ([tstr(x) for x in nk], [tstr(x) for x in cs]))
        return
    ins = [e for e in inserts if e[1] == tab]
    if not ins:
        g.bad(where, R2, case, "the new node is not entered in the unique table")
        return
    if len(ins) > 1 or ins[0][2] != key:
        g.bad(where, R2, case, "the new node is entered under %s but looked up under %s" % ([tstr(e[2]) for e in ins], tstr(key)))
        return
    if it.term(it.load(ins[0][3])) != slot:
        g.bad(where, R2, case, "the table maps the key to %s instead of %s" % (tstr(it.term(it.load(ins[0][3]))), tstr(slot)))
        return
    if t != slot:
        g.bad(where, R2, case, "returns %s instead of the new node %s" % (tstr(t), tstr(slot)))
        return
    g.ok()


def terminal(world, f, fn, g):
    body = world.need(f.crate, f.mgr, "value")
    g.fn(body)
    v = ("v", "x")

    def one(ctx):
        world.setup(ctx, {}, 2)
        it = mkinterp(world.prog, ctx, {})
        m = f.symbolic(it)
        r = it.load(it.run(body, [Ref(Cell(m)), S(v, "val")]))
        return it, m, it.term(r)
    from .core import explore
    where = body.where()
    R = "every value has exactly one terminal, shared through the value table"
    for ctx, out, val in explore(one, 1000):
        g.partitions += 1
        case = "; ".join(ctx.facts) or "all states"
        if out in ("undecided", "cut"):
            g.unsure(where, case, val)
            continue
        if out == "panic":
            g.bad(where, "creation succeeds on every state", case, val)
            continue
        it, m, t = val
        t = ctx.canon(t)
        writes = [e for e in ctx.events if e[0] in ("slot", "push")]
        hits = [e for e in ctx.events if e[0] == "hit"]
        misses = [e for e in ctx.events if e[0] == "miss"]
        inserts = [e for e in ctx.events if e[0] == "insert"]
        try:
            for e in hits + misses:
                p = key_problem(ctx, e[2], [v])
                if p and p[0] == "bad":
                    g.bad(where, R, case, p[1])
                    break
                if p:
                    raise Undecided(p[1])
            else:
                if hits:
                    if t != ctx.canon(("hit", hits[-1][1], hits[-1][2])) or writes:
                        g.bad(where, R, case, "the table has the value but %s is returned" % tstr(t))
                    else:
                        g.ok()
                    continue
                if not misses:
                    g.bad(where, R, case, "the value table is not consulted")
                    continue
                if len(writes) != 1:
                    g.bad(where, R, case, "%d terminals are stored" % len(writes))
                    continue
                slot = ctx.canon(writes[0][2])
                pops = [e for e in ctx.events if e[0] == "popfree"]
                if writes[0][0] == "slot" and (not pops or slot != ctx.canon(pops[-1][2])):
                    g.bad(where, R, case, "slot %s is overwritten" % tstr(slot))
                    continue
                node = it.force(writes[0][3])
                if f.kinds[node.variant] != "Terminal":
                    g.bad(where, R, case, "the stored node is %r" % (node,))
                    continue
                b = world.prog.find(f.crate, "TerminalNumber", "value") or world.prog.find(f.crate, "TerminalNumber", "value", "Terminal")
                if b is not None and it.term(it.run(b, [Ref(Cell(node.fields[0]))])) != v:
                    g.bad(where, R, case, "the terminal holds another value")
                    continue
                ins = [e for e in inserts if e[1] == misses[-1][1]]
                if len(ins) != 1 or ins[0][2] != misses[-1][2] or it.term(it.load(ins[0][3])) != slot or t != slot:
                    g.bad(where, R, case, "the new terminal is not entered under its value")
                    continue
                g.ok()
        except Undecided as u:
            g.unsure(where, case, str(u))
