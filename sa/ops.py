"""Contracts of the public diagram operations, and their modular verification.

For every public operation the body is abstractly interpreted once per partition of its
operands (kind of each operand, relative level, id equality, memo-table outcome).  Calls of
public operations are replaced by their contracts (structural induction, with a check that
recursive calls are made on smaller operands); the returned diagram term must denote the
specified function, and every node built on the way must respect the variable order.
"""
from .core import *
from . import sem
from .forest import Forest, CacheV, SPECS, Missing, mkinterp
from .sem import PW, differ, feasible, subterms

NOUND = {"bdd": {"Undet"}, "mdd": {"Undet"}, "zdd": {"Undet"}}


class OpDef:
    def __init__(self, name, owner, method, args, **kw):
        self.name = name                    # "<result forest>.<op>"
        self.forest = name.split(".")[0]
        self.owner = owner                  # forest name or 'mt2'
        self.method = method
        self.args = args
        self.optional = kw.get("optional", False)
        self.exclude = kw.get("exclude", NOUND)
        self.grid = kw.get("grid", (0, 1, 2, 3))
        self.universe = kw.get("universe", False)
        self.alg = kw.get("alg", False)
        self.consts = kw.get("consts", False)   # also check the terminal table with Undet


def _defs():
    out = []
    for f in ("bdd", "mdd"):
        for n in ("not", "and", "or", "xor", "imp", "nand", "nor", "xnor", "ite"):
            out.append(OpDef("%s.%s" % (f, n), f, n, PW["%s.%s" % (f, n)][0], consts=True,
                             **({"exclude": {}} if f == "mdd" and n == "not" else {})))
    out.append(OpDef("mdd.replace", "mdd", "replace", ["mdd", "mdd"], exclude={}))
    g = (-2, -1, 0, 1, 2, 3)
    for n in ("add", "sub", "mul", "div", "rem", "min", "max", "replace"):
        out.append(OpDef("mtmdd.%s" % n, "mtmdd", n, ["mtmdd", "mtmdd"], exclude=NOUND, grid=g))
    for n in ("intersect", "union", "setdiff"):
        if n == "intersect":
            out.append(OpDef("zdd.%s" % n, "zdd", n, ["zdd", "zdd"], exclude={}, universe=True))
        else:
            out.append(OpDef("zdd.%s" % n, "zdd", n, ["zdd", "zdd"]))
    out.append(OpDef("zdd.product", "zdd", "product", ["zdd", "zdd"], alg=True))
    out.append(OpDef("zdd.divide", "zdd", "divide", ["zdd", "zdd"], universe=True))
    for n in ("intersect", "setdiff"):
        out.append(OpDef("zmdd.%s" % n, "zmdd", n, ["zmdd", "zmdd"], exclude={}))
    out.append(OpDef("mdd.veq", "mt2", "veq", ["mtmdd", "mtmdd"]))
    out.append(OpDef("mdd.vlt", "mt2", "vlt", ["mtmdd", "mtmdd"]))
    out.append(OpDef("mtmdd.vif", "mt2", "vif", ["mdd", "mtmdd"], exclude={}))
    out.append(OpDef("mtmdd.vite", "mt2", "vite", ["mdd", "mtmdd", "mtmdd"], optional=True))
    return out


DEFS = _defs()
BYNAME = {d.name: d for d in DEFS}


class World:
    """The program plus its forests and contract hooks."""

    def __init__(self, prog):
        self.prog = prog
        self.forests = {n: Forest(prog, n) for n in SPECS}
        self.missing = []
        self.bodies = {}
        for d in DEFS:
            b = self.owner_fn(d.owner, d.method)
            if b is not None and not d.optional and not b.pub:
                b = None
            if b is None:
                if not d.optional:
                    self.missing.append(d)
                continue
            self.bodies[d.name] = b
        self.bykey = {b.key: BYNAME[n] for n, b in self.bodies.items()}
        self.memo_patterns = {}

    def owner_fn(self, owner, method):
        if owner == "mt2":
            return self.prog.find("mddcore", "MtMdd2Manager", method)
        f = self.forests[owner]
        return self.prog.find(f.crate, f.mgr, method)

    def need(self, crate, adt, name, trait=None):
        b = self.prog.find(crate, adt, name, trait)
        if b is None:
            raise Missing("%s::%s%s" % (crate, adt + "::" if adt else "", name))
        return b

    # ---- managers
    def setup(self, ctx, exclude=None, arity=2):
        ctx.data["forests"] = self.forests
        ctx.data["exclude"] = exclude or {}
        ctx.data["arity"] = arity

    def manager(self, it, owner):
        if owner == "mt2":
            b = self.need("mddcore", "MtMdd2Manager", "new")
            m = it.run(b, [])
            self.symbolise(it, m, "mt2")
            return m
        return self.forests[owner].symbolic(it)

    def symbolise(self, it, v, owner):
        """Replace every forest / computed table inside an abstract value by an arbitrary one."""
        if isinstance(v, Agg):
            for f in self.forests.values():
                if v.adt == f.adt:
                    return f.symbolise(it, v)
            adt = self.prog.adts.get(v.adt)
            for i, x in enumerate(v.fields):
                if isinstance(x, Agg) and str(x.adt).endswith("::ComputeCache"):
                    nm = adt["variants"][v.variant]["fields"][i][0] if adt else str(i)
                    v.fields[i] = CacheV((owner, nm))
                else:
                    self.symbolise(it, x, owner)
        elif isinstance(v, (RcV, BoxV)):
            self.symbolise(it, v.cell.v, owner)
        elif hasattr(v, "cell") and not isinstance(v, Ref):
            self.symbolise(it, v.cell.v, owner)
        return v

    # ---- hooks
    def hooks(self, ops=True, mk=True, memo=None, only=None):
        h = {}
        if ops:
            for n, b in self.bodies.items():
                if only is None or n in only:
                    h[b.key] = self.op_hook(BYNAME[n])
        if mk:
            for fn, f in self.forests.items():
                b = self.need(f.crate, f.mgr, "create_node")
                h[b.key] = self.mk_hook(fn)
                b = self.prog.find(f.crate, f.mgr, "value")
                if b is not None and "Terminal" in f.kinds:
                    h[b.key] = self.val_hook(fn)
        if memo is not None:
            for m in ("get", "put"):
                b = self.need("common", "ComputeCache", m)
                h[b.key] = memo.hook(m)
        return h

    def nodeterm(self, it, v):
        v = it.load(v)
        if isinstance(v, S):
            return it.ctx.canon(v.t)
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        raise Undecided("node operand %r at %s" % (v, it.where()))

    def op_hook(self, d):
        def h(it, args, fr):
            ts = tuple(self.nodeterm(it, a) for a in args[1:1 + len(d.args)])
            t = ("op", d.name) + ts
            it.ctx.event("call", d.name, ts, it.where())
            ground = it.ctx.data.get("ground")
            r = ground(d.name, ts) if ground else None
            if r is None:
                r = it.ctx.canon(t)
            return r if isinstance(r, int) else S(r, "node")
        return h

    def mk_hook(self, fn):
        def h(it, args, fr):
            hdr = it.load(args[1])
            ht = it.ctx.canon(hdr.t) if isinstance(hdr, S) else hdr
            rest = []
            for a in args[2:]:
                a = it.load(a)
                if isinstance(a, Seq):
                    rest += [self.nodeterm(it, x) for x in a.items]
                elif isinstance(a, (S, int)):
                    rest.append(self.nodeterm(it, a))
                else:
                    raise Undecided("children %r at %s" % (a, it.where()))
            t = ("mk", fn, ht) + tuple(rest)
            it.ctx.event("mk", t, it.where())
            ground = it.ctx.data.get("ground")
            r = it.ctx.canon(ground.full(t) if ground else t)
            return r if isinstance(r, int) else S(r, "node")
        return h

    def val_hook(self, fn):
        def h(it, args, fr):
            v = it.load(args[1])
            t = it.term(v)
            return S(("const", fn, t), "node")
        return h


class Memo:
    """Computed tables: all lookups miss (pass 1), or may hit what some operation stored."""

    def __init__(self, world, patterns=None):
        self.w = world
        self.patterns = patterns

    def raw(self, it, v):
        v = it.load(v)
        if isinstance(v, S):
            return v.t
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            return v
        v = it.force(v)
        if isinstance(v, Agg):
            if v.adt == "tuple":
                return None
            return ("agg", str(v.adt).split("::")[-1], v.variant)
        return None

    def hook(self, m):
        def h(it, args, fr):
            c = it.load(args[0])
            if not isinstance(c, CacheV):
                return NotImplemented
            key = [self.raw(it, a) for a in args[1:4]]
            if m == "get":
                r = self.lookup(it, c.name, key)
                return none() if r is None else some(r)
            self.store(it, c.name, key, args[4])
            return UNIT
        return h

    def lookup(self, it, name, key):
        if any(k is None for k in key):
            raise Undecided("memo key at %s" % it.where())
        it.ctx.event("memoget", name, tuple(key), it.where())
        if self.patterns is None:
            return None
        cands = [p for p in self.patterns if p[0] == name and len(p[1]) == len(key) and
                 all(not (isinstance(a, (int, str)) and isinstance(b, (int, str)) and a != b) and
                     not (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "agg" and b[0] == "agg" and a != b)
                     for a, b in zip(p[1], key))]
        i = it.ctx.choose(len(cands) + 1)
        if i == 0:
            return None
        _, pk, meaning, op, where = cands[i - 1]
        sub = {}
        for a, b in zip(pk, key):
            if isinstance(b, tuple):
                b = it.ctx.canon(b)
            if isinstance(a, tuple) and a[0] == "agg":
                if a != b:
                    raise Infeasible()
                continue
            if isinstance(a, int):
                if a == b:
                    continue
                if isinstance(b, int) or not it.ctx.node_eq(b, a):
                    raise Infeasible()
                continue
            if a in sub:
                x, y = sub[a], b
                if x != y and not it.ctx.node_eq(x, y):
                    raise Infeasible()
                continue
            sub[a] = b
        fresh = {}

        def rw(t):
            if not isinstance(t, tuple):
                return t
            if t in sub:
                return sub[t]
            if t and t[0] == "n":
                if t not in fresh:
                    it.ctx.fresh_n += 1
                    fresh[t] = ("n", "%s'%d" % (t[1], it.ctx.fresh_n), t[2])
                return fresh[t]
            return tuple(rw(x) for x in t)
        t = rw(meaning)
        it.ctx.fact("memo %s%s holds the entry stored by %s" % (name[-1], tuple(tstr(it.ctx.canon(k) if isinstance(k, tuple) else k) for k in key), where))
        it.ctx.event("memohit", name, tuple(key), meaning, it.where(), where)
        r = it.ctx.canon(t)
        return r if isinstance(r, int) else S(r, "node")

    def store(self, it, name, key, val):
        v = it.load(val)
        raw = v.t if isinstance(v, S) else v
        it.ctx.event("memoput", name, tuple(key), raw, it.where(), tuple(it.ctx.facts))

    # HashMap based tables
    def tablehook(self, it, tab, m, key):
        k = it.load(key)
        parts = self.keyparts(it, k)
        r = self.lookup(it, (m.name[1], m.name[2]), parts)
        if r is None:
            return None
        e = [key, None, Cell(r)]
        return e

    def insert(self, it, m, key, val):
        self.store(it, (m.name[1], m.name[2]), self.keyparts(it, it.load(key)), val)

    def keyparts(self, it, k):
        k = it.force(k)
        if isinstance(k, Agg) and k.adt == "tuple":
            out = []
            for x in k.fields:
                out += self.keyparts(it, it.load(x))
            return out
        return [self.raw(it, k)]


def install_memo_tables(it, memo):
    """HashMap-backed memo tables of the managers (create_node and value are contracts, so any
    other table access made by an operation is a memo access)."""
    it.ctx.data["tablehook"] = memo.tablehook
    it.ctx.data["memoinsert"] = memo


class OpRun:
    """Results of verifying one operation."""

    def __init__(self, d):
        self.d = d
        self.partitions = 0
        self.points = 0
        self.undecided = []
        self.violations = []
        self.calls = set()
        self.puts = []
        self.hits = 0


def root_args(d):
    names = "fgh"
    return [("n", names[i], a) for i, a in enumerate(d.args)]


WIDE = 6


def semopts(d, arity):
    if arity > WIDE:
        # a variable of many states: the assignments looked at give it its first, a middle or its last state
        o = semopts(d, WIDE)
        o["arity"], o["states"] = arity, (0, arity // 2, arity - 1)
        return o
    return {"arity": 2 if d.forest in ("bdd", "zdd") else arity, "exclude": d.exclude, "grid": d.grid, "universe": d.universe}


def level_ok(ctx, hdr, t):
    """Is the diagram t known to depend only on variables strictly below hdr?"""
    t = ctx.canon(t)
    if isinstance(t, int) or t[0] == "const":
        return None
    if t[0] == "op":
        for x in t[2:]:
            r = level_ok(ctx, hdr, x)
            if r:
                return r
        return None
    lh = ctx.canon(("level", hdr))
    o = ctx.order("level")
    if t[0] == "mk":
        lt = ctx.canon(("level", t[2]))
        return None if o.reach(lt, lh) == "lt" else "%s is not known to lie below %s" % (tstr(t), tstr(hdr))
    k = ctx.kind_known(t)
    if k and k != "NonTerminal":
        return None
    lt = ctx.canon(("level", ctx.canon(("hdr", t))))
    if k == "NonTerminal" and o.reach(lt, lh) == "lt":
        return None
    # below its parent
    x = t
    while isinstance(x, tuple) and x[0] == "ch":
        p = ctx.canon(x[1])
        if isinstance(p, int):
            return None
        lp = ctx.canon(("level", ctx.canon(("hdr", p))))
        if lp == lh or o.reach(lp, lh):
            return None
        x = p
    return "%s is not known to lie below %s" % (tstr(t), tstr(hdr))


def smaller(ctx, args, roots):
    """Every argument is an operand (or below one), at least one strictly below."""
    strict = False
    for a in args:
        a = ctx.canon(a)
        if isinstance(a, int) or a[0] == "const":
            continue
        x, dp = a, 0
        rs = [ctx.canon(r) for r in roots]
        while x not in rs and isinstance(x, tuple) and x[0] == "ch":
            x = ctx.canon(x[1])
            dp += 1
        if x not in rs:
            return False
        if dp:
            strict = True
    if strict:
        return True
    # the operands put into table order
    rs = [ctx.canon(r) for r in roots]
    xs = [ctx.canon(a) for a in args]
    if xs != rs and sorted(map(repr, xs)) == sorted(map(repr, rs)):
        o = ctx.order("nodeid")

        def inv(v):
            return [(v[i], v[j]) for i in range(len(v)) for j in range(i) if v[i] != v[j] and o.reach(v[i], v[j]) == "lt"]
        known = all(v[i] == v[j] or o.reach(v[i], v[j]) == "lt" or o.reach(v[j], v[i]) == "lt" for v in (rs,) for i in range(len(v)) for j in range(i))
        if known and len(inv(xs)) < len(inv(rs)):
            return True
    # replaced an operand by a constant
    n_r = len([r for r in roots if not isinstance(ctx.canon(r), int)])
    n_a = len([a for a in args if not isinstance(ctx.canon(a), int)])
    return n_a < n_r


def algebra_nf(ctx, t):
    """Normal form of a family term in the idempotent semiring generated by variables and atoms."""
    F = ctx.data["forests"]["zdd"]
    t = ctx.canon(t)
    if isinstance(t, int):
        k = F.static_kind(t)
        if k == "Zero":
            return frozenset()
        if k == "One":
            return frozenset([()])
        raise Undecided("constant %s in a product" % k)

    def mulvar(nf, v):
        return frozenset(tuple(sorted(set(x for x in m if x[0] == "v") | {("v", v)}, key=repr)) + tuple(x for x in m if x[0] != "v") for m in nf)

    def mul(a, b):
        out = set()
        for m in a:
            for n in b:
                vs = sorted({x for x in m + n if x[0] == "v"}, key=repr)
                at = sorted([x for x in m + n if x[0] != "v"], key=repr)
                out.add(tuple(vs) + tuple(at))
        return frozenset(out)
    if t[0] == "op":
        if t[1] == "zdd.union":
            return algebra_nf(ctx, t[2]) | algebra_nf(ctx, t[3])
        if t[1] == "zdd.product":
            return mul(algebra_nf(ctx, t[2]), algebra_nf(ctx, t[3]))
        raise Undecided("%s inside a product" % t[1])
    if t[0] == "mk":
        return algebra_nf(ctx, t[3]) | mulvar(algebra_nf(ctx, t[4]), ctx.canon(t[2]))
    if ctx.kind_known(t) == "NonTerminal":
        return algebra_nf(ctx, ("ch", t, 0)) | mulvar(algebra_nf(ctx, ("ch", t, 1)), ctx.canon(("hdr", t)))
    return frozenset([(("a", t),)])


def compare(ctx, t, spec, d, opts, run):
    if d.alg:
        a, b = algebra_nf(ctx, t), algebra_nf(ctx, spec)
        run.points += 1
        if a == b:
            return None
        x = sorted(a - b, key=repr)
        y = sorted(b - a, key=repr)
        return "terms %s instead of %s" % ([tstr(m) for m in x], [tstr(m) for m in y])
    w, n = differ(ctx, t, spec, d.forest, opts)
    run.points += n
    return w


def term_of(it, v):
    v = it.load(v)
    if isinstance(v, S):
        return it.ctx.canon(v.t)
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    raise Undecided("result %r" % (v,))


def verify(world, d, arity=2, patterns=None, consts=False, body=None, mkargs=None, limit=6000, sccs=None, prop_kind="op"):
    """Verify operation d.  patterns: memo entries that lookups may hit."""
    run = OpRun(d)
    body = body or world.bodies[d.name]
    opts = semopts(d, arity)
    if consts:
        opts["exclude"] = {}
        opts["consts"] = True
    memo = Memo(world, patterns)
    box = {}

    def one(ctx):
        world.setup(ctx, {} if consts else d.exclude, arity)
        it = mkinterp(world.prog, ctx, world.hooks(memo=memo))
        install_memo_tables(it, memo)
        box["it"] = it
        roots = root_args(d)
        if consts:
            ctx.data["allowed"] = {(a[2], a): {k for k in world.forests[a[2]].static() if k != "NonTerminal"} for a in roots}
        m = world.manager(it, d.owner)
        vals = [S(r, "node") for r in roots]
        args = mkargs(it, m, vals) if mkargs else [Ref(Cell(m))] + vals
        helper_hooks(world, it, body, d, roots)
        v = it.run(body, args)
        return term_of(it, v)
    where = body.where()
    for ctx, out, val in explore(one, limit):
        run.partitions += 1
        roots = root_args(d)
        spec = ("op", d.name) + tuple(roots)
        facts = "; ".join(ctx.facts) or "all operands"
        try:
            if out == "undecided":
                run.undecided.append((facts, val))
                continue
            if out == "cut":
                run.undecided.append((facts, val))
                continue
            if out == "panic":
                if feasible(ctx, opts):
                    run.violations.append({"where": where, "rule": "returns a diagram for all operands", "case": facts, "detail": val})
                continue
            for e in ctx.events:
                if e[0] == "call":
                    run.calls.add(e[1])
                    if e[1] == d.name or (sccs and e[1] in sccs.get(d.name, ())):
                        if not smaller(ctx, e[2], roots):
                            raise Undecided("recursive call on operands not known to be smaller: %s(%s)" % (e[1], ",".join(tstr(x) for x in e[2])))
                elif e[0] == "memohit":
                    run.hits += 1
                elif e[0] == "mk":
                    t = ctx.canon(e[1])
                    for kid in e[1][3:]:
                        bad = level_ok(ctx, e[1][2], kid)
                        if bad:
                            run.violations.append({"where": where, "rule": "nodes respect the variable order", "case": facts, "detail": "node built at %s: %s" % (e[2], bad)})
                            break
            w = compare(ctx, val, spec, d, opts, run)
            if w:
                run.violations.append({"where": where, "rule": "result denotes %s of its operands at every assignment" % d.name,
                                       "case": facts, "detail": "returns %s; at %s" % (tstr(val), w)})
                continue
            if patterns is None and not consts:
                for e in ctx.events:
                    if e[0] == "memoput":
                        run.puts.append((e, ctx))
                        record_put(world, run, d, ctx, e, opts, where)
        except Undecided as u:
            run.undecided.append((facts, str(u)))
    return run


def record_put(world, run, d, ctx, e, opts, where):
    _, name, key, raw, site, facts = e
    if any(k is None for k in key):
        raise Undecided("memo key at %s" % site)
    spec = ("op", d.name) + tuple(root_args(d))
    val = ctx.canon(raw) if isinstance(raw, tuple) else raw
    mean = None
    try:
        w = compare(ctx, val, spec, d, opts, run)
        if w is None:
            mean = spec
    except Undecided:
        w = "?"
    if mean is None and isinstance(raw, tuple) and raw[0] == "op":
        mean = raw
    if mean is None:
        run.violations.append({"where": where, "rule": "stored memo value is the operation's result", "case": "; ".join(facts),
                               "detail": "%s stores %s under %s: at %s" % (site, tstr(val), tuple(tstr(k) for k in key), w)})
        return
    p = (name, tuple(key), mean, d.name, "%s" % where)
    pats = world.memo_patterns.setdefault("all", [])
    if p not in pats:
        pats.append(p)


# ---------------------------------------------------------------------------
# recursive private helpers: find the contract they satisfy
def callgraph(prog):
    if getattr(prog, "_cg", None) is None:
        cg = {}
        for k, b in prog.bodies.items():
            if b.kind != "body":
                continue
            out = set()
            scan(b.blocks, out)
            cg[k] = out
        prog._cg = cg
    return prog._cg


def scan(x, out):
    if isinstance(x, dict):
        if "resolved" in x and "fn" in x:
            out.add(x["resolved"] or x["fn"])
        for v in x.values():
            scan(v, out)
    elif isinstance(x, (list, tuple)):
        if len(x) >= 2 and x[0] == "closure" and isinstance(x[1], str):
            out.add(x[1])
        for v in x:
            scan(v, out)


def recursive(prog, key, cut):
    """Can `key` reach itself without going through the functions in cut?"""
    memo = prog.__dict__.setdefault("_rec", {})
    mk = (key, cut)
    if mk in memo:
        return memo[mk]
    cg = callgraph(prog)
    seen, work = set(), [key]
    r = False
    while work and not r:
        for y in cg.get(work.pop(), ()):
            if y == key:
                r = True
                break
            if y in cut or y not in cg or y in seen:
                continue
            seen.add(y)
            work.append(y)
    memo[mk] = r
    return r


def helper_hooks(world, it, body, d, roots):
    cut = frozenset(k for k in it.hooks)
    active = it.ctx.data.setdefault("helper_active", None)

    def run_call(b, args):
        if not recursive(world.prog, b.key, cut):
            return it.run(b, args)
        shape = call_shape(world, it, args)
        if shape is None:
            if any(fr.body is b for fr in it.stack):
                raise Undecided("recursive helper %s without a contract" % b.key)
            return it.run(b, args)
        inv, nodes = shape
        c = contract_of(world, b, inv, nodes, d, args, it)
        if c is None:
            if any(fr.body is b for fr in it.stack):
                raise Undecided("recursive helper %s without a contract" % b.key)
            return it.run(b, args)
        name, perm = c
        ts = tuple(nodes[j][1] for j in perm)
        it.ctx.event("call", name, ts, it.where())
        r = it.ctx.canon(("op", name) + ts)
        return r if isinstance(r, int) else S(r, "node")
    it.run_call = run_call


def call_shape(world, it, args):
    inv, nodes = [], []
    for i, a in enumerate(args):
        v = it.load(a) if isinstance(a, Ref) else a
        if isinstance(v, Agg) and v.tag and v.tag[0] == "mgr" or (isinstance(v, Agg) and str(v.adt).endswith("Manager")):
            inv.append("self")
        elif isinstance(v, S) and v.sort == "node":
            nodes.append((i, it.ctx.canon(v.t)))
            inv.append("node")
        elif isinstance(v, int) and not isinstance(v, bool) and not isinstance(a, Ref):
            nodes.append((i, v))
            inv.append("node")
        elif isinstance(v, Agg) and not v.fields:
            inv.append(("c", v.adt, v.variant))
        elif isinstance(v, (bool, str)):
            inv.append(("c", v))
        elif isinstance(v, FnItem):
            inv.append(("f", v.f["resolved"] or v.f["fn"]))
        elif isinstance(v, Clo) and not v.caps:
            inv.append(("f", v.key))
        else:
            return None
    return tuple(inv), nodes


def contract_of(world, b, inv, nodes, d, args, it):
    """(operation, permutation of node arguments) that helper b computes for these invariants."""
    tab = world.__dict__.setdefault("helpers", {})
    key = (b.key, inv)
    if key in tab:
        return tab[key]
    import itertools
    n = len(nodes)
    cands = [d] + [x for x in DEFS if x is not d and x.owner == d.owner and x.name in world.bodies]
    vals = list(args)
    for c in cands:
        if len(c.args) != n:
            continue
        for perm in itertools.permutations(range(n)):
            def mkargs(it2, m, roots, perm=perm):
                out = []
                for i, a in enumerate(vals):
                    if inv[i] == "self":
                        out.append(Ref(Cell(m)))
                    elif inv[i] == "node":
                        pos = [j for j, (p, _) in enumerate(nodes) if p == i][0]
                        out.append(roots[perm.index(pos)])
                    else:
                        out.append(copyv(a))
                return out
            tab[key] = (c.name, perm)
            try:
                sub = verify(world, c, body=b, mkargs=mkargs, limit=2000)
            except RecursionError:
                sub = None
            if sub is not None and not sub.violations and not sub.undecided and sub.partitions:
                return tab[key]
            del tab[key]
            if n > 2:
                break
    tab[key] = None
    return None
