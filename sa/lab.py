"""Analyses over diagrams: abstract interpretation of recursive (or iterative) traversals.

The header table is a small concrete one (labels, levels, ranges); the diagram itself is
arbitrary - nodes are opaque and their kind/variable is decided only where the code looks.
Recursive traversal functions are replaced by their contracts and verified one step at a time
(structural induction over the diagram; their memo tables may hold any entry the function
itself could have stored).  Traversals without a recognised recursion are followed to the
bottom of the small variable order instead (k-limited)."""
from fractions import Fraction
from .core import *
from . import sem
from .std import ListIt, It, STOP, clone
from .forest import mkinterp, Missing
from .ops import recursive, scan, callgraph
from .report import norm


class Done(Exception):
    def __init__(self, v):
        self.v = v


# headers: id -> (level, label, range)
H2 = [(1, "b", 2), (0, "a", 2)]
H3 = [(1, "b", 2), (0, "a", 2), (2, "c", 2)]
H4 = [(1, "b", 2), (3, "d", 2), (0, "a", 2), (2, "c", 2)]
M1 = [(0, "a", 3)]
M22 = [(1, "b", 2), (0, "a", 2)]
M2 = [(1, "b", 2), (0, "a", 3)]
M4 = [(0, "a", 4)]
M24 = [(1, "b", 4), (0, "a", 2)]
M3 = [(1, "b", 3), (0, "a", 2), (2, "c", 3)]
M3S = [(1, "b", 2), (0, "a", 3), (2, "c", 2)]


class Lab:
    """Set-up of one partition: managers, headers, hooks."""

    def __init__(self, world, headers, exclude=None, dsthdr=1, seqeq=True):
        self.w = world
        self.prog = world.prog
        self.H = headers
        self.exclude = exclude or {}
        self.bylabel = {lab: h for h, (_, lab, _) in enumerate(headers)}

    def level(self, h):
        return self.H[h % len(self.H)][0]

    def label(self, h):
        return self.H[h % len(self.H)][1]

    def range(self, h):
        return self.H[h % len(self.H)][2]

    shifted = ()        # forests whose header table has other ids for the same variables

    def ids(self, f):
        n = len(self.H)
        return range(n, 2 * n) if f.name in self.shifted else range(n)

    # ---- per-partition installation
    def install(self, ctx):
        self.w.setup(ctx, self.exclude)
        ctx.data["kindhook"] = self.kindhook
        ctx.data["arityof"] = self.arityof
        ctx.data["lab"] = self
        ctx.data["eqhook"] = self.same_ok
        for h, (lv, _, _) in enumerate(self.H + (self.H if self.shifted else [])):
            ctx.rep[("level", h)] = lv

    def interp(self, ctx, hooks=None):
        self.install(ctx)
        hk = dict(self.w.hooks())
        for fn, f in self.w.forests.items():
            for m, r in (("live_node_count", lambda it, a, fr: 0), ("gc", gc_event)):
                b = self.prog.find(f.crate, f.mgr, m)
                if b is not None:
                    hk[b.key] = r
        for m, r in (("live_node_count", lambda it, a, fr: 0), ("gc", gc_event)):
            b = self.prog.find("mddcore", "MtMdd2Manager", m)
            if b is not None:
                hk[b.key] = r
        b = self.prog.find("common", "ComputeCache", "len")
        if b is not None:
            hk[b.key] = lambda it, a, fr: S(("cachelen",), "int")
        hk.update(hooks or {})
        return mkinterp(self.prog, ctx, hk)

    def bound(self, ctx, t):
        """Levels available below: all kinds of diagram terms."""
        t = ctx.canon(t)
        if isinstance(t, int):
            return 0
        b = ctx.data.get("bounds", {}).get(t, len(self.H))
        if t[0] == "ch":
            h = ctx.canon(("hdr", t[1]))
            if isinstance(h, int):
                return min(b, self.level(h))
            return min(b, self.bound(ctx, t[1]))
        if t[0] == "ctr":
            return max([self.bound(ctx, x) for x in t[2:] if isinstance(x, tuple)] or [b])
        if t[0] == "op":
            bs = [0]
            for x in t[2:]:
                h = ctx.canon(("hdr", ctx.canon(x))) if ctx.kind_known(x) == "NonTerminal" else None
                bs.append(self.level(h) + 1 if isinstance(h, int) else self.bound(ctx, x))
            return max(bs)
        return b

    def same_ok(self, ctx, a, b):
        """Can two nodes be the same one?  None if their variables exclude it, else the level bound of the node."""
        nb = min(self.bound(ctx, x) if not isinstance(x, int) else len(self.H) for x in (a, b))
        for x in (a, b):
            if not isinstance(x, int):
                h = ctx.canon(("hdr", x))
                if isinstance(h, int) and self.level(h) >= nb:
                    return None
        return nb

    def kindhook(self, it, f, t):
        ctx = it.ctx
        if t[0] == "mk":
            return self.made(it, f, t)
        return self.decide(it, f, t)

    def made(self, it, f, t):
        """A node made by create_node: reduced away, or a node with the given children."""
        ctx = it.ctx
        kids = [ctx.canon(c) for c in t[3:]]
        h = ctx.canon(t[2])
        if not isinstance(h, int) or f.name not in ("bdd", "zdd", "mdd", "mtmdd"):
            return None
        if f.name == "zdd":
            gone = ctx.node_eq(kids[1], f.id_of("Zero"))
        else:
            gone = all(ctx.node_eq(c, kids[0]) for c in kids[1:])
        t = ctx.canon(t)
        if gone:
            k = ctx.canon(kids[0])
            if t != k:
                ctx.setrep(t, k)
            return f.kind(it, k)
        ctx.kinds[t] = "NonTerminal"
        if ctx.canon(("hdr", t)) != h:
            ctx.setrep(("hdr", t), h)
        for i, c in enumerate(kids):
            a, b = ctx.canon(("ch", t, i)), ctx.canon(c)
            if a != b:
                ctx.setrep(a, b)
        return "NonTerminal"

    def decide(self, it, f, t):
        ctx = it.ctx
        allowed = f.allowed(ctx, t)
        st = f.static()
        opts = []
        for k in f.kinds:
            if k not in allowed:
                continue
            if k == "NonTerminal":
                bd = self.bound(ctx, t)
                opts += [("NT", h) for h in self.ids(f) if self.level(h) < bd]
            else:
                if k in st and k != "Terminal" and ((t, st.index(k)) in ctx.neq or (st.index(k), t) in ctx.neq):
                    continue
                opts.append(k)
        hk = ctx.canon(("hdr", t))
        if isinstance(hk, int):
            opts = [o for o in opts if o == ("NT", hk)]
        if not opts:
            raise Infeasible()
        o = opts[ctx.choose(len(opts))]
        if isinstance(o, tuple):
            h = o[1]
            ctx.fact("%s is a node of %s" % (tstr(t), self.label(h)))
            ctx.kinds[t] = "NonTerminal"
            if ctx.canon(("hdr", t)) != h:
                ctx.setrep(("hdr", t), h)
            if f.name == "bdd":
                a, b = ctx.canon(("ch", t, 0)), ctx.canon(("ch", t, 1))
                if a == b:
                    raise Infeasible()
                ctx.neq.add((a, b))
            if f.name == "zdd":
                b = ctx.canon(("ch", t, 1))
                z = f.id_of("Zero")
                if b == z:
                    raise Infeasible()
                ctx.neq.add((b, z))
            return "NonTerminal"
        ctx.fact("%s is %s" % (tstr(t), o))
        ctx.kinds[t] = o
        if o in st and o != "Terminal":
            if t[0] in ("op", "ctr"):
                ctx.eqfacts.append((t, st.index(o)))
            ctx.setrep(t, st.index(o))
        return o

    def arityof(self, it, f, t):
        if f.crate == "bddcore":
            return 2
        h = it.ctx.canon(("hdr", t))
        return self.range(h) if isinstance(h, int) else 2

    # ---- managers
    def headers_seq(self, it, f):
        b = self.w.need("common", "NodeHeader", "new")
        out = []
        H = self.H
        if f.name in self.shifted:
            H = [(1000 + i, "unused%d" % i, 2) for i in range(len(H))] + H
        for h, (lv, lab, rg) in enumerate(H):
            out.append(it.run(b, [h, lv, lab, 2 if f.crate == "bddcore" else rg]))
        self.seqs = getattr(self, "seqs", {})
        self.seqs[f.name] = Seq(out)
        return self.seqs[f.name]

    def dst(self, it, forest, h):
        """(level, label, range) recorded under header h of another manager."""
        seq = self.seqs.get(forest)
        if seq is None or not isinstance(h, int) or h >= len(seq.items):
            raise Undecided("header %s of the %s manager" % (h, forest))
        v = it.force(seq.items[h])
        b = self.w.need("common", "NodeHeader", "level"), self.w.need("common", "NodeHeader", "label"), self.w.need("common", "NodeHeader", "edge_num")
        return tuple(it.load(it.run(x, [Ref(Cell(v))])) for x in b)

    def dstid(self, it, forest, h):
        """The header of the other manager that stands for variable h."""
        return h + len(self.H)

    def manager(self, it, crate, adt, new="new"):
        """A wrapper manager (BddMgr, MssMgr, ...) whose inner forests are arbitrary."""
        b = self.w.need(crate, adt, new)
        m = it.run(b, [])
        self.w.symbolise(it, m, "lab")
        self.fix_headers(it, m)
        return m

    def fix_headers(self, it, v, depth=0):
        from .forest import SymHeaders
        if depth > 12:
            return
        if isinstance(v, Agg):
            for f in self.w.forests.values():
                if v.adt == f.adt:
                    for i, x in enumerate(v.fields):
                        if isinstance(x, SymHeaders):
                            v.fields[i] = self.headers_seq(it, f)
                    return
            for x in v.fields:
                self.fix_headers(it, x, depth + 1)
        elif isinstance(v, (RcV, BoxV, RefCellV)):
            self.fix_headers(it, v.cell.v, depth + 1)

    def handle(self, it, mgr, crate, adt, maker, args, term, var=None):
        """A node handle for `term`: built by the code's own constructor, then pointed at term."""
        b = self.w.need(crate, adt, maker)
        h = it.force(it.run(b, [Ref(Cell(mgr))] + args))
        return self.repoint(it, h, term)

    def repoint(self, it, h, term):
        def setn(v, i):
            x = v.fields[i]
            if isinstance(x, Agg) and str(x.adt).endswith("mtmdd2::Node") or (isinstance(x, Agg) and len(x.fields) == 1 and self.is_node(x.fields[0])):
                x.fields[0] = S(term, "node")
                return True
            if self.is_node(x):
                v.fields[i] = S(term, "node") if not isinstance(term, int) else term
                return True
            return False
        done = False
        for i in range(len(h.fields)):
            if not done and setn(h, i):
                done = True
        if not done:
            raise Undecided("no node field in %s" % h.adt)
        return h

    def is_node(self, x):
        return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, S) and x.sort == "node")


def gc_event(it, args, fr):
    it.ctx.event("gc", it.where())
    return 0


def node_of_handle(it, h, tag=False):
    """The node term a handle points at."""
    h = it.force(it.load(h))
    for x in h.fields:
        if isinstance(x, S) and x.sort == "node":
            return it.ctx.canon(x.t)
        if isinstance(x, int) and not isinstance(x, bool):
            return x
        if isinstance(x, Agg) and len(x.fields) == 1:
            y = x.fields[0]
            t = it.ctx.canon(y.t) if isinstance(y, S) else y
            return (x.variant, t) if tag else t
    raise Undecided("handle without a node")


# ---------------------------------------------------------------------------
# numbers
def poly(t, ctx, expand=None, depth=0):
    """Polynomial normal form {monomial: coefficient} of a number term."""
    if depth > 200:
        raise Undecided("deep number term")
    if isinstance(t, S):
        t = t.t
    if isinstance(t, tuple):
        t = ctx.canon(t)
    if isinstance(t, bool):
        raise Undecided("boolean number")
    if isinstance(t, (int, Fraction)):
        return {(): Fraction(t)} if t else {}
    h = t[0]
    if h in ("add", "sub"):
        a, b = poly(t[1], ctx, expand, depth + 1), poly(t[2], ctx, expand, depth + 1)
        return padd(a, b, 1 if h == "add" else -1)
    if h == "mul":
        return pmul(poly(t[1], ctx, expand, depth + 1), poly(t[2], ctx, expand, depth + 1))
    if h == "lin":
        return padd(poly(t[1], ctx, expand, depth + 1), {(): Fraction(t[2])} if t[2] else {}, 1)
    if expand is not None:
        e = expand(t)
        if e is not None and e != t:
            return poly(e, ctx, expand, depth + 1)
    return {(t,): Fraction(1)}


def padd(a, b, k):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=repr):
        s = "*".join(tstr(x) for x in m)
        out.append(("%s*%s" % (c, s) if c != 1 else s) if m else str(c))
    return " + ".join(out)


def add(*xs):
    t = 0
    for x in xs:
        t = ("add", t, x)
    return t


def numdiff(ctx, got, want, expand):
    """None if equal as polynomials; else a description."""
    a, b = poly(got, ctx, expand), poly(want, ctx, expand)
    if a == b:
        return None
    if any(s in ("num",) and r == "=" for s, _, r, _ in ctx.relfacts):
        raise Undecided("number equality used on this path")
    return "%s instead of %s" % (pstr(a), pstr(b))


# ---------------------------------------------------------------------------
class RecSpec:
    """Contract of a recursive traversal."""

    def __init__(self, name, argf, ret, result, check, excl=None, levels=None, accept=None, dst=None, prepare=None):
        self.name = name
        self.argf = argf          # forests of the node arguments
        self.ret = ret            # predicate on the MIR return type
        self.result = result      # (lab, it, nodes) -> abstract value
        self.check = check        # (lab, it, ctx, nodes, value) -> None | witness
        self.excl = excl or {}
        self.accept = accept      # (it, args) -> bool
        self.dst = dst            # forest the traversal builds into
        self.prepare = prepare    # (ctx, roots): assumptions on the operands


def is_nodety(ty):
    return ty[0] == "int" and ty[1] in ("usize", "u32")


def is_optnode(ty):
    return ty[0] == "adt" and ty[1] == OPT and is_nodety(ty[2][0])


def is_num(ty):
    return ty[0] in ("param", "float") or (ty[0] == "int" and ty[1] in ("u64", "u128"))


class LocalMemo:
    def __init__(self, run, name):
        self.run, self.name = run, name

    def keyterms(self, it, key):
        k = it.force(it.load(key))
        if isinstance(k, Agg) and k.adt == "tuple":
            out = []
            for x in k.fields:
                out += self.keyterms(it, x)
            return out
        if isinstance(k, S):
            return [k.t]
        if isinstance(k, (int, bool, str)):
            return [k]
        if isinstance(k, Agg):
            return [("agg", k.variant)] + [y for x in k.fields for y in self.keyterms(it, x)]
        raise Undecided("memo key %r" % (k,))

    def lookup(self, it, m, key):
        run = self.run
        ks = self.keyterms(it, key)
        cands = [p for p in run.patterns if p[0] == self.name and len(p[1]) == len(ks)] if run.hits else []
        i = it.ctx.choose(len(cands) + 1)
        if i == 0:
            return None
        _, pk, spec, roots, where = cands[i - 1]
        if spec == "header":
            if not isinstance(ks[0], int):
                raise Infeasible()
            return [key, None, Cell(run.lab.dstid(it, roots, ks[0]))]
        sub = {}
        for a, b in zip(pk, ks):
            b = it.ctx.canon(b) if isinstance(b, tuple) else b
            if isinstance(a, tuple) and a and a[0] == "n":
                if a in sub:
                    if sub[a] != b and not it.ctx.node_eq(sub[a], b):
                        raise Infeasible()
                else:
                    sub[a] = b
            elif isinstance(a, tuple):
                # a derived term in the key: it does not pin its operands
                continue
            elif isinstance(b, tuple):
                if not it.ctx.node_eq(b, a):
                    raise Infeasible()
            elif a != b:
                raise Infeasible()
        nodes = []
        for r in roots:
            if r in sub:
                nodes.append(sub[r])
            else:
                it.ctx.fresh_n += 1
                nodes.append(("n", "%s'%d" % (r[1], it.ctx.fresh_n), r[2]))
        it.ctx.fact("memo hit on %s" % (tuple(tstr(it.ctx.canon(k) if isinstance(k, tuple) else k) for k in ks),))
        v = spec.result(run.lab, it, nodes)
        return [key, None, Cell(v)]

    def on_insert(self, it, m, key, val):
        ks = self.keyterms(it, key)
        v = it.load(val)
        d = self.run.specs[self.run.known[self.name[1]]].dst
        if d and len(ks) == 1 and isinstance(ks[0], int) and isinstance(v, int):
            it.ctx.event("hdrput", self.name, ks[0], v, d, it.where())
            return
        it.ctx.event("lmput", self.name, tuple(self.keyterms(it, key)), copyv(val) if not isinstance(val, Ref) else it.load(val), it.where())


class LabRun:
    """Verify an entry point and, by induction, every recursive traversal it uses."""

    def __init__(self, g, mklab, entry, check, specs, body, limit=4000, prefer=None, hooks=None):
        self.g = g
        self.mklab = mklab
        self.entry = entry          # (lab, it) -> value
        self.check = check          # (lab, it, ctx, value) -> None | witness
        self.specs = specs
        self.body = body
        self.limit = limit
        self.queue = []             # (body key, chain)
        self.known = {}             # body key -> spec index
        self.nodepos = {}
        self.hits = False
        self.patterns = []
        self.hooks = hooks or {}

    # -- matching
    def positions(self, it, b, args):
        if b.key in self.nodepos:
            return self.nodepos[b.key]
        pos = [i for i, a in enumerate(args) if isinstance(a, S) and a.sort == "node"
               or (isinstance(a, Ref) and isinstance(it.load(a), S) and it.load(a).sort == "node")]
        return pos

    def match(self, it, b, args):
        pos = self.positions(it, b, args)
        if not pos:
            return None
        nodes = []
        for i in pos:
            v = it.load(args[i])
            if isinstance(v, S) and v.sort == "node":
                nodes.append(it.ctx.canon(v.t))
            elif isinstance(v, int) and not isinstance(v, bool):
                nodes.append(v)
            else:
                return None
        # other scalars make the call parametric: not covered by these contracts
        for i, a in enumerate(args):
            if i in pos:
                continue
            v = it.load(a) if isinstance(a, (Ref, BoxV)) else a
            if isinstance(v, bool) and b.locals[i + 1][0] == "bool":
                continue
            if isinstance(v, (int, S)) and not isinstance(v, bool):
                return None
            if isinstance(v, Agg) and v.adt == OPT:
                return None
        idx = self.known.get(b.key)
        cands = [self.specs[idx]] if idx is not None else self.specs
        for s in cands:
            if len(s.argf) != len(nodes) or not s.ret(b.locals[0]):
                continue
            if s.accept is not None and not s.accept(it, args):
                continue
            if all(isinstance(n, int) or it.ctx.forest_name(n) in (None, f) for n, f in zip(nodes, s.argf)):
                self.nodepos[b.key] = pos
                return s, nodes
        return None

    def hook_calls(self, lab, it, chain, target):
        cut = frozenset(it.hooks)
        prog = lab.prog
        st = {"entered": False}

        def run_call(b, args):
            if not recursive(prog, b.key, cut):
                return it.run(b, args)
            m = self.match(it, b, args)
            if m is None:
                return it.run(b, args)
            spec, nodes = m
            onstack = any(fr.body is b for fr in it.stack)
            if target is not None and not st["entered"]:
                if b.key == target and not onstack:
                    st["entered"] = True
                    return self.enter(lab, it, b, args, spec)
                if b.key in chain and not onstack:
                    return it.run(b, args)
            ch = tuple(fr.body.key for fr in it.stack if fr.body.key in self.nodepos and fr.body.key != b.key)
            if b.key not in self.known:
                self.known[b.key] = self.specs.index(spec)
                self.queue.append((b.key, ch))
            it.ctx.event("reccall", b.key, spec.name, tuple(nodes), it.where())
            return spec.result(lab, it, nodes)
        it.run_call = run_call

    def enter(self, lab, it, b, args, spec):
        """Verify b itself, for arbitrary operands and an arbitrary consistent memo."""
        ctx = it.ctx
        pos = self.nodepos[b.key]
        names = ["t", "u", "v"]
        roots = []
        args = list(args)
        # forget what the path to the call established about the diagram
        ctx.kinds, ctx.neq, ctx.eqfacts, ctx.nefacts, ctx.relfacts, ctx.events = {}, set(), [], [], [], []
        ctx.rep = {k: v for k, v in ctx.rep.items() if k[0] == "level"}
        ctx.facts = []
        ctx.boolfacts = {}
        for i, p in enumerate(pos):
            t = ("n", names[i], spec.argf[i])
            roots.append(t)
            v = S(t, "node")
            args[p] = Ref(Cell(v)) if isinstance(args[p], Ref) else v
        for i, a in enumerate(args):
            ty = b.locals[i + 1]
            if isinstance(a, Ref) and ty[0] == "ref" and ty[2]:
                v = it.load(a)
                if isinstance(v, MapV) and not v.isset and v.sym is None:
                    if id(v) in ctx.data.get("owned", ()):
                        raise Undecided("memo table kept in the manager")
                    v.ents = []
                    v.name = ("local", b.key, i)
                    v.sym = LocalMemo(self, v.name)
        ctx.data["enter"] = (b, spec, roots)
        ctx.data["bounds"] = {}
        if spec.prepare:
            spec.prepare(ctx, roots)
        v = it.run(b, args)
        raise Done(v)

    # -- running
    def go(self):
        g = self.g
        self.phase(None, ())
        done = set()
        while self.queue:
            key, chain = self.queue.pop(0)
            if key in done:
                continue
            done.add(key)
            self.phase(key, chain)
        return g

    def phase(self, key, chain):
        prog = self.g_prog()
        for hits in (False, True):
            self.hits = hits
            if hits and (key is None or not any(p[0][1] == key for p in self.patterns)):
                continue
            self.explore(key, chain)

    def g_prog(self):
        return None

    def explore(self, key, chain):
        g = self.g
        box = {}

        def one(ctx):
            lab = self.lab = self.mklab()
            it = lab.interp(ctx, self.hooks)
            box["lab"], box["it"] = lab, it
            self.hook_calls(lab, it, chain, key)
            try:
                v = self.entry(lab, it)
            except Done as d:
                return d.v
            if key is not None:
                raise Infeasible()
            return v
        n = 0
        where0 = self.body.where() if self.body else "entry"
        for ctx, out, val in explore(one, self.limit):
            lab, it = box["lab"], box["it"]
            it.ctx = ctx
            n += 1
            g.partitions += 1
            ent = ctx.data.get("enter")
            where = ent[0].where() if ent else where0
            g.functions.add(where)
            facts = "; ".join(ctx.facts) or "all operands"
            try:
                if out in ("undecided", "cut"):
                    g.unsure(where, facts, val)
                    continue
                if out == "panic":
                    w = "panic: %s" % val
                    if not self.plausible(lab, it, ctx, ent):
                        continue
                    g.bad(where, self.rule(ent), facts, w)
                    continue
                if ent is None:
                    w = self.check(lab, it, ctx, val)
                else:
                    b, spec, roots = ent
                    for e in ctx.events:
                        if e[0] == "reccall" and e[1] == b.key and not self.smaller(ctx, e[3], roots):
                            raise Undecided("recursive call on operands not known to be smaller: %s" % (e[3],))
                    w = spec.check(lab, it, ctx, roots, val)
                    if w is None:
                        for e in ctx.events:
                            if e[0] == "hdrput":
                                _, nm, h, d, forest, site = e
                                if lab.dst(it, forest, d) != lab.H[h][:2] + (2 if forest == "zdd" else lab.range(h),):
                                    w = "variable %s copied as %s" % (lab.H[h], lab.dst(it, forest, d))
                                    break
                                p = (nm, (0,), "header", forest, b.where())
                                if not self.hits and p not in self.patterns:
                                    self.patterns.append(p)
                            if e[0] != "lmput":
                                continue
                            w2 = spec.check(lab, it, ctx, roots, e[3])
                            if w2 is not None:
                                w = "memo entry stored at %s: %s" % (norm(e[4]), w2)
                                break
                            p = (e[1], e[2], spec, tuple(roots), b.where())
                            if not self.hits and not any(q[0] == p[0] and q[1] == p[1] for q in self.patterns):
                                self.patterns.append(p)
                if w is None:
                    g.ok()
                    if n <= 2:
                        g.sample("%s: %s" % (where, facts))
                else:
                    g.bad(where, self.rule(ent), facts, w)
            except Undecided as u:
                g.unsure(where, facts, str(u))
            except Infeasible:
                pass

    def rule(self, ent):
        return self.rules if ent is None else "one step of %s" % ent[1].name

    rules = "result is the specified value"

    def plausible(self, lab, it, ctx, ent):
        return True

    def smaller(self, ctx, args, roots):
        from .ops import smaller
        return smaller(ctx, args, roots)


# ---------------------------------------------------------------------------
def mkmap(ents):
    m = MapV(False)
    m.name = ("input",)
    m.ents = [[k, None, Cell(v)] for k, v in ents]
    return m


def slicev(items):
    return Ref(Cell(Seq(items, "slice")))


class SetSym:
    """A set with unknown members."""

    def __init__(self, name):
        self.name = name

    def lookup(self, it, m, key):
        v = it.load(key)
        t = it.term(v)
        if it.ctx.bool_atom(("in", self.name, t), "%s in %s" % (tstr(t), self.name)):
            return [key, None, Cell(UNIT)]
        return None


def symset(name):
    m = MapV(True)
    m.name = ("set", name)
    m.sym = SetSym(name)
    return m
