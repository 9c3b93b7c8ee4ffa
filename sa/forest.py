"""Abstract forests: the node table, header table, unique/value tables and computed tables of
a manager, as opaque containers of which only what the analysed code tests becomes known."""
from .core import *
from .core import OPT
from .std import DomIt, table_domain, Natives, ListIt, SymArr, STOP, It, truth, clone
from .interp import Interp, Frame

SPECS = {
    # name: crate, manager, node enum, non-terminal payload, kinds by variant name
    "bdd": ("bddcore", "BddManager", "Node", "NonTerminalBDD"),
    "zdd": ("bddcore", "ZddManager", "Node", "NonTerminalBDD"),
    "mdd": ("mddcore", "MddManager", "Node", "NonTerminalMDD"),
    "mtmdd": ("mddcore", "MtMddManager", "Node", "NonTerminalMDD"),
    "zmdd": ("mddcore", "ZmddManager", "Node", "NonTerminalMDD"),
}


class Missing(Exception):
    """A public anchor of the property disappeared from the workspace."""

    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class Forest:
    def __init__(self, prog, name):
        self.prog = prog
        self.name = name
        self.crate, self.mgr, self.nodeenum, self.ntname = SPECS[name]
        adt = prog.adt_by_name(self.crate, self.mgr)
        if adt is None:
            raise Missing("type %s::%s" % (self.crate, self.mgr))
        self.adt = adt["key"]
        self.fields = adt["variants"][0]["fields"]
        self.params = adt["params"]
        # node enum = element type of the Vec field whose element enum has a NonTerminal variant
        self.node_adt = None
        for fn, ty, _ in self.fields:
            if ty[0] == "adt" and ty[1].endswith("::Vec"):
                e = ty[2][0]
                if e[0] == "adt" and e[1] in prog.adts:
                    vs = prog.adts[e[1]]["variants"]
                    if any(v["name"] == "NonTerminal" for v in vs):
                        self.node_adt = e[1]
        if self.node_adt is None:
            raise Missing("node table of %s::%s" % (self.crate, self.mgr))
        vs = prog.adts[self.node_adt]["variants"]
        self.variants = {v["name"]: i for i, v in enumerate(vs)}
        self.vfields = {v["name"]: v["fields"] for v in vs}
        self.kinds = [v["name"] for v in vs]
        self._static = None
        self.exclude = set()

    def new_manager(self, it):
        b = self.prog.find(self.crate, self.mgr, "new")
        if b is None:
            raise Missing("%s::%s::new" % (self.crate, self.mgr))
        return it.run(b, [])

    def static(self):
        """Node kinds of the ids that exist in a fresh manager."""
        if self._static is None:
            it = mkinterp(self.prog, Ctx([]))
            m = it.force(self.new_manager(it))
            tab = [v for v in m.fields if isinstance(v, Seq) and v.items and isinstance(v.items[0], Agg) and v.items[0].adt == self.node_adt]
            if not tab:
                raise Undecided("initial node table of %s" % self.mgr)
            self._static = [self.kinds[x.variant] for x in tab[0].items]
            self.consts = {}
            for i, (fn, ty, _) in enumerate(self.fields):
                if isinstance(m.fields[i], int) and not isinstance(m.fields[i], bool):
                    self.consts[fn] = m.fields[i]
        return self._static

    def static_kind(self, i):
        st = self.static()
        return st[i] if 0 <= i < len(st) else None

    def id_of(self, kind):
        st = self.static()
        return st.index(kind) if kind in st else None

    def allowed(self, ctx, t):
        out = ctx.data.get("allowed", {}).get((self.name, t))
        if out is not None:
            return out
        k = ctx.kinds.get(t)
        if k:
            return {k}
        h = ctx.data.get("allowhook")
        if h is not None:
            out = h(ctx, self, t)
            if out is not None:
                return out
        return set(self.kinds) - ctx.data.get("exclude", {}).get(self.name, set())

    # ---- node values --------------------------------------------------
    def kind(self, it, t):
        """Kind of the node t, deciding it if unknown."""
        ctx = it.ctx
        t = ctx.canon(t)
        if isinstance(t, int):
            k = self.static_kind(t)
            if k is None:
                raise PanicPath("node id %d does not exist" % t)
            return k
        k = ctx.kind_known(t, self)
        if k:
            return k
        h = ctx.data.get("kindhook")
        if h is not None:
            k = h(it, self, t)
            if k:
                return k
        return self.decide(it, t, [x for x in self.kinds if x in self.allowed(ctx, t)])

    def decide(self, it, t, opts):
        ctx = it.ctx
        st = self.static()
        opts = [k for k in opts if not (k in st and k not in ("NonTerminal", "Terminal") and ((t, st.index(k)) in ctx.neq or (st.index(k), t) in ctx.neq))]
        if not opts:
            raise Infeasible()
        k = opts[ctx.choose(len(opts))]
        if len(opts) > 1:
            ctx.fact("%s is %s" % (tstr(t), k))
        ctx.kinds[t] = k
        if k in st and k not in ("NonTerminal", "Terminal"):
            if t[0] in ("op", "mk", "rec"):
                ctx.eqfacts.append((t, st.index(k)))
            ctx.setrep(t, st.index(k))
        elif k == "NonTerminal":
            self.on_nonterminal(it, t)
        elif k == "Terminal":
            ctx.distinct_values(t)
        return k

    def on_nonterminal(self, it, t):
        ctx = it.ctx
        o = ctx.order("level")
        lv = ctx.canon(("level", ("hdr", t)))
        if t[0] == "ch":
            p = ctx.canon(("level", ("hdr", t[1])))
            if "<" not in o.possible(lv, p):
                raise Infeasible()
            ctx.order("level").add(lv, "<", p)
        if t[0] == "op":
            pass

    def node(self, it, t):
        """The table entry of node t."""
        ctx = it.ctx
        t = ctx.canon(t)
        if isinstance(t, tuple) and t and t[0] in ("fresh", "len", "lin"):
            raise Undecided("node table read at %s" % tstr(t))
        own = ctx.forest_name(t)
        if own is not None and own != self.name and own in SPECS:
            raise PanicPath("node %s of the %s forest is looked up in the %s forest" % (tstr(t), own, self.name))
        k = self.kind(it, t)
        t = ctx.canon(t)
        v = self.variants[k]
        key = ("node", self.name, t)
        if key in ctx.expanded:
            return ctx.expanded[key]
        if k == "NonTerminal":
            payload = self.nonterminal(it, t)
            r = Agg(self.node_adt, v, [payload])
        elif k == "Terminal":
            fty = self.vfields[k][0][1]
            tn = fty[1].split("::")[-1]
            b = self.prog.find(self.crate, tn, "new")
            if b is None:
                raise Missing("%s::%s::new" % (self.crate, tn))
            val = ctx.tval(t)
            r = Agg(self.node_adt, v, [it.run(b, [S(t, "node"), val if isinstance(val, int) else S(val, "val")])])
        else:
            r = Agg(self.node_adt, v, [])
        ctx.expanded[key] = r
        return r

    def arity(self, ctx):
        return 2 if self.crate == "bddcore" else ctx.data.get("arity", 2)

    def child(self, it, t, i):
        ctx = it.ctx
        c = ctx.canon(("ch", t, i))
        return c if isinstance(c, int) else S(c, "node")

    def nonterminal(self, it, t):
        ctx = it.ctx
        b = self.prog.find(self.crate, self.ntname, "new")
        if b is None:
            raise Missing("%s::%s::new" % (self.crate, self.ntname))
        ao = ctx.data.get("arityof")
        n = ao(it, self, t) if ao else self.arity(ctx)
        kids = [self.child(it, t, i) for i in range(n)]
        hdr = ctx.canon(("hdr", t))
        h = hdr if isinstance(hdr, int) else S(hdr, "hdr")
        ak = b.locals[3]
        arr = Seq(kids, "array")
        if ak[0] == "ref":
            arr = Ref(Cell(arr))
        idv = S(t, "node") if not isinstance(t, int) else t
        return it.run(b, [idv, h, arr])

    def header(self, it, h):
        ctx = it.ctx
        h = ctx.canon(h)
        key = ("header", self.name, h)
        if key in ctx.expanded:
            return ctx.expanded[key]
        hook = ctx.data.get("headerhook")
        r = hook(it, self, h) if hook else None
        if r is None:
            b = self.prog.find("common", "NodeHeader", "new")
            if b is None:
                raise Missing("common::NodeHeader::new")
            lv = ctx.canon(("level", h))
            r = it.run(b, [S(h, "hdr") if not isinstance(h, int) else h, S(lv, "level") if not isinstance(lv, int) else lv,
                           S(("label", h), "str"), self.arity(ctx)])
        ctx.expanded[key] = r
        return r

    # ---- managers -----------------------------------------------------
    def symbolic(self, it, tag=""):
        """A manager in an arbitrary reachable state."""
        m = self.new_manager(it)
        return self.symbolise(it, m, tag)

    def symbolise(self, it, m, tag=""):
        name = self.name + tag
        self.static()
        for i, (fn, ty, _) in enumerate(self.fields):
            if ty[0] != "adt":
                continue
            last = ty[1].split("::")[-1]
            if last == "Vec":
                e = ty[2][0]
                if e[0] == "adt" and e[1] == self.node_adt:
                    m.fields[i] = SymNodes(self, name)
                elif e[0] == "adt" and e[1].endswith("::NodeHeader"):
                    m.fields[i] = SymHeaders(self, name)
                else:
                    m.fields[i] = SymStack(("vec", name, fn), e)
            elif last in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
                mv = m.fields[i]
                mv.name = ("table", name, fn)
                mv.sym = TableSym(self, fn, ty)
            elif last == "ComputeCache":
                m.fields[i] = CacheV((name, fn))
        m.tag = ("mgr", name)
        return m


class SymNodes:
    def __init__(self, forest, name):
        self.forest, self.name = forest, name
        self.writes = []      # [index value, node value]
        self.pushed = 0

    def __repr__(self):
        return "nodes(%s)" % self.name

    def length(self, it):
        t = ("len", self.name, "nodes")
        return S(t if not self.pushed else ("lin", t, self.pushed), "int")

    def lookup_write(self, it, s):
        for e in reversed(self.writes):
            if it.compare_eq(e[0], s):
                return e
        return None

    def getitem(self, it, s):
        s = it.load(s)
        if self.writes:
            e = self.lookup_write(it, s)
            if e is not None:
                return e[1]
        t = s.t if isinstance(s, S) else s
        return self.forest.node(it, t)

    def setitem(self, it, s, v):
        it.ctx.event("slot", self.name, it.term(s), v, it.where())
        self.writes.append([s, v])

    def push(self, it, v):
        s = self.length(it)
        it.ctx.event("push", self.name, it.term(s), v, it.where())
        self.writes.append([s, v])
        self.pushed += 1

    def m_push(self, it, args):
        self.push(it, args[1])
        return UNIT

    def get_opt(self, it, r, ix):
        return some(Ref(r.cell, r.path + (it.load(ix),)))

    def iterate(self, it, r):
        d = table_domain(it, self.length(it))
        if d is None:
            raise Undecided("iteration over the node table at %s" % it.where())
        return DomIt(d, lambda p: Ref(r.cell, r.path + (p,)))


class SymHeaders:
    def __init__(self, forest, name):
        self.forest, self.name = forest, name
        self.writes = []
        self.pushed = 0

    def length(self, it):
        t = ("len", self.name, "headers")
        return S(t if not self.pushed else ("lin", t, self.pushed), "hdr")

    def getitem(self, it, s):
        s = it.load(s)
        for e in reversed(self.writes):
            if it.term(e[0]) == it.term(s):
                return e[1]
        t = s.t if isinstance(s, S) else s
        return self.forest.header(it, t)

    def setitem(self, it, s, v):
        raise Undecided("header overwritten at %s" % it.where())

    def m_push(self, it, args):
        s = self.length(it)
        it.ctx.event("newheader", self.name, it.term(s), args[1], it.where())
        self.writes.append([s, args[1]])
        self.pushed += 1
        return UNIT

    def get_opt(self, it, r, ix):
        return some(Ref(r.cell, r.path + (it.load(ix),)))

    def iterate(self, it, r):
        h = it.ctx.data.get("headers_iter")
        if h is not None:
            return h(it, self, r)
        raise Undecided("iteration over the header table at %s" % it.where())


class SymStack:
    """A Vec of plain words with unknown contents (free list): an unknown base, less what was popped, plus what was pushed."""

    def __init__(self, name, ety):
        self.name, self.ety = name, ety
        self.cleared = False
        self.drained = False        # nothing of the base is left
        self.pushes = []
        self.pops = 0

    def base(self, it):
        n = ("flen", self.name)
        o = it.ctx.order("int")
        o._touch(0)
        o._touch(n)
        o.le[0].setdefault(n, False)
        return n

    def length(self, it):
        k = len(self.pushes)
        if self.cleared or self.drained:
            return k
        n = self.base(it)
        k -= self.pops
        return S(("lin", n, k) if k else n, "int")

    def any(self, it):
        """Whether something is left of the base."""
        if self.cleared or self.drained:
            return False
        if self.pops >= 4:
            raise Undecided("loop over %s at %s" % (self.name[-1], it.where()))
        n = self.base(it)
        r = it.lin_rel((None, self.pops), (n, 0), "lt", "int")
        it.ctx.fact("%s %s" % (self.name[-1], "has a slot" if r else "is empty"))
        self.drained = not r
        if not r:
            it.ctx.rel("int", n, "=", self.pops)
            it.ctx.setrep(n, self.pops)
        return r

    def top(self):
        return ("slot", self.name, self.pops + 1)

    def m_pop(self, it, args):
        if self.pushes:
            return some(self.pushes.pop())
        if not self.any(it):
            return none()
        t = self.top()
        self.pops += 1
        it.ctx.event("popfree", self.name, t, it.where())
        return some(S(t, "node"))

    def m_last(self, it, args):
        if self.pushes:
            return some(Ref(Cell(self.pushes[-1])))
        return some(Ref(Cell(S(self.top(), "node")))) if self.any(it) else none()

    def bottom(self, it):
        if it.lin_rel((("flen", self.name), 0), (None, self.pops + 1), "eq", "int"):
            return self.top()
        return ("slot", self.name, "first")

    def m_first(self, it, args):
        if self.any(it):
            return some(Ref(Cell(S(self.bottom(it), "node"))))
        return some(Ref(Cell(self.pushes[0]))) if self.pushes else none()

    def m_swap_remove(self, it, args):
        i = it.load(args[1])
        if self.pushes or i != 0 or self.pops:
            raise Undecided("removal from %s at %s" % (self.name[-1], it.where()))
        if not self.any(it):
            raise PanicPath("removal from an empty list")
        t = self.bottom(it)
        self.pops += 1
        it.ctx.event("popfree", self.name, t, it.where())
        return S(t, "node")

    m_remove = m_swap_remove

    def m_truncate(self, it, args):
        la = it.lin(it.load(args[1]))
        if la is None or self.cleared or self.pushes or la[0] != ("flen", self.name):
            if la is not None and la[0] is None and la[1] == 0:
                return self.m_clear(it, args)
            raise Undecided("truncation of %s at %s" % (self.name[-1], it.where()))
        while self.pops < -la[1]:
            self.m_pop(it, args)
        return UNIT

    def getitem(self, it, s):
        la = it.lin(it.load(s))
        if la is not None and la[0] == ("flen", self.name) and not self.cleared:
            k = la[1] + self.pops
            if 0 <= k < len(self.pushes):
                return self.pushes[k]
            if k < 0:
                if not it.lin_rel((None, -la[1] - 1), (la[0], 0), "lt", "int"):
                    raise PanicPath("index out of range")
                return S(("slot", self.name, -la[1]), "node")
        if la is not None and la[0] is None and la[1] == 0 and not self.pushes and self.any(it):
            return S(self.bottom(it), "node")
        raise Undecided("element of %s at %s" % (self.name[-1], it.where()))

    def setitem(self, it, s, v):
        raise Undecided("element of %s overwritten at %s" % (self.name[-1], it.where()))

    def m_push(self, it, args):
        self.pushes.append(args[1])
        it.ctx.event("pushfree", self.name, it.term(args[1]), it.where())
        return UNIT

    def m_clear(self, it, args):
        self.cleared = True
        self.pushes = []
        it.ctx.event("clearfree", self.name, it.where())
        return UNIT

    def m_is_empty(self, it, args):
        if self.pushes:
            return False
        return not self.any(it)

    def push(self, it, v):
        self.m_push(it, [None, v])

    def setwhole(self, it, v):
        pass


class TableSym:
    """Unique/value table of unknown contents."""

    def __init__(self, forest, field, ty):
        self.forest, self.field, self.ty = forest, field, ty

    def lookup(self, it, m, key):
        h = it.ctx.data.get("tablehook")
        if h is not None:
            return h(it, self, m, key)
        kt = it.term(key)
        if it.ctx.bool_atom(("hit", m.name, kt), "%s has %s" % (m.name[-1], tstr(kt))):
            v = S(("hit", m.name, kt), "node")
            e = [key, None, Cell(v)]
            m.ents.append(e)
            it.ctx.event("hit", m.name, kt, it.where())
            return e
        it.ctx.event("miss", m.name, kt, it.where())
        return None

    def retain(self, it, m, pred):
        h = it.ctx.data.get("retainhook")
        if h is None:
            raise Undecided("retain on an unknown table at %s" % it.where())
        return h(it, self, m, pred)

    def cleared(self, it, m):
        m.sym = None

    def removed(self, it, m, key):
        pass


class CacheV:
    """A ComputeCache field of a manager."""

    def __init__(self, name):
        self.name = name

    def as_term(self, it):
        return ("cache",) + self.name


def mkinterp(prog, ctx, hooks=None):
    it = Interp(prog, ctx, hooks or {}, Natives())
    return it


class GenVec:
    """A Vec with unknown contents: one generic element per distinct index term."""

    def __init__(self, ety, name, mk=None):
        self.ety, self.name, self.mk = ety, name, mk
        self.ents = []       # [index, Cell, origin term]
        self.cleared = None

    def length(self, it):
        return S(("len", self.name), "int")

    def find(self, it, s):
        for e in self.ents:
            if it.term(e[0]) == it.term(s):
                return e
        for e in self.ents:
            if it.compare_eq(e[0], s):
                return e
        t = ("gslot", self.name, len(self.ents))
        v = self.mk(it, t) if self.mk else it.mkval(self.ety, t)
        e = [s, Cell(v), clone(it, v)]
        self.ents.append(e)
        return e

    def getitem(self, it, s):
        return self.find(it, s)[1].v

    def setitem(self, it, s, v):
        self.find(it, s)[1].v = v

    def get_opt(self, it, r, ix):
        return some(Ref(r.cell, r.path + (it.load(ix),)))

    def iterate(self, it, r):
        g = S(("anyindex", self.name), "int")
        return DomIt([g], lambda p: Ref(r.cell, r.path + (p,)))

    def m_fill(self, it, args):
        for e in self.ents:
            e[1].v = clone(it, args[1])
        self.find(it, S(("anyindex", self.name), "int"))[1].v = clone(it, args[1])
        return UNIT

    def m_clear(self, it, args):
        self.cleared = True
        self.ents = []
        return UNIT
