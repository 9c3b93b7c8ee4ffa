"""Counting, enumeration and size of diagrams."""
from .core import *
from .lab import *
from .g_diag import Side, root, kind_of, SS
from .std import clone
from .report import Group


def spine(kind, forest):
    """Restrict the diagrams followed to deep thin ones: below a node only some edges may lead to further nodes."""
    def allowed(ctx, f, t):
        if f.name != forest or not (isinstance(t, tuple) and t[0] == "ch"):
            return None
        p, i = t[1], t[2]
        top = not (isinstance(p, tuple) and p[0] == "ch")
        if kind == "fork" and top:
            free = i < 2
        elif kind == "high":
            free = i == 1
        else:
            free = i == 0
        ks = set(f.kinds) - ctx.data.get("exclude", {}).get(f.name, set())
        return None if free else ks - {"NonTerminal"}
    return allowed


S3 = [(1, "b", 2), (0, "a", 3), (2, "c", 2)]


class Walk(Side):
    """Reference readings of a diagram; kinds the code never looked at are partitioned here."""
    shape = None

    def lab(self):
        lab = Lab(self.w, self.H, self.exclude)
        if self.shape:
            inst = lab.install

            def install(ctx):
                inst(ctx)
                ctx.data["allowhook"] = spine(self.shape, self.forest)
            lab.install = install
        return lab

    def kind(self, it, n):
        n = it.ctx.canon(n)
        return it.ctx.data["forests"][self.forest].kind(it, n)

    def lv(self, lab, it, n):
        n = it.ctx.canon(n)
        return lab.level(self.hdr(it.ctx, n)) if self.kind(it, n) == "NonTerminal" else None

    def kids(self, lab, it, n):
        n = it.ctx.canon(n)
        h = self.hdr(it.ctx, n)
        return [it.ctx.canon(("ch", n, i)) for i in range(2 if self.binary else lab.range(h))]

    def assignments(self, lab, it, n):
        """All (assignment, terminal) pairs over the variables up to the root's level."""
        byl = {lv: (lb, rg) for lv, lb, rg in lab.H}
        top = self.lv(lab, it, n)

        def go(t, lv):
            if lv < 0:
                return [((), it.ctx.canon(t))]
            lb, rg = byl[lv]
            at = self.lv(lab, it, t)
            out = []
            for i in range(2 if self.binary else rg):
                c = self.kids(lab, it, t)[i] if at == lv else t
                out += [(((lb, i),) + a, e) for a, e in go(c, lv - 1)]
            return out
        return go(n, -1 if top is None else top)

    def paths(self, lab, it, n):
        """All (recorded edges, terminal) root-to-terminal paths."""
        k = self.kind(it, n)
        n = it.ctx.canon(n)
        if k != "NonTerminal":
            return [((), n)]
        lb = lab.label(self.hdr(it.ctx, n))
        out = []
        for i, c in enumerate(self.kids(lab, it, n)):
            out += [(((lb, i),) + a, e) for a, e in self.paths(lab, it, c)]
        return out

    def nodes(self, lab, it, n):
        out, work = [], [it.ctx.canon(n)]
        while work:
            x = it.ctx.canon(work.pop())
            if x in out:
                continue
            k = self.kind(it, x)
            x = it.ctx.canon(x)
            if x in out:
                continue
            out.append(x)
            if k == "NonTerminal":
                work += self.kids(lab, it, x)
        return out

    def sets(self, it, name="ss"):
        """The selection argument: a slice of truth values, or a set with unknown members."""
        if self.binary:
            return self.ss(it)
        it.ctx.data["ss"] = name
        return Ref(Cell(symset(name)))

    def sel(self, it, n):
        ctx = it.ctx
        k = self.kind(it, n)
        n = ctx.canon(n)
        if self.binary:
            return {"One": True, "Zero": False}.get(k) in ctx.data["ss"]
        if k == "Undet":
            return False
        v = {"Zero": 0, "One": 1}.get(k)
        if v is None:
            v = ctx.canon(ctx.tval(n))
        return ctx.bool_atom(("in", "ss", v))


class ZWalk(Walk):
    """ZmddNode handles, built from the declared field types."""

    def __init__(self, world, H, reverse, exclude=None):
        self.w, self.forest, self.H, self.exclude = world, "zmdd", H, exclude
        self.crate, self.mgr, self.node, self.binary = "mss", "ZmddMgr", "ZmddNode", False
        self.reverse = reverse

    def handle(self, lab, it, name="f", reverse=None):
        m = it.ctx.data.get("mgr")
        if m is None:
            m = it.ctx.data["mgr"] = lab.manager(it, self.crate, self.mgr)
        madt = lab.prog.adt_by_name(self.crate, self.mgr)
        nadt = lab.prog.adt_by_name(self.crate, self.node)
        if nadt is None or madt is None:
            raise Undecided("no %s type" % self.node)
        mf = list(zip(madt["variants"][0]["fields"], it.force(m).fields))
        out, used = [], set()
        for fn, ty, _ in nadt["variants"][0]["fields"]:
            if ty[0] == "adt" and ty[1].endswith("::Weak"):
                src = [v for (f2, t2, _), v in mf if t2[0] == "adt" and t2[1].endswith("::Rc") and t2[2][0] == ty[2][0]]
                if len(src) != 1:
                    raise Undecided("field %s of %s" % (fn, self.node))
                out.append(RcV(src[0].cell, True))
            elif ty[0] == "bool":
                out.append(self.reverse if reverse is None else reverse)
            elif ty[0] == "int":
                out.append(S(root(name, "zmdd"), "node"))
                used.add("n")
            elif ty[0] == "adt" and ty[1].endswith("::Rc"):
                out.append(RcV(Cell(Seq([tup(lb, rg) for _, lb, rg in sorted(lab.H)]))))
            else:
                raise Undecided("field %s of %s" % (fn, self.node))
        if "n" not in used:
            raise Undecided("no node id in %s" % self.node)
        return Agg(nadt["key"], 0, out)


def drive(it, lab, v, limit=3000):
    """All items of a workspace iterator."""
    v = it.force(v)
    if not isinstance(v, Agg):
        raise Undecided("result is not a workspace iterator")
    b = lab.prog.find(str(v.adt).split("::")[0], str(v.adt).split("::")[-1], "next", "Iterator")
    if b is None:
        raise Undecided("no iterator on %s" % v.adt)
    c = Cell(v)
    out = []
    for _ in range(limit):
        x = it.force(it.run(b, [Ref(c)]))
        if x.variant == 0:
            return out
        out.append(clone(it, it.force(x.fields[0])))
    raise Undecided("more than %d items" % limit)


def mapitem(it, v):
    v = it.force(v)
    if not isinstance(v, MapV) or v.sym is not None:
        raise Undecided("item is %r" % (v,))
    return tuple(sorted((it.load(k), it.load(c.v)) for k, _, c in v.ents))


def mkside(world, forest, H, exclude, reverse=False):
    if forest == "zmdd":
        return ZWalk(world, H, reverse, exclude)
    return Walk(world, forest, H, exclude)


COUNT = {"bdd": "bdd_count", "zdd": "count", "mdd": "mdd_count", "mtmdd": "mdd_count", "zmdd": "count"}
EXTRACT = {"bdd": "bdd_extract", "zdd": "extract", "mdd": "mdd_extract", "mtmdd": "mdd_extract", "zmdd": "extract"}
FULL = ("bdd", "mdd", "mtmdd")


def members(sd, lab, it, n):
    full = sd.forest in FULL
    return [(a, e) for a, e in (sd.assignments if full else sd.paths)(lab, it, n) if sd.sel(it, e)]


def plans(forest, tier, shape=None, light=False):
    """(headers, selections, excluded kinds, shape) followed completely."""
    nou = {forest: {"Undet"}}
    sels = [[True], [False], [True, False]]
    binary = forest in ("bdd", "zdd")
    if shape:
        if binary:
            return [(H4, [[True], [False]], nou, shape)]
        return [(H3 if shape == "fork" else S3, None, nou, shape)]
    if binary:
        return [(H2, sels, {}, None), (H3, [[True]], nou, None)] if tier == "quick" else [(H2, sels, {}, None), (H3, sels, {}, None)]
    return [(M1, None, {}, None), (M22, None, {}, None), (M2, None, nou if tier == "quick" or light else {}, None)]


DEEP = ("low", "high", "fork")


def split(arg):
    forest, _, shape = arg.partition("-")
    return forest, shape or None


def boundcount(world, arg, tier):
    """Counting followed through the whole of every small diagram."""
    forest, shape = split(arg)
    g = Group("count:" + arg, "the count is the number of selected assignments (members)")
    name = COUNT[forest]
    exc = {"bdd": set(), "zdd": set()}

    def run(H, ss=None, excl=None, shape=None):
        sd = mkside(world, forest, H, excl)
        sd.shape = shape
        body = sd.body(name)

        def entry(lab, it):
            h = sd.handle(lab, it)
            s = sd.ss(it, ss) if ss else sd.sets(it)
            v = it.run(body, [Ref(Cell(h)), s])
            return v, len(members(sd, lab, it, root("f", forest)))

        def check(lab, it, ctx, r):
            return numdiff(ctx, r[0], r[1], None)
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "the number of selected assignments"
        r.go()
    for H, ss, excl, shape in plans(forest, tier, shape):
        run(H, ss, excl, shape)
    g.need(mkside(world, forest, H2, {}).body(name).where(), 8)
    return g


def stepcount(world, forest, tier):
    """One recursion step of the counters that need no level argument, for diagrams of any depth."""
    g = Group("countstep:" + forest, "count(node) = sum over edges of count(child), each skipped variable counting all its values")

    def run(H, only=None):
        sd = mkside(world, forest, H, {})
        if only:
            mk = sd.lab

            def lab():
                x = mk()
                x.ids = lambda f: only
                return x
            sd.lab = lab
        body = sd.body(COUNT[forest])

        def expand(lab, it, ctx, n, rt):
            n = ctx.canon(n)
            k = kind_of(ctx, n, forest)
            if k is None:
                return None
            if k != "NonTerminal":
                if forest == "zmdd":
                    if k == "Undet":
                        return 0
                    at = ("in", "ss", ctx.canon(ctx.tval(n)))
                    for a, v in ctx.boolfacts.items():
                        if ctx.canon(a) == at:
                            return int(v)
                    return None
                s = sd.selected(ctx, n)
                return None if s is None else (1 if s else 0)
            if forest == "bdd":
                lv = lab.level(sd.hdr(ctx, n))
                out = []
                for c in sd.children(lab, ctx, n):
                    kc = kind_of(ctx, c, forest)
                    if kc is None:
                        if n == rt:
                            raise Undecided("level of %s not inspected" % tstr(c))
                        return None
                    lc = lab.level(sd.hdr(ctx, c)) if kc == "NonTerminal" else -1
                    out.append(("mul", 2 ** (lv - lc - 1), ("ctr", "count", c)))
                return add(*out)
            return add(*[("ctr", "count", c) for c in sd.children(lab, ctx, n)])

        def exp(lab, it, ctx, rt):
            rt = ctx.canon(rt)
            return lambda t: expand(lab, it, ctx, t[2], rt) if t[0] == "ctr" and t[1] == "count" else None
        spec = RecSpec("count", [forest], is_num, lambda lab, it, ns: S(("ctr", "count", ns[0]), "num"),
                       lambda lab, it, ctx, ns, v: numdiff(ctx, v, ("ctr", "count", ns[0]), exp(lab, it, ctx, ns[0])))

        def entry(lab, it):
            h = sd.handle(lab, it)
            s = sd.sets(it)
            return it.run(body, [Ref(Cell(h)), s])

        def check(lab, it, ctx, v):
            return numdiff(ctx, v, ("ctr", "count", root("f", forest)), exp(lab, it, ctx, root("f", forest)))
        r = LabRun(g, sd.lab, entry, check, [spec], body, limit=20000)
        r.rules = "the number of selected assignments"
        r.go()
    run({"bdd": H4, "zdd": H3, "zmdd": M3}[forest])
    if forest == "bdd":
        # edges that skip many variables
        run([(i, "v%d" % i, 2) for i in range(62)], (0, 20, 61))
    g.need(mkside(world, forest, H2, {}).body(COUNT[forest]).where(), 4)
    return g


def enum(world, arg, tier):
    """Enumeration followed through the whole of every small diagram."""
    forest, shape = split(arg)
    g = Group("enum:" + arg, "the enumeration yields every selected assignment (member) exactly once, and len() is its length")
    name = EXTRACT[forest]

    def run(H, ss=None, excl=None, reverse=False, shape=None):
        sd = mkside(world, forest, H, excl, reverse)
        sd.shape = shape
        body = sd.body(name)

        def entry(lab, it):
            h = sd.handle(lab, it)
            s = sd.ss(it, ss) if ss else sd.sets(it)
            p = it.run(body, [Ref(Cell(h)), s])
            n = None
            pv = it.force(p)
            lb = lab.prog.find(sd.crate, str(pv.adt).split("::")[-1], "len") if isinstance(pv, Agg) else None
            if lb is not None:
                n = it.run(lb, [Ref(Cell(p))])
            xs = drive(it, lab, p)
            mem = members(sd, lab, it, root("f", forest))
            return xs, n, mem

        def item(lab, it, x):
            if forest in ("bdd", "zdd"):
                x = it.force(x)
                return tuple(sorted(it.load(y) for y in x.items))
            return mapitem(it, x)

        def want(lab, a):
            if forest == "bdd":
                return tuple(sorted(lb if i else "~" + lb for lb, i in a))
            if forest == "zdd":
                return tuple(sorted(lb for lb, i in a if i))
            if forest == "zmdd":
                d = {lb: (rg - 1 if reverse else 0) for _, lb, rg in lab.H}
                for lb, i in a:
                    d[lb] = (lab.range(lab.bylabel[lb]) - 1 - i) if reverse else i
                return tuple(sorted(d.items()))
            return tuple(sorted(a))

        def check(lab, it, ctx, r):
            xs, n, mem = r
            got = sorted(item(lab, it, x) for x in xs)
            exp = sorted(want(lab, a) for a, _ in mem)
            if got != exp:
                extra = [x for x in got if x not in exp]
                miss = [x for x in exp if x not in got]
                return "enumerates %s%s%s" % ("extra %s " % (extra[:2],) if extra else "", "misses %s " % (miss[:2],) if miss else "",
                                              "%d items instead of %d" % (len(got), len(exp)) if len(got) != len(exp) else "")
            if n is not None:
                return numdiff(ctx, n, len(exp), None)
            return None
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "every selected assignment exactly once"
        r.go()
    for H, ss, excl, shape in plans(forest, tier, shape):
        run(H, ss, excl, False, shape)
        if forest == "zmdd":
            run(H, ss, excl, True, shape)
    g.need(mkside(world, forest, H2, {}).body(name).where(), 8)
    return g


def size(world, arg, tier):
    """Node counts followed through the whole of every small diagram."""
    forest, shape = split(arg)
    g = Group("size:" + arg, "size() = (non-terminal nodes, terminal nodes, edges) of the diagram, shared nodes once")
    name = "size"

    def run(H, excl=None, shape=None):
        sd = mkside(world, forest, H, excl)
        sd.shape = shape
        body = sd.body(name)

        def entry(lab, it):
            h = sd.handle(lab, it)
            v = it.force(it.run(body, [Ref(Cell(h))]))
            ns = sd.nodes(lab, it, root("f", forest))
            nt = [n for n in ns if sd.kind(it, n) == "NonTerminal"]
            return v, (len(nt), len(ns) - len(nt), sum(len(sd.kids(lab, it, n)) for n in nt))

        def check(lab, it, ctx, r):
            v, want = r
            for i, (a, b) in enumerate(zip(v.fields, want)):
                d = numdiff(ctx, a, b, None)
                if d:
                    return "%s: %s" % (("non-terminal nodes", "terminal nodes", "edges")[i], d)
            return None
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "the number of distinct nodes and edges"
        r.go()
    for H, _, excl, shape in plans(forest, tier, shape, True):
        run(H, excl, shape)
    g.need(mkside(world, forest, H2, {}).body(name).where(), 8)
    return g


def strata(world, tier):
    """ZmddNode::labels and ZmddNode::extract_level."""
    g = Group("strata:zmdd", "labels() = the distinct terminal values in ascending order; extract_level(v) = the extreme members among the strata on v's side")

    def labels(H, excl):
        sd = mkside(world, "zmdd", H, excl)
        body = sd.body("labels")

        def entry(lab, it):
            h = sd.handle(lab, it)
            v = it.run(body, [Ref(Cell(h))])
            ns = sd.nodes(lab, it, root("f", "zmdd"))
            return v, [n for n in ns if sd.kind(it, n) == "Terminal"]

        def check(lab, it, ctx, r):
            v, ts = r
            xs = [ctx.canon(it.term(x)) for x in it.force(v).items]
            want = [ctx.canon(ctx.tval(n)) for n in ts]
            o = ctx.order("val")
            for a, b in zip(xs, xs[1:]):
                p = {"<"} if isinstance(a, int) and isinstance(b, int) and a < b else o.possible(a, b)
                if p != {"<"}:
                    return "labels %s and %s are not in ascending order" % (tstr(a), tstr(b))
            for w in want:
                if not any(w == x or o.possible(w, x) == {"="} for x in xs):
                    return "label %s is missing" % tstr(w)
            for x in xs:
                if not any(w == x or o.possible(w, x) == {"="} for w in want):
                    return "label %s is not a terminal value of the family" % tstr(x)
            return None
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "the distinct terminal values, ascending"
        r.go()

    def level(H, excl, reverse):
        sd = mkside(world, "zmdd", H, excl, reverse)
        body = sd.body("extract_level")

        def entry(lab, it):
            h = sd.handle(lab, it)
            lv = ("v0",)
            v = it.run(body, [Ref(Cell(h)), S(lv, "val")])
            mem = []
            for a, e in sd.paths(lab, it, root("f", "zmdd")):
                if sd.kind(it, e) == "Undet":
                    continue
                c = it.ctx.compare("val", it.ctx.canon(it.ctx.tval(it.ctx.canon(e))), lv)
                if c == "=" or c == ("<" if reverse else ">"):
                    d = {lb: (rg - 1 if reverse else 0) for _, lb, rg in lab.H}
                    for lb, i in a:
                        d[lb] = (lab.range(lab.bylabel[lb]) - 1 - i) if reverse else i
                    mem.append(d)
            ext = []
            for x in mem:
                if not any(y != x and all((y[l] >= x[l]) if reverse else (y[l] <= x[l]) for l in x) for y in mem):
                    ext.append(tuple(sorted(x.items())))
            return v, sorted(ext)

        def check(lab, it, ctx, r):
            v, want = r
            got = sorted(mapitem(it, x) for x in it.force(v).items)
            if got != want:
                return "returns %s instead of %s" % (got[:4], want[:4])
            return None
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "the extreme members at the level"
        r.go()
    nou = {"zmdd": {"Undet"}}
    labels(M1, {})
    labels(M22, {} if tier != "quick" else nou)
    for rv in (False, True):
        level(M1, {}, rv)
        level(M22, {} if tier != "quick" else nou, rv)
    g.need(mkside(world, "zmdd", H2, {}).body("labels").where(), 8)
    return g
