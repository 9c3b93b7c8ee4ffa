"""Measures of a diagram: probabilities, importance, counts, enumeration, sizes."""
from .core import *
from .lab import *
from .report import Group

UND = {"bdd": {"Undet"}, "zdd": {"Undet"}}
SS = [[], [True], [False], [True, False], [False, True]]


def root(name, forest):
    return ("n", name, forest)


def kind_of(ctx, t, forest):
    t = ctx.canon(t)
    if isinstance(t, int):
        st = ctx.data["forests"][forest].static()
        return st[t] if t < len(st) else None
    if t[0] == "const":
        return "Terminal"
    return ctx.kinds.get(t)


class Side:
    """One diagram kind behind its public handle type."""

    def __init__(self, world, forest, H, exclude=UND):
        self.w, self.forest, self.H, self.exclude = world, forest, H, exclude
        self.crate, self.mgr, self.node = {"bdd": ("bss", "BddMgr", "BddNode"), "zdd": ("bss", "ZddMgr", "ZddNode"),
                                           "mdd": ("mss", "MddMgr", "MddNode"), "mtmdd": ("mss", "MddMgr", "MddNode")}[forest]
        self.binary = self.crate == "bss"

    def lab(self):
        return Lab(self.w, self.H, self.exclude)

    def handle(self, lab, it, name="f"):
        m = it.ctx.data.get("mgr")
        if m is None:
            m = it.ctx.data["mgr"] = lab.manager(it, self.crate, self.mgr)
        mk, args = {"bdd": ("zero", []), "zdd": ("empty", []), "mdd": ("boolean", [True]),
                    "mtmdd": ("value", [S(("v0",), "val")])}[self.forest]
        return lab.handle(it, m, self.crate, self.mgr, mk, args, root(name, self.forest))

    def body(self, name):
        return self.w.need(self.crate, self.node, name)

    # ---- selection of terminal values
    def ss(self, it, options=SS, sizes=(0, 1, 2)):
        if self.binary:
            s = options[it.ctx.choose(len(options))]
            it.ctx.data["ss"] = s
            it.ctx.fact("selected values %s" % s)
            return slicev(list(s))
        n = sizes[it.ctx.choose(len(sizes))]
        it.ctx.data["ss"] = [("s", i) for i in range(n)]
        it.ctx.fact("%d selected values" % n)
        return slicev([S(t, "val") for t in it.ctx.data["ss"]])

    def selected(self, ctx, n):
        """Is the value of terminal n selected?  True / False / None (never asked)."""
        k = kind_of(ctx, n, self.forest)
        if self.binary:
            return (k == "One") in ctx.data["ss"] if k in ("Zero", "One") else False
        if k == "Undet":
            return False
        v = {"Zero": 0, "One": 1}.get(k)
        if v is None:
            v = ctx.tval(n)
        r = False
        for t in ctx.data["ss"]:
            a, b = ctx.canon(t), ctx.canon(v) if isinstance(v, tuple) else v
            p = {"="} if a == b else ctx.order("val").possible(a, b)
            if p == {"="}:
                return True
            if "=" in p:
                r = None
        return r

    # ---- probabilities
    def p(self, label, i):
        if self.binary:
            return ("p", label) if i == 1 else ("sub", 1, ("p", label))
        return ("p", label, i)

    def pv(self, it, lab):
        if self.binary:
            return Ref(Cell(mkmap([(lb, S(("p", lb), "num")) for _, lb, _ in lab.H])))
        return Ref(Cell(mkmap([(lb, Seq([S(("p", lb, i), "num") for i in range(r)])) for _, lb, r in lab.H])))

    def hdr(self, ctx, n):
        return ctx.canon(("hdr", ctx.canon(n)))

    def children(self, lab, ctx, n):
        n = ctx.canon(n)
        h = self.hdr(ctx, n)
        return [ctx.canon(("ch", n, i)) for i in range(2 if self.binary else lab.range(h))]

    def expand_prob(self, lab, ctx, n, given=None):
        """Definition of P(n), one level; given=(label, state) fixes a variable."""
        n = ctx.canon(n)
        k = kind_of(ctx, n, self.forest)
        if k is None:
            return None
        if k != "NonTerminal":
            s = self.selected(ctx, n)
            return None if s is None else (1 if s else 0)
        lb = lab.label(self.hdr(ctx, n))
        cs = self.children(lab, ctx, n)
        if given and given[0] == lb:
            return ("ctr", "prob", cs[given[1]])
        return add(*[("mul", self.p(lb, i), ("ctr", "prob", c)) for i, c in enumerate(cs)])

    def expander(self, lab, ctx, given=None):
        def e(t):
            if t[0] == "ctr" and t[1] == "prob":
                return self.expand_prob(lab, ctx, t[2], given)
            return None
        return e

    def probspec(self):
        return RecSpec("prob", [self.forest], is_num, lambda lab, it, ns: S(("ctr", "prob", ns[0]), "num"),
                       lambda lab, it, ctx, ns, v: numdiff(ctx, v, ("ctr", "prob", ns[0]), self.expander(lab, ctx)))


def prob(world, forest, tier):
    g = Group("prob:" + forest, "prob(f, ss) = sum, over the assignments whose value is in ss, of the product of the variables' state probabilities")

    def run(H, specs, sizes=(1,)):
        sd = Side(world, forest, H)
        body = sd.body("prob")

        def entry(lab, it):
            h = sd.handle(lab, it)
            return it.run(body, [Ref(Cell(h)), sd.pv(it, lab), sd.ss(it, SS, sizes)])

        def check(lab, it, ctx, v):
            return numdiff(ctx, v, ("ctr", "prob", root("f", forest)), sd.expander(lab, ctx))
        r = LabRun(g, sd.lab, entry, check, specs(sd), body, limit=20000)
        r.rules = "the probability of the selected values"
        r.go()
    big = forest == "bdd"
    run(H3 if big else M3, lambda sd: [sd.probspec()], (0, 1, 2))
    if big:
        run(H3, lambda sd: [])
    else:
        run(M22, lambda sd: [])
        run(M1, lambda sd: [])
    g.need(Side(world, forest, H2).body("prob").where(), 10)
    return g


def occurs(sd, lab, ctx, n, out=None):
    out = set() if out is None else out
    n = ctx.canon(n)
    k = kind_of(ctx, n, sd.forest)
    if k is None:
        out.add(None)
    elif k == "NonTerminal":
        out.add(lab.label(sd.hdr(ctx, n)))
        for c in sd.children(lab, ctx, n):
            occurs(sd, lab, ctx, c, out)
    return out


def bmeas(world, forest, tier):
    g = Group("bmeas:" + forest, "the importance of a variable is the difference of the conditional probabilities of its states")

    def run(H):
        sd = Side(world, forest, H)
        body = sd.body("bmeas")

        def entry(lab, it):
            h = sd.handle(lab, it)
            return it.run(body, [Ref(Cell(h)), sd.pv(it, lab), sd.ss(it, [[True], [False]], (1,))])

        def check(lab, it, ctx, v):
            v = it.force(v)
            if not isinstance(v, MapV) or v.sym is not None:
                raise Undecided("result is %r" % (v,))
            f = root("f", forest)
            got = {}
            for k, _, c in v.ents:
                k = it.load(k)
                if k in got:
                    return "two entries for %s" % k
                got[k] = it.force(c.v)
            occ = occurs(sd, lab, ctx, f)
            for _, lb, rg in lab.H:
                want = [("sub", poly(("ctr", "prob", f), ctx, sd.expander(lab, ctx, (lb, i + 1))), poly(("ctr", "prob", f), ctx, sd.expander(lab, ctx, (lb, i))))
                        for i in range(1 if sd.binary else rg - 1)]
                if lb not in got:
                    if lb in occ:
                        return "no entry for variable %s" % lb
                    continue
                x = got[lb]
                xs = [x] if sd.binary else [it.force(y) for y in x.items]
                if len(xs) != len(want):
                    return "%d values for %s instead of %d" % (len(xs), lb, len(want))
                for i, (a, (_, p1, p0)) in enumerate(zip(xs, want)):
                    pa = poly(a, ctx, sd.expander(lab, ctx))
                    pw = padd(p1, p0, -1)
                    if pa != pw:
                        return "%s[%d] is %s instead of %s" % (lb, i, pstr(pa), pstr(pw))
            return None
        r = LabRun(g, sd.lab, entry, check, [sd.probspec()], body, limit=20000)
        r.rules = "importance is the difference of conditional probabilities"
        r.go()
    if forest == "bdd":
        run(H3)
    else:
        run(M2)
        run(M1)
    g.need(Side(world, forest, H2).body("bmeas").where(), 6)
    return g
