"""Minimal path and cut families: one step of every traversal against the definition.

A family diagram is read at a state vector: a variable that the path skips is at its base state.
Four readings: 'path' families (base state 0), 'cut' families before conversion (base = highest
state), over Boolean ('b') or value ('v') structure functions."""
import itertools
from .core import *
from .lab import *
from . import sem
from .sem import BOT, PW, Skip, enum_scripts
from .g_diag import Side, root, kind_of
from .report import Group

M = "member"
GRID = (0, 1, 2)


class Mislabel(Exception):
    pass


class Pt:
    """Values of function and family terms at one state vector."""

    def __init__(self, lab, ctx, script, cfg):
        self.lab, self.ctx, self.s, self.c = lab, ctx, script, cfg
        self.val = {}
        self.desc = []
        self.collapse = None
        self.bits = {h: self.s.pick(self.rng(h)) for h in range(len(lab.H))}
        self.desc.append(", ".join("%s=%d" % (lab.label(h), b) for h, b in sorted(self.bits.items())))

    def rng(self, h):
        return 2 if self.c.binary else self.lab.range(h)

    def base(self, h):
        return self.rng(h) - 1 if self.c.top else 0

    def atom(self, key, bits, bound, grid, what):
        k = (key, tuple((h, b) for h, b in sorted(bits.items()) if self.lab.level(h) < bound))
        if k not in self.val:
            self.val[k] = grid[self.s.pick(len(grid))]
            self.desc.append("%s -> %s" % (what, self.val[k]))
        return self.val[k]

    # ---- functions
    def fun(self, t, bits, raw=False):
        ctx = self.ctx
        t = ctx.canon(t) if not raw else t
        f = self.c.src
        if isinstance(t, int):
            return {"Zero": 0, "One": 1, "Undet": BOT}[ctx.data["forests"][f].static_kind(t)]
        if t[0] == "const":
            return self.num(t[2])
        if t[0] == "op":
            fs, fn = PW[t[1]]
            return fn(*[self.fun(x, bits) for x in t[2:]])
        if t[0] == "mk":
            return self.fun(t[3:][bits[t[2]]], bits)
        if t[0] == "ctr" and t[1] == "dual":
            x = self.fun(t[2], {h: self.rng(h) - 1 - b for h, b in bits.items()})
            return BOT if x == BOT else 1 - x
        k = ctx.kind_known(t)
        if k == "NonTerminal":
            return self.fun(("ch", t, bits[ctx.canon(("hdr", t))]), bits)
        if k == "Terminal":
            return self.terminal(t)
        b = bits
        return self.atom(("fun", t), b, self.lab.bound(ctx, t), [0, 1] if self.c.bool else self.c.grid, tstr(t))

    def terminal(self, t):
        """A terminal has one value, whether it is read as a function or as a family."""
        return self.atom(("tv", t), {}, 0, self.c.grid, tstr(t))

    def isfam(self, y):
        while isinstance(y, tuple) and y[0] == "ch":
            y = y[1]
        return y in self.ctx.data.get("famroots", ()) or (isinstance(y, tuple) and y[:2] in (("ctr", "min"), ("ctr", "wo")))

    def num(self, v):
        if isinstance(v, int):
            return v
        v = self.ctx.canon(v)
        if isinstance(v, int):
            return v
        if v[0] == "tval":
            x = y = self.ctx.canon(v[1])
            while isinstance(y, tuple) and y[0] == "ch":
                y = y[1]
            if kind_of(self.ctx, x, self.c.src) == "Terminal" and self.ctx.forest_name(x) in (None, self.c.src):
                return self.terminal(x)
            if self.isfam(x):
                return self.atom(("fam", x), {}, 0, self.c.grid, tstr(x))
            if isinstance(y, tuple) and y[:2] == ("ctr", "z"):
                return self.atom(("dfam", x), {}, 0, self.c.grid, tstr(x))
            return self.fun(x, self.bits)
        k = ("num", v)
        if k not in self.val:
            self.val[k] = self.c.grid[self.s.pick(len(self.c.grid))]
            self.desc.append("%s = %s" % (tstr(v), self.val[k]))
        return self.val[k]

    # ---- families over the source diagram
    def atbase(self, bits, lo, hi):
        return all(bits[h] == self.base(h) for h in bits if lo <= self.lab.level(h) < hi)

    def fam(self, t, bits, upto=None, raw=False, open=False):
        ctx, lab = self.ctx, self.lab
        t = ctx.canon(t) if not raw else t
        upto = len(lab.H) if upto is None else upto
        if isinstance(t, int):
            k = ctx.data["forests"][self.c.src].static_kind(t)
            return M if k == "One" and self.atbase(bits, 0, upto) else BOT
        if t[0] == "const":
            return self.num(t[2]) if self.atbase(bits, 0, upto) else BOT
        if t[0] == "ctr" and not open:
            if t[1] == "wo":
                return self.minus(self.fam(t[2], bits, upto), t[3], bits)
            if t[1] == "min":
                x = ctx.canon(t[2])
                k = kind_of(ctx, x, self.c.src)
                if k is not None and k != "NonTerminal":
                    return self.least(x, bits, upto)
                b = lab.bound(ctx, x)
                if not self.atbase(bits, b, upto):
                    return BOT
                # a member carries its own value
                v = self.fun(x, bits)
                if self.c.bool and v != self.c.mval:
                    return BOT
                return self.atom(("min", x), bits, b, [BOT, M if self.c.bool else v], tstr(t))
            raise Undecided("family %s" % tstr(t))
        if t[0] == "mk":
            return self.node(t[2], t[3:], bits, upto, True)
        k = ctx.kind_known(t)
        if k == "NonTerminal":
            h = ctx.canon(("hdr", t))
            return self.node(h, [("ch", t, i) for i in range(self.rng(h))], bits, upto, False)
        b = 0 if k == "Terminal" else lab.bound(ctx, t)
        if not self.atbase(bits, b, upto):
            return BOT
        if k == "Terminal":
            return self.terminal(t)
        r = self.atom(("fam", t), bits, b, [BOT, M] if self.c.bool else [BOT] + self.c.grid, tstr(t))
        if self.c.binary and r == M and self.fun(t, bits) != 1:
            raise Skip()      # the listed vectors of a diagram satisfy its function
        return r

    def node(self, h, kids, bits, upto, made):
        lv = self.lab.level(h)
        if not self.atbase(bits, lv + 1, upto):
            return BOT
        vs = [self.fam(c, bits, lv) for c in kids]
        if len(set(vs)) == 1 and vs[0] != BOT:
            if not made:
                raise Skip()      # a vector and a smaller one with the same label are never both listed
            self.collapse = vs[0]
        elif not made and any(v != BOT and vs.count(v) > 1 for v in vs):
            raise Skip()
        return vs[bits[h]]

    def minus(self, v, g, bits):
        if v == BOT:
            return BOT
        x = self.fun(g, bits)
        if self.c.bool:
            return BOT if x == self.c.mval else v
        return BOT if x == v else v

    def least(self, f, bits, upto=None):
        """Definition: vectors extreme within their own value, one variable at a time."""
        ctx, lab = self.ctx, self.lab
        f = ctx.canon(f)
        upto = len(lab.H) if upto is None else upto
        k = kind_of(ctx, f, self.c.src)
        if k is None:
            return self.fam(("ctr", "min", f), bits, upto)
        if k != "NonTerminal":
            if not self.atbase(bits, 0, upto):
                return BOT
            v = self.fun(f, bits)
            if self.c.bool:
                return M if v == self.c.mval else BOT
            return v
        h = ctx.canon(("hdr", f))
        lv = lab.level(h)
        if not self.atbase(bits, lv + 1, upto):
            return BOT
        i = bits[h]
        v = self.fam(("ctr", "min", ("ch", f, i)), bits, lv)
        if i == self.base(h):
            return v
        return self.minus(v, ("ch", f, i + 1 if self.c.top else i - 1), bits)

    # ---- families in the destination manager
    def dfam(self, t, d, upto=None, raw=False, open=False):
        ctx, lab = self.ctx, self.lab
        t = ctx.canon(t) if not raw else t
        upto = len(lab.H) if upto is None else upto
        dst = self.c.dst

        def zero(lo):
            return all(b == 0 for h, b in d.items() if lo <= lab.level(h) < upto)
        if isinstance(t, int):
            k = ctx.data["forests"][dst].static_kind(t)
            return M if k == "One" and zero(0) else BOT
        if t[0] == "const":
            return self.num(t[2]) if zero(0) else BOT
        if t[0] == "ctr" and t[1] == "z" and not open:
            s = {h: self.rng(h) - 1 - b if self.c.top else b for h, b in d.items()}
            # variables above `upto` are someone else's
            for h in s:
                if lab.level(h) >= upto:
                    s[h] = self.base(h)
            v = self.fam(t[2], s)
            if v == M and dst == "zmdd":
                return self.c.mval
            return v
        if t[0] == "mk":
            h = self.var(t[2])
            return self.dnode(h, lab.level(h), t[3:], d, upto)
        if ctx.kind_known(t) == "NonTerminal":
            hd = ctx.canon(("hdr", t))
            h = self.var(hd)
            return self.dnode(h, lab.level(h), [("ch", t, i) for i in range(self.rng(h))], d, upto)
        k = ctx.kind_known(t)
        b = 0 if k == "Terminal" else lab.bound(ctx, t)
        if not all(x == 0 for h, x in d.items() if b <= lab.level(h) < upto):
            return BOT
        bits = {} if k == "Terminal" else d
        return self.atom(("dfam", t), bits, b, [BOT, M] if dst == "zdd" else [BOT] + self.c.grid if k != "Terminal" else self.c.grid, tstr(t))

    def var(self, hd):
        """The variable a header of the destination manager stands for."""
        lab = self.lab
        lv, lb, rg = lab.dst(self.ctx.data["it"], self.c.dst, hd)
        h = lab.bylabel.get(lb)
        if h is None or lv != lab.level(h) or rg != (2 if self.c.binary else lab.range(h)):
            raise Mislabel("a node is built for variable %s at level %s with %s states" % (lb, lv, rg))
        return h

    def dnode(self, h, lv, kids, d, upto):
        if not all(x == 0 for g, x in d.items() if lv < self.lab.level(g) < upto):
            return BOT
        return self.dfam(kids[d[h]], d, lv)

    # ---- facts of the path
    def consistent(self):
        ctx = self.ctx
        # what the code found out about the results of its calls
        for t, k in list(ctx.kinds.items()):
            if k in ("NonTerminal", "Terminal") and isinstance(t, tuple) and t[0] == "ctr":
                r = self.role(t)
                ev = self.dfam if r == "z" else self.fam if r == "min" else None
                if ev is not None and ev(t, self.bits, None, True) != ev(t, self.bits, None, False, True):
                    raise Skip()
        for a, b in ctx.eqfacts:
            r = self.role(a) or self.role(b)
            if r is None:
                continue
            if r == "z":
                if self.dfam(a, self.bits, None, True) != self.dfam(b, self.bits, None, True):
                    raise Skip()
            elif r == "min":
                if self.fam(a, self.bits, None, True) != self.fam(b, self.bits, None, True):
                    raise Skip()
            elif self.c.plain:
                # the same node: the same value everywhere
                for bits in self.points():
                    if self.fun(a, bits, True) != self.fun(b, bits, True):
                        raise Skip()
            elif self.fun(a, self.bits, True) != self.fun(b, self.bits, True):
                raise Skip()
        for sort, a, r, b in ctx.relfacts:
            if sort != "val":
                continue
            x, y = self.num(a), self.num(b)
            if BOT in (x, y) or not {"<": x < y, "=": x == y, ">": x > y, "!=": x != y, ">=": x >= y}[r]:
                raise Skip()

    def points(self):
        hs = sorted(self.bits)
        for v in itertools.product(*[range(self.rng(h)) for h in hs]):
            yield dict(zip(hs, v))

    def role(self, t):
        while isinstance(t, tuple) and t:
            if t[0] == "ctr":
                return {"z": "z", "min": "min", "wo": "min", "dual": "fun"}.get(t[1])
            if t[0] == "mk":
                return "z" if t[1] == self.c.dst else "fun" if t[1] == self.c.src and self.c.plain else None
            if t[0] == "op":
                return "fun"
            if t[0] != "ch":
                return None
            t = t[1]
        return None


class Sol:
    """The contracts of one configuration."""

    def __init__(self, world, H, src, dst, top, mval, swap=False):
        self.w, self.H, self.src, self.dst = world, H, src, dst
        self.top, self.mval, self.swap = top, mval, swap
        self.grid = [0, 1] if max(h[2] for h in H) > 3 else list(GRID)
        self.bool = src in ("bdd", "mdd")
        self.binary = src == "bdd"
        self.plain = False        # only functions, no families
        self.dstmgr = world.forests[dst].adt

    def lab(self):
        lab = Lab(self.w, self.H, {"bdd": {"Undet"}, "zdd": {"Undet"}, "mdd": {"Undet"}, "mtmdd": {"Undet"}})
        lab.shifted = (self.dst,)
        inst = lab.install

        def install(ctx):
            inst(ctx)
            ctx.data["ctrforest"] = {"z": self.dst}
            ctx.data["allowhook"] = self.allowed
        lab.install = install
        return lab

    def allowed(self, ctx, f, t):
        """Function diagrams are total; family diagrams have empty parts."""
        if f.name != self.src or self.binary:
            return None
        x = t
        while isinstance(x, tuple) and x[0] == "ch":
            x = x[1]
        if x in ctx.data.get("famroots", ()) or (isinstance(x, tuple) and x[0] == "ctr" and x[1] in ("min", "wo")):
            return set(f.kinds)
        return None

    def into(self, it, args):
        for a in args:
            v = it.load(a) if isinstance(a, Ref) else a
            if isinstance(v, Agg) and v.adt == self.dstmgr:
                return True
        return False

    def specs(self):
        src = self.src
        fi, gi = (1, 0) if self.swap else (0, 1)       # family, function operand of 'without'

        def res_min(lab, it, ns):
            n = it.ctx.canon(ns[0])
            if it.ctx.bool_atom(("mono", n), "%s is monotone" % tstr(n)):
                return some(S(("ctr", "min", n), "node"))
            return none()

        def fams(pos):
            def p(ctx, roots):
                ctx.data["famroots"] = [roots[i] for i in pos]
            return p
        out = [
            RecSpec("minimal solutions", [src], is_optnode, res_min, self.check_min, prepare=fams(())),
            RecSpec("subtraction", [src, src], is_nodety,
                    lambda lab, it, ns: S(("ctr", "wo", it.ctx.canon(ns[fi]), it.ctx.canon(ns[gi])), "node"),
                    lambda lab, it, ctx, ns, v: self.family(lab, it, ctx, v, ("ctr", "wo", ns[fi], ns[gi])), prepare=fams((fi,))),
            RecSpec("conversion", [src], is_nodety, lambda lab, it, ns: S(("ctr", "z", it.ctx.canon(ns[0])), "node"),
                    self.check_z, accept=self.into, dst=self.dst, prepare=fams((0,))),
        ]
        if src == "bdd":
            out.append(RecSpec("dual", [src], is_nodety, lambda lab, it, ns: S(("ctr", "dual", it.ctx.canon(ns[0])), "node"),
                               self.check_dual, accept=lambda it, a: not self.into(it, a), prepare=fams(())))
        return out

    # ---- checks
    def term(self, it, v):
        v = it.load(v)
        if isinstance(v, S):
            return it.ctx.canon(v.t)
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        raise Undecided("result %r" % (v,))

    def search(self, lab, it, ctx, fn):
        """A point where fn reports a witness, among those the path allows."""
        ctx.data["it"] = it

        def one(s):
            p = Pt(lab, ctx, s, self)
            try:
                w = fn(p)
            except Mislabel as e:
                w = str(e)
            if w is None:
                return None
            p.consistent()
            return "at %s: %s" % (", ".join(p.desc), w)
        return enum_scripts(one)[0]

    def family(self, lab, it, ctx, v, want, defn=False, assume=None):
        t = self.term(it, v)

        def fn(p):
            if assume:
                assume(p)
            a = p.fam(t, p.bits)
            b = p.least(want, p.bits) if defn else self.wanted(p, want)
            if a != b:
                return "result %s, expected %s" % (a, b)
            if p.collapse is not None:
                return "a node whose edges carry the same family is merged although the family is not empty"
            return None
        if isinstance(t, tuple) and t[0] == "n" and not self.binary:
            pass
        return self.search(lab, it, ctx, fn)

    def wanted(self, p, want):
        # evaluate the operand structurally (its kind is known here)
        _, _, f, g = want
        return p.minus(p.fam(f, p.bits), g, p.bits)

    def check_min(self, lab, it, ctx, ns, v):
        v = it.force(v)
        f = ctx.canon(ns[0])
        k = kind_of(ctx, f, self.src)
        if k is None:
            m = [x for a, x in ctx.boolfacts.items() if a[0] == "mono" and ctx.canon(a[1]) == f]
            if not m:
                raise Undecided("kind of the diagram was not inspected")
            if m[0] != (v.variant == 1):
                return "the stored answer is changed"
            return self.family(lab, it, ctx, v.fields[0], f, True) if v.variant else None
        kids = [ctx.canon(("ch", f, i)) for i in range(2 if self.binary else lab.range(ctx.canon(("hdr", f))))] if k == "NonTerminal" else []
        facts = {ctx.canon(a[1]) if isinstance(a[1], tuple) else a[1]: x for a, x in ctx.boolfacts.items() if a[0] == "mono"}

        def asc(p):
            vs = [p.fun(c, p.bits) for c in kids]
            if any(a > b for a, b in zip(vs, vs[1:])):
                raise Skip()
        if v.variant == 0:
            if any(facts.get(c) is False for c in kids):
                return None
            for a, b in ctx.nefacts:
                if not any(isinstance(x, tuple) and x[0] == "op" for x in (a, b)):
                    continue

                def fn(p, a=a, b=b):
                    asc(p)
                    return "unequal" if p.fun(a, p.bits, True) != p.fun(b, p.bits, True) else None
                if self.search(lab, it, ctx, fn) is None:
                    return None
            return "a monotone function may be refused"
        if kids:
            for c in kids:
                if facts.get(c) is False:
                    return "a family is reported although %s is not monotone" % tstr(c)
                if c not in facts and not isinstance(c, int) and kind_of(ctx, c, self.src) in (None, "NonTerminal"):
                    return "a family is reported without examining %s" % tstr(c)

            def fn(p):
                vs = [p.fun(c, p.bits) for c in kids]
                for i, (a, b) in enumerate(zip(vs, vs[1:])):
                    if a > b:
                        return "a family is reported although %s falls below %s" % (tstr(kids[i + 1]), tstr(kids[i]))
            w = self.search(lab, it, ctx, fn)
            if w:
                return w
        return self.family(lab, it, ctx, v.fields[0], f, True, asc)

    def check_z(self, lab, it, ctx, ns, v):
        t = self.term(it, v)
        n = ctx.canon(ns[0])

        def fn(p):
            d = p.bits
            s = {h: p.rng(h) - 1 - b if self.top else b for h, b in d.items()}
            b = p.fam(n, s)
            if b == M and self.dst == "zmdd":
                b = self.mval
            a = p.dfam(t, d)
            return None if a == b else "result %s, expected %s" % (a, b)
        return self.search(lab, it, ctx, fn)

    def check_dual(self, lab, it, ctx, ns, v):
        t = self.term(it, v)
        n = ctx.canon(ns[0])

        def fn(p):
            a, b = p.fun(t, p.bits), p.fun(("ctr", "dual", n), p.bits, True)
            return None if a == b else "result %s, expected %s" % (a, b)
        return self.search(lab, it, ctx, fn)


def inner(lab, it, m, ty):
    """A field of the given type inside a system manager."""
    for x in it.force(m).fields:
        if isinstance(x, Agg) and str(x.adt).endswith("::" + ty):
            return x
    raise Undecided("no %s in the manager" % ty)


def solve(world, kind, tier):
    """kind: <method>:<forest>"""
    method, src = kind.split("-")
    g = Group("sol:" + kind, "the family lists exactly the vectors that are extreme within their own value, and nothing is returned exactly for non-monotone functions")
    bss = src == "bdd"
    crate, mgr, wr = ("bss", "BssMgr", "BddMgr") if bss else ("mss", "MssMgr", "MddMgr")
    dst = "zdd" if bss else "zmdd"
    top = method == "mincut" and not bss
    mval = 0 if top else 1

    def run(H, swap, g):
        c = Sol(world, H, src, dst, top, mval, swap)
        sd = Side(world, src, H)
        body = world.need(crate, mgr, method)

        def entry(lab, it):
            m = lab.manager(it, crate, mgr)
            it.ctx.data["mgr"] = inner(lab, it, m, wr)
            h = sd.handle(lab, it)
            return it.run(body, [Ref(Cell(m)), Ref(Cell(h))])

        def check(lab, it, ctx, v):
            v = it.force(v)
            f = root("f", src)
            facts = {ctx.canon(a[1]) if isinstance(a[1], tuple) else a[1]: x for a, x in ctx.boolfacts.items() if a[0] == "mono"}
            goal = ctx.canon(f)
            if bss and method == "mincut":
                goal = ctx.canon(("ctr", "dual", f))
            if goal not in facts and not isinstance(goal, int):
                # decided without the recursion
                raise Undecided("monotonicity of %s was not examined" % tstr(goal))
            mono = facts.get(goal, True)
            if (v.variant == 1) != mono:
                return "a family is %s for a %s function" % ("reported" if v.variant else "refused", "monotone" if mono else "non-monotone")
            if not v.variant:
                return None
            t = node_of_handle(it, v.fields[0])
            if not bss:
                revs = [x for x in it.force(v.fields[0]).fields if isinstance(x, bool)]
                if revs and revs[0] != top:
                    return "the family is marked as a %s family" % ("cut" if revs[0] else "path")

            def fn(p):
                d = p.bits
                s = {h: p.rng(h) - 1 - b if top else b for h, b in d.items()}
                if not bss and all(b == 0 for b in d.values()):
                    want = p.fun(f, s)
                else:
                    want = p.fam(("ctr", "min", goal), s)
                    if want == M and not bss:
                        want = mval
                got = p.dfam(t, d)
                return None if got == want else "label %s, expected %s" % (got, want)
            return c.search(lab, it, ctx, fn)
        r = LabRun(g, c.lab, entry, check, c.specs(), body, limit=60000)
        r.rules = "the reported family is the set of extreme vectors"
        r.go()
        return g

    def both(H):
        # the operand order of the subtraction helper is not part of the specification
        best = None
        for swap in (False, True) if bss else (True, False):
            t = run(H, swap, Group(g.name, g.rule))
            if best is None or (not t.violations and best.violations):
                best = t
            if not t.violations:
                break
        g.merge(best)
    for H in [H3, H4] if bss else [M22, M2, M4, M24, M3]:
        both(H)
    g.need(world.need(crate, mgr, method).where(), 20)
    return g


def dual(world, tier):
    """The dual of a BDD handle."""
    g = Group("dual:bdd", "dual(f) is the complement of f at the complemented assignment")

    def run(H, rec):
        c = Sol(world, H, "bdd", "zdd", False, 1)
        c.plain = True
        sd = Side(world, "bdd", H)
        body = world.need("bss", "BddNode", "dual")

        def entry(lab, it):
            h = sd.handle(lab, it)
            return it.run(body, [Ref(Cell(h))])

        def check(lab, it, ctx, v):
            t = node_of_handle(it, v)

            def fn(p):
                a, b = p.fun(t, p.bits), p.fun(("ctr", "dual", root("f", "bdd")), p.bits, True)
                return None if a == b else "result %s, expected %s" % (a, b)
            return c.search(lab, it, ctx, fn)
        r = LabRun(g, c.lab, entry, check, [s for s in c.specs() if s.name == "dual"] if rec else [], body, limit=20000)
        r.rules = "the dual function"
        r.go()
    run(H3, True)
    run(H2, False)
    g.need(world.need("bss", "BddNode", "dual").where(), 4)
    return g
