"""Pointwise meaning of diagram terms.

A diagram denotes a function of the variable assignment.  Two diagram terms are compared at an
arbitrary assignment: the index taken at every variable that the terms mention is enumerated,
and the value of every diagram about which nothing is known ("atom") at that assignment ranges
over a small grid.  This is exhaustive for the Boolean forests, and for the value forests for
all operations whose meaning is determined by the weak ordering of the operands or is a
polynomial of low degree in them.  Facts collected on the path (node identities, value
comparisons, level order) filter the combinations.
"""
import itertools
from fractions import Fraction
from .core import *

BOT = "undet"


def strict(fn):
    def g(*xs):
        if any(x is BOT or x == BOT for x in xs):
            return BOT
        return fn(*xs)
    return g


def tdiv(a, b):
    if b == 0:
        return BOT
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return Fraction(a) / Fraction(b)
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    if b == 0:
        return BOT
    return a - tdiv(a, b) * b


def k_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == BOT or b == BOT:
        return BOT
    return 1


def k_not(a):
    return BOT if a == BOT else 1 - a


def k_or(a, b):
    return k_not(k_and(k_not(a), k_not(b)))


def k_xor(a, b):
    return BOT if BOT in (a, b) else a ^ b


def k_ite(f, g, h):
    return BOT if f == BOT else (g if f == 1 else h)


def cmpop(fn):
    return lambda a, b: 0 if BOT in (a, b) else int(fn(a, b))


BOOL = {"not": k_not, "and": k_and, "or": k_or, "xor": k_xor,
        "imp": lambda a, b: k_or(k_not(a), b),
        "nand": lambda a, b: k_not(k_and(a, b)),
        "nor": lambda a, b: k_not(k_or(a, b)),
        "xnor": lambda a, b: k_not(k_xor(a, b)),
        "ite": k_ite}

VAL = {"add": strict(lambda a, b: a + b), "sub": strict(lambda a, b: a - b),
       "mul": strict(lambda a, b: a * b), "div": strict(tdiv), "rem": strict(trem),
       "min": strict(min), "max": strict(max),
       "replace": lambda a, b: b if a == BOT else a}

# pointwise meaning: name -> (argument forests, function)
PW = {}
for _f in ("bdd", "mdd"):
    for _n, _fn in BOOL.items():
        # undetermined operands: Kleene in the BDD forest, strict in the MDD forest
        PW["%s.%s" % (_f, _n)] = ([_f] * (1 if _n == "not" else 3 if _n == "ite" else 2),
                                  strict(_fn) if _f == "mdd" and _n != "ite" else _fn)
PW["mdd.replace"] = (["mdd", "mdd"], lambda a, b: b if a == BOT else a)
for _n, _fn in VAL.items():
    PW["mtmdd.%s" % _n] = (["mtmdd", "mtmdd"], _fn)
PW["mdd.veq"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a == b))
PW["mdd.vlt"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a < b))
PW["mdd.vlte"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a <= b))
PW["mdd.vgt"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a > b))
PW["mdd.vgte"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a >= b))
PW["mdd.vneq"] = (["mtmdd", "mtmdd"], cmpop(lambda a, b: a != b))
PW["mtmdd.vif"] = (["mdd", "mtmdd"], lambda f, g: g if f == 1 else BOT)
PW["mtmdd.vite"] = (["mdd", "mtmdd", "mtmdd"], lambda f, g, h: BOT if f == BOT else (g if f == 1 else h))
# zero-suppressed: characteristic functions of families
PW["zdd.intersect"] = (["zdd", "zdd"], lambda a, b: a & b)
PW["zdd.union"] = (["zdd", "zdd"], lambda a, b: a | b)
PW["zdd.setdiff"] = (["zdd", "zdd"], lambda a, b: a & (1 - b))
PW["zmdd.intersect"] = (["zmdd", "zmdd"], lambda a, b: a if a == b else BOT)
PW["zmdd.setdiff"] = (["zmdd", "zmdd"], lambda a, b: BOT if a == b else a)

ZS = {"zdd", "zmdd"}
BOOLF = {"bdd", "mdd", "zdd"}


class Skip(Exception):
    """This combination contradicts a fact."""


class Script:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []

    def pick(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c


def enum_scripts(fn, limit=200000):
    """fn(script) for every script; stops at the first truthy result."""
    work = [[]]
    n = 0
    while work:
        p = work.pop()
        s = Script(p)
        n += 1
        if n > limit:
            raise Undecided("too many combinations")
        try:
            r = fn(s)
        except Skip:
            r = None
        if r:
            return r, n
        for i in range(len(p), len(s.taken)):
            c, m = s.taken[i]
            base = [x for x, _ in s.taken[:i]]
            for alt in range(m - 1, 0, -1):
                work.append(base + [alt])
    return None, n


class Sem:
    """Compare terms under the facts of a partition."""

    def __init__(self, ctx, script, opts):
        self.ctx = ctx
        self.s = script
        self.o = opts
        self.idx = {}        # header -> index
        self.val = {}        # atom key -> value
        self.vals = {}       # value atoms
        self.nums = None
        self.rest = None
        self.order = None
        self.desc = []
        self.busy = set()

    # -- helpers
    def arity(self):
        return self.o.get("arity", 2)

    def grid(self, forest, t):
        if forest in BOOLF:
            g = [0, 1]
            if forest not in ZS and "Undet" not in self.o["exclude"].get(forest, ()):
                g = [0, 1, BOT]
            return g
        g = self.numbers()
        k = self.ctx.kind_known(t)
        if forest == "zmdd" or (k != "Terminal" and "Undet" not in self.o["exclude"].get(forest, ())):
            g = g + [BOT]
        return g

    def numbers(self):
        """The values tried for a number: a small grid, and the surroundings of every constant the code compares with or returns."""
        if self.nums is None:
            g = list(self.o.get("grid", (0, 1, 2, 3)))
            far = set()
            for t in [x for r in self.ctx.relfacts if r[0] in ("val", "num") for x in (r[1], r[3])] + list(self.o.get("terms", ())):
                literals(t, far)
            for c in sorted(far, key=abs)[:3]:
                g += [x for x in (c - 1, c, c + 1) if x not in g]
            self.nums = g
        return list(self.nums)

    def index(self, h):
        h = self.ctx.canon(h)
        if h not in self.idx:
            n = self.arity() if not self.o.get("binary") else 2
            st = self.o.get("states")
            self.idx[h] = st[self.s.pick(len(st))] if st else self.s.pick(n)
            self.desc.append("%s=%d" % (tstr(h), self.idx[h]))
        return self.idx[h]

    def atom(self, forest, t, key=None):
        k = (t, key)
        if k not in self.val:
            g = self.grid(forest, t)
            self.val[k] = g[self.s.pick(len(g))]
            self.desc.append("%s%s->%s" % (tstr(t), "" if key is None else str(list(key)), self.val[k]))
            # children of an operation result that was inspected
            if t[0] == "ch" and self.ctx.canon(t[1])[0] in ("op", "rec") and forest not in ZS:
                p = self.ctx.canon(t[1])
                if self.index(("hdr", p)) == t[2] and self.ev(p, forest, raw=True) != self.val[k]:
                    raise Skip()
        return self.val[k]

    def const(self, i, forest):
        f = self.ctx.data["forests"][forest]
        k = f.static_kind(i)
        if k == "Zero":
            return 0
        if k == "One":
            return 1
        if k == "Undet":
            return BOT
        raise Undecided("literal node id %s of %s" % (i, forest))

    # -- full (non zero-suppressed) forests
    def ev(self, t, forest, raw=False):
        if forest in ZS:
            return self.evz(t, forest, None)
        ctx = self.ctx
        if not raw:
            t = ctx.canon(t)
        if isinstance(t, int):
            return self.const(t, forest)
        h = t[0]
        if h == "const":
            return self.num(t[2])
        if h == "op":
            fs, fn = PW[t[1]] if t[1] in PW else (None, None)
            if fn is None:
                raise Undecided("operation %s has no pointwise meaning" % t[1])
            return fn(*[self.ev(x, f) for x, f in zip(t[2:], fs)])
        if h == "mk":
            kids = t[3:]
            i = self.index(t[2])
            if i >= len(kids):
                raise Undecided("node with %d children" % len(kids))
            return self.ev(kids[i], forest)
        if h == "fun":
            return t[2](self, *t[3:])
        k = ctx.kind_known(t)
        if k == "NonTerminal":
            return self.ev(("ch", t, self.index(("hdr", t))), forest)
        return self.atom(forest, t)

    # -- numbers
    def num(self, t):
        if isinstance(t, (int, Fraction)):
            return t
        t = self.ctx.canon(t) if isinstance(t, tuple) else t
        if isinstance(t, (int, Fraction)):
            return t
        if isinstance(t, tuple):
            if t[0] == "tval":
                x = self.ctx.canon(t[1])
                f = self.ctx.forest_name(x)
                if f in ZS:
                    return self.atom(f, x, "tval")
                return self.atom(f, x)
            if t[0] in ("add", "sub", "mul"):
                a, b = self.num(t[1]), self.num(t[2])
                return a + b if t[0] == "add" else a - b if t[0] == "sub" else a * b
            if t[0] in ("div", "rem"):
                a, b = self.num(t[1]), self.num(t[2])
                r = tdiv(a, b) if t[0] == "div" else trem(a, b)
                if r == BOT:
                    raise Skip()
                return r
            if t[0] in ("min", "max"):
                a, b = self.num(t[1]), self.num(t[2])
                return min(a, b) if t[0] == "min" else max(a, b)
            if t[0] == "lin":
                return self.num(t[1]) + t[2]
        if t not in self.vals:
            g = self.numbers()
            self.vals[t] = g[self.s.pick(len(g))]
            self.desc.append("%s=%s" % (tstr(t), self.vals[t]))
        return self.vals[t]

    # -- zero-suppressed forests
    def classes(self):
        if self.order is None:
            ctx = self.ctx
            hs = set()
            for t, k in ctx.kinds.items():
                if k == "NonTerminal":
                    hs.add(ctx.canon(("hdr", t)))
            for t in self.o.get("terms", ()):
                for x in subterms(ctx.canon(t) if isinstance(t, tuple) else t):
                    if isinstance(x, tuple) and x and x[0] == "mk":
                        hs.add(ctx.canon(x[2]))
            hs = sorted(hs, key=repr)
            o = Order()
            src = ctx.order("level")
            for a, es in src.le.items():
                for b, st in es.items():
                    o._touch(a)
                    o._touch(b)
                    o.le[a][b] = st
            o.ne = set(src.ne)
            chain = []      # descending
            for h in hs:
                lv = ctx.canon(("level", h))
                pos = 0
                # insert into chain
                placed = False
                for i, x in enumerate(chain):
                    lx = ctx.canon(("level", x))
                    p = o.possible(lv, lx)
                    if p == {"="}:
                        raise Undecided("two headers on one level")
                    opts = [r for r in "<>" if r in p]
                    if not opts:
                        raise Skip()
                    r = opts[self.s.pick(len(opts))] if len(opts) > 1 else opts[0]
                    o.add(lv, r, lx)
                    if r == ">":
                        chain.insert(i, h)
                        placed = True
                        break
                if not placed:
                    chain.append(h)
            self.chain = chain
            self.order = o
        return self.chain

    def bits(self):
        return {h: self.index(h) for h in self.classes()}

    def restempty(self):
        if self.rest is None:
            self.rest = self.s.pick(2) == 0
            self.desc.append("rest %s" % ("empty" if self.rest else "non-empty"))
        return self.rest

    def evz(self, t, forest, bits, raw=False):
        ctx = self.ctx
        if not raw:
            t = ctx.canon(t)
        if bits is None:
            bits = self.bits()
        zero = 0 if forest == "zdd" else BOT
        if isinstance(t, int):
            k = ctx.data["forests"][forest].static_kind(t)
            if k == "Zero" or (k == "Undet" and forest == "zmdd"):
                return zero
            if k == "One":
                return int(all(v == 0 for v in bits.values()) and self.restempty())
            if k == "Undet" and self.o.get("universe"):
                return 1
            raise Undecided("constant %s in a set diagram" % k)
        h = t[0]
        if h == "const":
            if all(v == 0 for v in bits.values()) and self.restempty():
                return self.num(t[2])
            return zero
        if h == "op":
            if t[1] == "zdd.divide":
                return self.divz(t[2], t[3], bits)
            if t[1] not in PW:
                raise Undecided("operation %s has no pointwise meaning" % t[1])
            fs, fn = PW[t[1]]
            return fn(*[self.evz(x, f, bits) for x, f in zip(t[2:], fs)])
        if h == "mk":
            return self.split(ctx.canon(t[2]), t[3:], forest, bits, zero)
        k = ctx.kind_known(t)
        if k == "NonTerminal":
            n = 2 if forest == "zdd" else self.arity()
            return self.split(ctx.canon(("hdr", t)), [("ch", t, i) for i in range(n)], forest, bits, zero)
        if k == "Terminal":
            if all(v == 0 for v in bits.values()) and self.restempty():
                return self.atom(forest, t, "tval")
            return zero
        # atom
        return self.zatom(forest, t, bits, zero)

    def zatom(self, forest, t, bits, zero):
        ch = self.classes()
        lo = 0
        if t[0] == "ch":
            p = self.ctx.canon(("hdr", self.ctx.canon(t[1])))
            if p in ch:
                lo = ch.index(p) + 1
        for x in ch[:lo]:
            if bits[x] != 0:
                return zero
        return self.atom(forest, t, tuple(bits[x] for x in ch))

    def split(self, h, kids, forest, bits, zero):
        ch = self.classes()
        i = ch.index(h)
        for x in ch[:i]:
            if bits[x] != 0:
                return zero
        b = bits[h]
        if b >= len(kids):
            raise Undecided("node with %d children" % len(kids))
        nb = dict(bits)
        nb[h] = 0
        return self.evz(kids[b], forest, nb)

    def top(self, t):
        """(header, kids) if t is a known decision node."""
        ctx = self.ctx
        if isinstance(t, tuple):
            if t[0] == "mk":
                return ctx.canon(t[2]), list(t[3:])
            if ctx.kind_known(t) == "NonTerminal" and t[0] != "op":
                return ctx.canon(("hdr", t)), [("ch", t, i) for i in range(2)]
        return None, None

    def divz(self, f, g, bits):
        """p in f/g  iff  for all q in g: p and q disjoint and their union in f."""
        ctx = self.ctx
        f, g = ctx.canon(f), ctx.canon(g)
        F = ctx.data["forests"]["zdd"]
        kf = ctx.kind_known(f, F)
        kg = ctx.kind_known(g, F)
        if kg == "One":
            return self.evz(f, "zdd", bits)
        if kg == "Zero":
            return 1
        hf, cf = self.top(f)
        hg, cg = self.top(g)
        ch = self.classes()
        if hg is not None and kf in ("Zero", "One"):
            return 0
        if hf is not None and hg is not None:
            i, j = ch.index(hf), ch.index(hg)
            top = ch[min(i, j)]
            for x in ch[:min(i, j)]:
                if bits[x] != 0:
                    return 0
            nb = dict(bits)
            nb[top] = 0
            f0, f1 = cf if hf == top else (f, F.id_of("Zero"))
            if hg == top:
                if bits[top] != 0:
                    return 0
                if hf != top:
                    return 0
                return self.divz(f0, cg[0], nb) & self.divz(f1, cg[1], nb)
            return self.divz(f1 if bits[top] else f0, g, nb)
        if kf == "Zero" and kg is None:
            # empty unless g is empty: a function of g only
            return self.atom("zdd", ("op", "zdd.divide", f, g), tuple(bits[x] for x in ch))
        # a non-empty divisor (high children of canonical nodes are never empty) leaves only
        # variables of the dividend
        if isinstance(g, tuple) and g[0] == "ch" and g[2] == 1 and isinstance(f, tuple) and f[0] == "ch":
            p = ctx.canon(("hdr", ctx.canon(f[1])))
            if p in ch and any(bits[x] != 0 for x in ch[:ch.index(p) + 1]):
                return 0
        return self.atom("zdd", ("op", "zdd.divide", f, g), tuple(bits[x] for x in ch))

    # -- facts
    def consistent(self):
        ctx = self.ctx
        for a, b in ctx.eqfacts:
            f = ctx.forest_name(a) or ctx.forest_name(b)
            if f is None:
                continue
            # evaluated structurally: the identity itself must not be used
            if f in ZS:
                if not any(isinstance(x, tuple) and x[0] in ("op", "mk", "const") for x in (a, b)):
                    continue
                ch = self.classes()
                n = 2 if f == "zdd" else self.arity()
                for combo in itertools.product(range(n), repeat=len(ch)):
                    bits = dict(zip(ch, combo))
                    if self.evz(a, f, bits, True) != self.evz(b, f, bits, True):
                        raise Skip()
            elif self.ev(a, f, raw=True) != self.ev(b, f, raw=True):
                raise Skip()
        if self.o.get("consts"):
            for a, b in ctx.nefacts:
                f = ctx.forest_name(a) or ctx.forest_name(b)
                if f is not None and f not in ZS and self.ev(a, f) == self.ev(b, f):
                    raise Skip()
        for sort, a, r, b in ctx.relfacts:
            if sort not in ("val", "num", "int"):
                continue
            if sort == "int":
                continue
            x, y = self.num(a), self.num(b)
            if BOT in (x, y):
                raise Skip()
            okk = {"<": x < y, "=": x == y, ">": x > y, "!=": x != y, ">=": x >= y}[r]
            if not okk:
                raise Skip()
        return True


def literals(t, out, arith=True):
    """Numeric constants that take part in arithmetic or become terminal values."""
    if isinstance(t, (int, Fraction)) and not isinstance(t, bool):
        if arith:
            out.add(t)
        return
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ("add", "sub", "mul", "div", "rem", "min", "max", "lin"):
        for x in t[1:]:
            literals(x, out, True)
    elif t[0] == "const":
        literals(t[2], out, True)
    elif t[0] in ("op", "mk"):
        for x in t[2:]:
            literals(x, out, False)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def differ(ctx, a, b, forest, opts):
    """None if the two terms denote the same diagram, else a witness description."""
    opts = dict(opts)
    opts["terms"] = [a, b]

    def one(s):
        e = Sem(ctx, s, opts)
        x = e.ev(a, forest)
        y = e.ev(b, forest)
        if x == y:
            return None
        e.consistent()
        return ", ".join(e.desc) + ": result %s, expected %s" % (x, y)
    r, n = enum_scripts(one)
    return r, n


def feasible(ctx, opts):
    """Some combination satisfies the facts."""
    opts = dict(opts)
    opts["terms"] = []

    def one(s):
        e = Sem(ctx, s, opts)
        e.consistent()
        return True
    r, n = enum_scripts(one)
    return bool(r)
