"""Gates with many operands.

The operations on diagrams are contracts whose results are followed at chosen assignments of the
operands (values of all operands at once, as vectors), so a gate over hundreds of operands costs one
pass through its code.  A result that differs from the gate's meaning at one of the assignments is a
violation; agreement at the chosen assignments is what is reported as covered."""
from . import sem
from .core import *
from .lab import *
from .g_wrap import Handles
from .g_diag import Side, root
from .report import Group


class Vectors:
    """Values of diagrams at the chosen assignments; an operation result is an atom with its vector."""

    def __init__(self, world, ctx, inputs, n):
        self.w, self.ctx, self.n = world, ctx, n
        self.vec = dict(inputs)
        self.made = {}

    def of(self, f, t):
        t = self.ctx.canon(t)
        if t in self.vec:
            return self.vec[t]
        if isinstance(t, int):
            st = self.w.forests[f].static()
            if t < len(st) and st[t] in ("Zero", "One", "Undet"):
                return ({"Zero": 0, "One": 1, "Undet": sem.BOT}[st[t]],) * self.n
        if isinstance(t, tuple) and t[0] == "const" and isinstance(t[2], int):
            return (t[2],) * self.n
        return None

    def full(self, t):
        return t

    def __call__(self, name, ts):
        if name not in sem.PW:
            return None
        fs, fn = sem.PW[name]
        vs = [self.of(f, t) for f, t in zip(fs, ts)]
        if any(v is None for v in vs):
            return None
        k = (name,) + tuple(ts)
        if k not in self.made:
            t = self.made[k] = root("#%d" % len(self.made), name.split(".")[0])
            self.vec[t] = tuple(fn(*xs) for xs in zip(*vs))
        return self.made[k]


class ManyLab(Lab):
    """Diagrams that differ at a chosen assignment are different nodes."""

    def interp(self, ctx, hooks=None):
        it = super().interp(ctx, hooks)
        it.depth_limit = 400
        it.step_limit = 4000000
        return it

    def same_ok(self, ctx, a, b):
        v = ctx.data.get("ground")
        if v is not None:
            f = [t[2] for t in (a, b) if isinstance(t, tuple) and t[0] == "n"]
            va, vb = [v.of(f[0], t) if f else None for t in (a, b)]
            if va is not None and vb is not None and va != vb:
                return None
        return super().same_ok(ctx, a, b)


def samples(n, boolean):
    """Assignments of n operands: prefixes and suffixes that hold, single operands that differ."""
    out = []
    for c in sorted(set(list(range(0, min(n, 12))) + list(range(max(0, n - 12), n + 1)) + [n // 2, n // 3, 62, 63, 64, 65, 66, 127, 128, 129])):
        if c <= n:
            out.append([int(i < c) for i in range(n)])
            out.append([int(i >= n - c) for i in range(n)])
            out.append([int((i * 7 + 3) % n < c) for i in range(n)] if n else [])
    for j in range(n):
        out.append([int(i != j) for i in range(n)])
        out.append([int(i == j) for i in range(n)])
    if not boolean:
        out = [[v * 3 - 1 for v in a] for a in out] + [[i - n // 2 for i in range(n)], [n // 2 - i for i in range(n)]]
    return out


def many(world, side, tier):
    g = Group("many:" + side, "gates over many operands mean the same as over few")
    hs = Handles(world, "bdd" if side == "bdd" else "mt")
    if side == "bdd":
        sizes = [(20, 12), (9, 9), (66, 65), (130, 65), (300, 3)]
        if tier != "quick":
            sizes += [(140, 129), (150, 70), (270, 5)]
        plans = [("kofn", "bdd", n, k) for n, k in sizes] + [("and", "bdd", 270, None), ("or", "bdd", 270, None)]
    else:
        plans = [(op, "mdd", 270, None) for op in ("and", "or")] + [(op, "mtmdd", 270, None) for op in ("min", "max")]
    mean = {"and": min, "or": max, "min": min, "max": max}
    for name, f, n, k in plans:
        body = world.need(hs.crate, hs.mgr, name)
        asg = samples(n, f != "mtmdd")

        def entry(lab, it):
            m = hs.manager(lab, it)
            xs = [Side(world, f, lab.H).handle(lab, it, "q%d" % i) for i in range(n)]
            it.ctx.fact("%d operands%s" % (n, "" if k is None else ", k = %d" % k))
            it.ctx.data["ground"] = Vectors(world, it.ctx, {it.ctx.canon(root("q%d" % i, f)): tuple(a[i] for a in asg) for i in range(n)}, len(asg))
            return it.run(body, [Ref(Cell(m))] + ([] if k is None else [k]) + [slicev(xs)])

        def check(lab, it, ctx, v):
            rf, t = hs.read(it, v)
            got = ctx.data["ground"].of(rf, t)
            if got is None:
                raise Undecided("result %s" % tstr(ctx.canon(t)))
            for a, x in zip(asg, got):
                want = int(sum(a) >= k) if k is not None else mean[name](a)
                if x != want:
                    on = [i for i, y in enumerate(a) if y == max(a)]
                    return "is %s instead of %s where operands %s.. (%d of %d) are %s" % (x, want, on[:3], len(on), n, max(a))
            return None
        r = LabRun(g, lambda: ManyLab(world, H3 if side == "bdd" else M22, {f: {"Undet"}}), entry, check, [], body, limit=50)
        r.rules = "%s over many operands" % name
        r.phase(None, ())
    g.need("gates over many operands", 4)
    return g
