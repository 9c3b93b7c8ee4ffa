"""The user-facing layer: handles, managers, n-ary gates, tagged value/Boolean nodes, variables.

The diagram operations of the cores are contracts here (verified by the ops groups); handles
point at arbitrary diagrams.  What is decided is that each public entry point applies the right
operations to the right operands, in order, and returns a handle on exactly that diagram."""
import itertools
from .core import *
from .lab import *
from . import sem
from .sem import BOT, differ
from .g_diag import Side, root, kind_of, UND
from .g_walk import ZWalk
from .report import Group

TAG = {"mdd": "Bool", "mtmdd": "Value"}
NAMES = "fghuvw"
OPTS = {"arity": 2, "grid": (-2, -1, 0, 1, 2, 3), "exclude": {"bdd": {"Undet"}, "zdd": {"Undet"}, "mdd": {"Undet"}, "mtmdd": {"Undet"}}}


def opts(forest):
    o = dict(OPTS)
    if forest == "zmdd":
        o["exclude"] = {}
    return o


def variant(world, name):
    """Index of a tag of the combined node type."""
    for a in world.prog.adts.values():
        if str(a["key"]).endswith("mtmdd2::Node"):
            for i, v in enumerate(a["variants"]):
                if v["name"] == name:
                    return a["key"], i
    from .forest import Missing
    raise Missing("mddcore::mtmdd2::Node::" + name)


def tagged(world, forest, v):
    k, i = variant(world, TAG[forest])
    return Agg(k, i, [v])


def untag(it, world, v):
    """(forest, node term) of a combined node."""
    v = it.force(it.load(v))
    if not isinstance(v, Agg) or len(v.fields) != 1:
        raise Undecided("node value %r" % (v,))
    for f in TAG:
        if variant(world, TAG[f])[1] == v.variant:
            x = it.load(v.fields[0])
            return f, (it.ctx.canon(x.t) if isinstance(x, S) else x)
    raise Undecided("node value %r" % (v,))


def fold(f, op, xs, start):
    """n-ary operation as a specification term."""
    fn = {"and": min, "or": max, "min": min, "max": max}[op]

    def ev(s, *ts):
        vs = [s.ev(t, f) for t in ts]
        return start if not vs else fn(vs)
    return ("fun", "%s of all" % op, ev) + tuple(xs)


def kofn(k, xs):
    return ("fun", "at least %d of" % k, lambda s, *ts: int(sum(s.ev(t, "bdd") for t in ts) >= k)) + tuple(xs)


def undet(forest):
    return ("fun", "undetermined", lambda s: BOT)


class Handles:
    """Handles of one side on arbitrary diagrams, and reading of results."""

    def __init__(self, world, side, via=None):
        self.w, self.side = world, side
        self.via = via            # system manager that owns the diagram manager
        self.crate = "bss" if side in ("bdd", "zdd") else "mss"
        self.mgr = {"bdd": "BddMgr", "zdd": "ZddMgr", "mt": "MddMgr", "zmdd": "ZmddMgr"}[side]
        self.node = {"bdd": "BddNode", "zdd": "ZddNode", "mt": "MddNode", "zmdd": "ZmddNode"}[side]

    def lab(self):
        return Lab(self.w, H3 if self.crate == "bss" else M22, {} if self.side == "zmdd" else UND)

    def manager(self, lab, it):
        """The manager value whose methods are called."""
        m = lab.manager(it, self.crate, self.via or self.mgr)
        inner = m
        if self.via:
            inner = [x for x in it.force(m).fields if isinstance(x, Agg) and str(x.adt).endswith("::" + self.mgr)]
            if not inner:
                raise Undecided("no %s in the manager" % self.mgr)
            inner = inner[0]
        it.ctx.data["mgr"] = inner
        return m

    def handle(self, lab, it, i, forest):
        if self.side == "zmdd":
            return ZWalk(self.w, lab.H, it.ctx.data.get("rev", False)).handle(lab, it, NAMES[i])
        return Side(self.w, forest, lab.H).handle(lab, it, NAMES[i])

    def read(self, it, h):
        """(forest, node term) of a handle."""
        h = it.force(it.load(h))
        if not isinstance(h, Agg) or not str(h.adt).endswith("::" + self.node):
            raise Undecided("result %r" % (h,))
        if self.side == "mt":
            for x in h.fields:
                if isinstance(x, Agg) and str(x.adt).endswith("mtmdd2::Node"):
                    return untag(it, self.w, x)
            raise Undecided("no node in the handle")
        return self.side, node_of_handle(it, h)

    def same_manager(self, it, h, m):
        """The handle belongs to the manager."""
        rc = [x.cell for x in it.force(m).fields if isinstance(x, RcV)]
        for x in it.force(it.load(h)).fields:
            if isinstance(x, RcV) and x.weak and not any(x.cell is c for c in rc):
                return False
        return True


def expect(world, hs, it, ctx, v, want):
    """Witness unless handle v denotes the wanted (forest, spec)."""
    f, t = hs.read(it, v)
    wf, spec = want
    if f != wf:
        return "the result is a %s diagram" % {"mdd": "Boolean", "mtmdd": "value"}.get(f, f)
    if not hs.same_manager(it, v, ctx.data["mgr"]):
        return "the result belongs to another manager"
    w, _ = differ(ctx, t, spec, f, opts(f))
    return w


def spec_op(name, *xs):
    return ("op", name) + xs


BOOLS = ("and", "or", "xor", "not", "ite")


def handle_ops(side):
    """(method, operand forests, result forest, spec) of the handle methods."""
    f, g, h = "fgh"
    out = []

    def r(i, fo):
        return root(NAMES[i], fo)
    if side == "bdd":
        for n in ("and", "or", "xor"):
            out.append((n, ["bdd", "bdd"], "bdd", spec_op("bdd." + n, r(0, "bdd"), r(1, "bdd"))))
        out.append(("not", ["bdd"], "bdd", spec_op("bdd.not", r(0, "bdd"))))
        out.append(("ite", ["bdd"] * 3, "bdd", spec_op("bdd.ite", *[r(i, "bdd") for i in range(3)])))
    elif side == "zdd":
        for n in ("union", "intersect", "setdiff", "product", "divide"):
            out.append((n, ["zdd", "zdd"], "zdd", spec_op("zdd." + n, r(0, "zdd"), r(1, "zdd"))))
    elif side == "zmdd":
        for n in ("intersect", "setdiff"):
            out.append((n, ["zmdd", "zmdd"], "zmdd", spec_op("zmdd." + n, r(0, "zmdd"), r(1, "zmdd"))))
    else:
        v2 = [r(0, "mtmdd"), r(1, "mtmdd")]
        b2 = [r(0, "mdd"), r(1, "mdd")]
        for n in ("add", "sub", "mul", "div", "min", "max"):
            out.append((n, ["mtmdd"] * 2, "mtmdd", spec_op("mtmdd." + n, *v2)))
        for n, o in (("eq", "veq"), ("ne", "vneq"), ("lt", "vlt"), ("le", "vlte"), ("gt", "vgt"), ("ge", "vgte")):
            out.append((n, ["mtmdd"] * 2, "mdd", spec_op("mdd." + o, *v2)))
        for n, o in (("eq", "xnor"), ("ne", "xor"), ("and", "and"), ("or", "or"), ("xor", "xor")):
            out.append((n, ["mdd"] * 2, "mdd", spec_op("mdd." + o, *b2)))
        out.append(("not", ["mdd"], "mdd", spec_op("mdd.not", b2[0])))
        out.append(("ite", ["mdd"] * 3, "mdd", spec_op("mdd.ite", r(0, "mdd"), r(1, "mdd"), r(2, "mdd"))))
        out.append(("ite", ["mdd", "mtmdd", "mtmdd"], "mtmdd", spec_op("mtmdd.vite", r(0, "mdd"), r(1, "mtmdd"), r(2, "mtmdd"))))
    return out


def zset_same(ctx, t, spec, forest):
    """Set-family results are compared as operation terms where no pointwise reading exists."""
    return t == ctx.canon(spec)


def drive(g, hs, body, entry, check, rule, limit=4000, hooks=None, specs=()):
    r = LabRun(g, hs.lab, entry, check, list(specs), body, limit=limit, hooks=hooks)
    r.rules = rule
    r.go()


def handles(world, side, tier):
    """Operations on handles."""
    g = Group("handle:" + side, "a method on handles returns a handle on the operation of exactly its operands, in order")
    hs = Handles(world, side)
    n = 0
    for name, args, res, spec in handle_ops(side):
        body = world.need(hs.crate, hs.node, name)
        n += 1

        def entry(lab, it, body=body, args=args):
            m = hs.manager(lab, it)
            if side == "zmdd":
                it.ctx.data["rev"] = it.ctx.choose(2) == 1
            xs = [hs.handle(lab, it, i, f) for i, f in enumerate(args)]
            return it.run(body, [Ref(Cell(x)) for x in xs])

        def check(lab, it, ctx, v, res=res, spec=spec):
            if res in ("zdd", "zmdd"):
                f, t = hs.read(it, v)
                if not hs.same_manager(it, v, ctx.data["mgr"]):
                    return "the result belongs to another manager"
                if res == "zmdd":
                    revs = [x for x in it.force(v).fields if isinstance(x, bool)]
                    if revs and revs[0] != ctx.data["rev"]:
                        return "a %s family becomes a %s family" % (("cut", "path") if ctx.data["rev"] else ("path", "cut"))
                if t == ctx.canon(spec):
                    return None
                if spec[1] in ("zdd.product", "zdd.divide") or any(isinstance(x, tuple) and x and x[:2] in (("op", "zdd.product"), ("op", "zdd.divide")) for x in sem.subterms(t)):
                    if isinstance(t, tuple) and t[0] == "op" and t[1] == "zdd.product" and spec[1] == t[1] and set(t[2:]) == set(spec[2:]):
                        return None
                    if isinstance(t, tuple) and (t[0] != "op" or all(isinstance(ctx.canon(x), tuple) and ctx.canon(x)[0] == "n" for x in t[2:])):
                        return "returns %s instead of %s" % (tstr(t), tstr(spec))
                    raise Undecided("result %s" % tstr(t))
                return differ(ctx, t, spec, res, opts(res))[0]
            return expect(world, hs, it, ctx, v, (res, spec))
        drive(g, hs, body, entry, check, "handle method %s" % name)
    if side in ("bdd", "zdd"):
        body = world.need(hs.crate, hs.node, "eq")

        def entry(lab, it, body=body):
            hs.manager(lab, it)
            xs = [hs.handle(lab, it, i, side) for i in range(2)]
            return it.run(body, [Ref(Cell(x)) for x in xs])

        def check(lab, it, ctx, v):
            a, b = ctx.canon(root("f", side)), ctx.canon(root("g", side))
            if not isinstance(v, bool):
                raise Undecided("result %r" % (v,))
            same = True if a == b else False if (a, b) in ctx.neq or (b, a) in ctx.neq else None
            if same is None or same != v:
                return "eq is %s for %s handles" % (v, {True: "equal", False: "different", None: "arbitrary"}[same])
            return None
        drive(g, hs, body, entry, check, "handles are equal exactly when they are on the same node")
        n += 1
    g.need("handle operations of " + side, n)
    return g


# ---------------------------------------------------------------------------
def nary(world, side, tier):
    """Gates over any number of operands."""
    g = Group("nary:" + side, "an n-ary gate is the fold of its operands; k-of-n is the threshold function")
    top = 3 if tier == "quick" else 4
    if side == "bdd":
        plans = [("and", "bdd", 1, 0), ("or", "bdd", 0, 0), ("kofn", "bdd", None, 0)]
        managers = [None, "BssMgr"]
    else:
        plans = [("and", "mdd", 1, 0), ("or", "mdd", 0, 0), ("min", "mtmdd", None, 1), ("max", "mtmdd", None, 1)]
        managers = [None, "MssMgr"]
    for via in managers:
        hs = Handles(world, "bdd" if side == "bdd" else "mt", via)
        for name, f, start, least in plans:
            body = world.need(hs.crate, via or hs.mgr, name)

            def entry(lab, it, body=body, name=name, f=f, least=least):
                m = hs.manager(lab, it)
                n = least + it.ctx.choose(top + 1 - least)
                xs = [hs.handle(lab, it, i, f) for i in range(n)]
                it.ctx.data["n"] = n
                it.ctx.fact("%d operands" % n)
                args = [Ref(Cell(m)), slicev(xs)]
                if name == "kofn":
                    k = it.ctx.data["k"] = it.ctx.choose(n + 2)
                    it.ctx.fact("k = %d" % k)
                    args.insert(1, k)
                return it.run(body, args)

            def check(lab, it, ctx, v, name=name, f=f, start=start):
                xs = [root(NAMES[i], f) for i in range(ctx.data["n"])]
                spec = kofn(ctx.data["k"], xs) if name == "kofn" else fold(f, name, xs, start)
                return expect(world, hs, it, ctx, v, (f, spec))
            drive(g, hs, body, entry, check, "%s over any number of operands" % name)
    g.need("n-ary gates of " + side, 12)
    return g


# ---------------------------------------------------------------------------
MT2 = [("and", "bb", "mdd.and"), ("or", "bb", "mdd.or"), ("xor", "bb", "mdd.xor"), ("not", "b", "mdd.not"),
       ("add", "vv", "mtmdd.add"), ("sub", "vv", "mtmdd.sub"), ("mul", "vv", "mtmdd.mul"), ("div", "vv", "mtmdd.div"),
       ("min", "vv", "mtmdd.min"), ("max", "vv", "mtmdd.max"),
       ("eq", "vv", "mdd.veq"), ("eq", "bb", "mdd.xnor"), ("neq", "vv", "mdd.vneq"), ("neq", "bb", "mdd.xor"),
       ("lt", "vv", "mdd.vlt"), ("lte", "vv", "mdd.vlte"), ("gt", "vv", "mdd.vgt"), ("gte", "vv", "mdd.vgte"),
       ("ite", "bbb", "mdd.ite"), ("ite", "bvv", "mtmdd.vite")]
KIND = {"b": "mdd", "v": "mtmdd"}


def tags(world, tier):
    """The combined manager: dispatch on value/Boolean nodes."""
    g = Group("tagged", "an operation on tagged nodes is the operation of the sub-forest its operands belong to; other operand kinds give the undetermined node")
    hs = Handles(world, "mt")

    def run(name, entry, check, rule):
        body = world.need("mddcore", "MtMdd2Manager", name)
        drive(g, hs, body, lambda lab, it: entry(lab, it, body), check, rule)

    def mk(it, lab):
        b = world.need("mddcore", "MtMdd2Manager", "new")
        m = it.run(b, [])
        world.symbolise(it, m, "mt2")
        lab.fix_headers(it, m)
        return m
    tab = {}
    for n, ks, op in MT2:
        tab.setdefault(n, {})[ks] = op
    for name, rows in sorted(tab.items()):
        k = len(next(iter(rows)))
        sig = ["".join(p) for p in itertools.product("bv", repeat=k)]
        if name == "ite":
            sig = [s for s in sig if s[1] == s[2]]      # branches of different kinds have no result kind

        def entry(lab, it, body, sig=sig):
            m = mk(it, lab)
            s = sig[it.ctx.choose(len(sig))]
            it.ctx.data["sig"] = s
            it.ctx.fact("operands " + " ".join({"b": "Boolean", "v": "value"}[c] for c in s))
            return it.run(body, [Ref(Cell(m))] + [tagged(world, KIND[c], S(root(NAMES[i], KIND[c]), "node")) for i, c in enumerate(s)])

        def check(lab, it, ctx, v, name=name, rows=rows):
            s = ctx.data["sig"]
            f, t = untag(it, world, v)
            if s in rows:
                want = rows[s].split(".")[0]
                spec = ("op", rows[s]) + tuple(root(NAMES[i], KIND[c]) for i, c in enumerate(s))
            else:
                want = KIND[s[1]] if name == "ite" else next(iter(rows.values())).split(".")[0]
                spec = undet(want)
            if f != want:
                return "the result is a %s node" % TAG[f]
            return differ(ctx, t, spec, f, opts(f))[0]
        run(name, entry, check, "tagged %s" % name)
    for name, f, k in (("one", "mdd", "One"), ("zero", "mdd", "Zero"), ("undet_boolean", "mdd", "Undet"), ("undet_value", "mtmdd", "Undet")):
        def entry(lab, it, body):
            return it.run(body, [Ref(Cell(mk(it, lab)))])

        def check(lab, it, ctx, v, f=f, k=k):
            g2, t = untag(it, world, v)
            if g2 != f or kind_of(ctx, t, f) != k:
                return "returns %s %s" % (TAG[g2], tstr(t))
            return None
        run(name, entry, check, "constant %s" % name)

    def entry(lab, it, body):
        return it.run(body, [Ref(Cell(mk(it, lab))), S(("c",), "val")])

    def check(lab, it, ctx, v):
        f, t = untag(it, world, v)
        if f != "mtmdd" or t != ("const", "mtmdd", ("c",)):
            return "returns %s %s" % (TAG[f], tstr(t))
        return None
    run("value", entry, check, "constant value")

    def entry(lab, it, body):
        m = mk(it, lab)
        f = ("mdd", "mtmdd")[it.ctx.choose(2)]
        it.ctx.data["f"] = f
        it.ctx.fact("%s children" % TAG[f])
        return it.run(body, [Ref(Cell(m)), 1, slicev([tagged(world, f, S(root(NAMES[i], f), "node")) for i in range(2)])])

    def check(lab, it, ctx, v):
        f = ctx.data["f"]
        g2, t = untag(it, world, v)
        want = ("mk", f, 1, root("f", f), root("g", f))
        if g2 != f or t != want:
            return "returns %s %s" % (TAG[g2], tstr(t))
        return None
    run("create_node", entry, check, "a node with the given children in their forest")

    def entry(lab, it, body):
        m = it.run(world.need("mddcore", "MtMdd2Manager", "new"), [])
        ids = []
        for i, (lv, lb, rg) in enumerate(M3):
            ids.append(it.run(body, [Ref(Cell(m)), lv, lb, rg]))
        it.ctx.data["ids"] = ids
        out = []
        for f, acc in (("mdd", "mdd"), ("mtmdd", "mtmdd")):
            sub = it.run(world.need("mddcore", "MtMdd2Manager", acc), [Ref(Cell(m))])
            fo = world.forests[f]
            gh = world.need(fo.crate, fo.mgr, "get_header")
            for i, h in enumerate(ids):
                x = it.force(it.run(gh, [sub, Ref(Cell(h))]))
                if x.variant != 1:
                    out.append((f, None))
                    continue
                out.append((f, tuple(it.load(it.run(world.need("common", "NodeHeader", m2), [x.fields[0]])) for m2 in ("level", "label", "edge_num"))))
        return out

    def check(lab, it, ctx, v):
        for (f, got), want in zip(v, [tuple(h) for h in M3] * 2):
            if got != want:
                return "the %s forest records variable %s as %s" % (f, want, got)
        return None
    run("create_header", entry, check, "a variable is the same in both sub-forests")
    g.need("tagged operations", 30)
    return g
