"""Expressions in reverse Polish notation, and the variables they define.

Every token sequence up to a bound over representatives of all token classes of the documented
grammar, applied on top of operand prefixes, is followed through the parser; the diagram
operations are contracts, so each expression stands for its result over all diagrams its tokens
can denote.  The oracle is a stack machine over specification terms."""
from .core import *
from .lab import *
from .sem import differ
from .g_wrap import Handles, MT2, untag, opts, TAG, KIND
from .report import Group

ANY = "any"


class Fail(Exception):
    pass


class Free(Exception):
    """The documentation does not say what happens."""


class Oracle:
    """The documented meaning of token sequences."""

    def __init__(self, world, side, ranges=None):
        self.w, self.side = world, side
        self.vars = []            # (name, range) in order of first use
        self.ranges = ranges or {}
        self.stack = []
        self.saved = {}
        if side == "bdd":
            st = world.forests["bdd"]
            self.const = {"0": st.id_of("Zero"), "False": st.id_of("Zero"), "1": st.id_of("One"), "True": st.id_of("One")}
            self.un = {"~": "not"}
            self.bi = {"&": "and", "|": "or", "^": "xor"}
        else:
            st = world.forests["mdd"]
            self.const = {"False": st.id_of("Zero"), "True": st.id_of("One")}
            self.un = {"!": "not"}
            self.bi = {"+": "add", "-": "sub", "*": "mul", "/": "div", "min": "min", "max": "max", "==": "eq", "!=": "neq",
                       "<": "lt", "<=": "lte", ">": "gt", ">=": "gte", "&&": "and", "||": "or"}
            self.rows = {}
            for n, ks, op in MT2:
                self.rows.setdefault(n, {})[ks] = op
        self.bool = "bdd" if side == "bdd" else "mdd"

    def define(self, name, rng=2):
        if name not in [v for v, _ in self.vars]:
            self.vars.append((name, rng))
        return ("var", name)

    def begin(self):
        self.stack, self.saved = [], {}

    def apply(self, op, xs):
        if self.side == "bdd":
            return ("bdd", ("op", "bdd." + op) + tuple(t for _, t in xs))
        ks = "".join({"mdd": "b", "mtmdd": "v"}[k] for k, _ in xs)
        rows = self.rows[op]
        if ks in rows:
            return (rows[ks].split(".")[0], ("op", rows[ks]) + tuple(t for _, t in xs))
        if op == "ite":
            if ks[1] != ks[2]:
                raise Free()
            f = KIND[ks[1]]
        else:
            f = next(iter(rows.values())).split(".")[0]
        return (f, self.w.forests[f].id_of("Undet"))

    def token(self, t):
        s = self.stack

        def take(n):
            if len(s) < n:
                raise Fail()
            r = s[len(s) - n:]
            del s[len(s) - n:]
            return r
        if t in self.const:
            s.append((self.bool, self.const[t]))
        elif t in self.un:
            s.append(self.apply(self.un[t], take(1)))
        elif t in self.bi:
            s.append(self.apply(self.bi[t], take(2)))
        elif t == "?":
            s.append(self.apply("ite", take(3)))
        elif t.startswith("save(") and t.endswith(")"):
            if not s:
                raise Fail()
            self.saved[t[5:-1]] = s[-1]
        elif t.startswith("load(") and t.endswith(")"):
            if t[5:-1] not in self.saved:
                raise Fail()
            s.append(self.saved[t[5:-1]])
        elif self.side == "bdd":
            s.append(("bdd", self.define(t)))
        elif t.lstrip("+-").isdigit():
            s.append(("mtmdd", ("const", "mtmdd", int(t))))
        elif t in self.ranges:
            s.append(("mtmdd", self.define(t, self.ranges[t])))
        else:
            raise Free()

    def collapse(self):
        """Tokens that join the operands left on the stack, telling their order apart."""
        ks = [k for k, _ in self.stack]
        out = []
        while len(ks) > 1:
            if len(ks) > 2 and len(set(ks[-3:])) == 1 and ks[-1] != "mtmdd":
                out.append("?")
                del ks[-2:]
                continue
            if self.side == "bdd":
                out += ["~", "&"]
                ks.pop()
                continue
            a, b = ks[-2:]
            if a == b == "mtmdd":
                out += ["2", "*", "-"]
            elif a == b:
                out += ["!", "&&"]
            elif b == "mdd":
                out += ["1", "0", "?", "-"]
            else:
                out += ["1", ">", "!", "&&"]
            ks.pop()
        return out

    def result(self):
        if len(self.stack) != 1:
            raise Fail()
        return self.stack[0]


class ExprLab(Lab):
    """A manager without variables; its tables are arbitrary otherwise."""

    def headers_seq(self, it, f):
        return Seq([])


def cores(world, v, out=None, seen=None):
    """The forest managers inside a wrapper manager."""
    out = {} if out is None else out
    if isinstance(v, Agg):
        for n, f in world.forests.items():
            if v.adt == f.adt:
                out[n] = v
                return out
        for x in v.fields:
            cores(world, x, out)
    elif isinstance(v, (RcV, BoxV, RefCellV)):
        if not (isinstance(v, RcV) and v.weak):
            cores(world, v.cell.v, out)
    return out


class Vars:
    """The variable table a manager ends up with."""

    def __init__(self, world, it, m, forest, n):
        self.by = {}
        f = world.forests[forest]
        core = cores(world, m).get(forest)
        if core is None:
            raise Undecided("no %s forest in the manager" % forest)
        gh = world.need(f.crate, f.mgr, "get_header")
        rd = [world.need("common", "NodeHeader", x) for x in ("level", "label", "edge_num")]
        for h in range(n + 1):
            x = it.force(it.run(gh, [Ref(Cell(core)), Ref(Cell(h))]))
            if x.variant == 1:
                lv, lb, rg = [it.load(it.run(b, [x.fields[0]])) for b in rd]
                self.by.setdefault(lb, []).append((h, lv, rg))

    def check(self, want):
        """want: [(name, range)] by level."""
        for i, (n, r) in enumerate(want):
            if n not in self.by:
                return "variable %s is not in the table" % n
            if len(self.by[n]) != 1:
                return "variable %s is defined %d times" % (n, len(self.by[n]))
            h, lv, rg = self.by[n][0]
            if lv != i or (rg != r):
                return "variable %s is at level %s with %s states instead of level %d with %d" % (n, lv, rg, i, r)
        for n in self.by:
            if n not in [v for v, _ in want]:
                return "variable %s is defined" % n
        return None

    def term(self, t, forest):
        """Resolve variable references of a specification."""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "var":
            h, lv, rg = self.by[t[1]][0]
            if forest == "bdd":
                return ("mk", "bdd", h, self.zero, self.one)
            return ("mk", "mtmdd", h) + tuple(("const", "mtmdd", i) for i in range(rg))
        return tuple(self.term(x, forest) for x in t)


BDDTOK = ["&", "|", "^", "~", "?", "0", "1", "False", "True", "save(a)", "load(a)", "save(bc)", "load(bc)", "A", "D"]
BDDTOK3 = ["&", "|", "~", "?", "0", "1", "save(a)", "load(a)", "save(bc)", "load(bc)", "A", "D"]
BDDPRE = [[], ["A"], ["A", "B"], ["A", "B", "C"], ["A", "save(a)", "B"]]
ODD = ["save", "save(", "load(", "TRUE", "&&", "x(a)", "10", "and"]
MTTOK = ["+", "-", "*", "/", "min", "max", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "?", "True", "False",
         "2", "-1", "+3", "save(a)", "load(a)", "save(bc)", "load(bc)", "x", "z"]
MTTOK3 = ["-", "*", "min", "<", "==", "&&", "!", "?", "True", "2", "save(a)", "load(a)", "load(bc)", "x", "z"]
MTPRE = [[], ["x"], ["x", "y"], ["x", "y", ">"], ["x", "y", ">", "x", "y"], ["x", "y", ">", "y", "0", "==", "x", "1", "=="], ["y", "y", "0", "=="], ["x", "save(a)", "y"]]
RANGES = {"x": 3, "y": 3, "z": 3, "w": 2, "X": 2, "xx": 3, "x_1": 2, "x_2": 3}
# different names that a careless comparison takes for the same
ALIKE = [("a", "A"), ("a", "aa"), ("aa", "ab"), ("ba", "ca"), ("1", "01"), ("1", "+1"), ("n1", "n10"), ("a_b", "a-b"), ("a.b", "a_b"), ("Id", "id"),
         ("a-long-name-1", "a-long-name-2")]
ALIKEVARS = [("x", "X"), ("x", "xx"), ("x_1", "x_2"), ("xx", "x_1")]


def alike(bss):
    x, y = ("A", "B") if bss else ("x", "y")
    out = []
    for a, b in ALIKE:
        for n, m in ((a, b), (b, a)):
            out.append([x, "save(%s)" % n, y, "save(%s)" % m] + (["&", "~", "load(%s)" % n, "^"] if bss else ["-", "2", "*", "load(%s)" % n, "-"]))
            out.append([x, "save(%s)" % n, "load(%s)" % m] + ["&" if bss else "+"])
    for n, m in ALIKEVARS:
        out.append([n, m, "~", "&", n, "^"] if bss else [n, m, "2", "*", "-", n, "min"])
    return out



def rpn(world, arg, tier):
    side, part = arg.split("-")
    g = Group("rpn:" + arg, "rpn(text) is the documented stack evaluation of its tokens; Err exactly for the documented errors")
    bss = side == "bdd"
    crate = "bss" if bss else "mss"
    forest = "bdd" if bss else "mtmdd"
    st = world.forests[forest]

    def mklab():
        return ExprLab(world, [(i, "v%d" % i, 2 if bss else 3) for i in range(6)], {})

    def run(via, pre, alphabet, window, rule, second=False, odd=False):
        hs = Handles(world, "bdd" if bss else "mt", via)
        body = world.need(crate, via or hs.mgr, "rpn")

        def entry(lab, it):
            ctx = it.ctx
            m = hs.manager(lab, it)
            o = Oracle(world, side, RANGES)
            calls = ctx.data["calls"] = []
            ctx.data["m"] = m
            n = 0
            while True:
                o.begin()
                toks = list(pre[ctx.choose(len(pre))]) if n == 0 or second else []
                want = None
                try:
                    for t in toks:
                        o.token(t)
                    if n == 0 or not odd:
                        for _ in range(window):
                            t = alphabet[ctx.choose(len(alphabet))]
                            toks.append(t)
                            o.token(t)
                    if len(o.stack) > 1 and ctx.choose(2) == 0:
                        for t in o.collapse():
                            toks.append(t)
                            o.token(t)
                    want = ("ok",) + o.result()
                except Fail:
                    want = ("err",)
                except Free:
                    raise Infeasible()
                ctx.fact("rpn(%r)" % " ".join(toks))
                args = [Ref(Cell(m)), " ".join(toks)]
                if not bss:
                    args.append(Ref(Cell(mkmap(list(RANGES.items())))))
                v = it.run(body, args)
                calls.append((" ".join(toks), want, v))
                n += 1
                if not second or n == 2:
                    break
            ctx.data["vars"] = o.vars
            return v

        def check(lab, it, ctx, v):
            vs = Vars(world, it, ctx.data["m"], forest, len(ctx.data["vars"]) + 1)
            if bss:
                vs.zero, vs.one = st.id_of("Zero"), st.id_of("One")
            w = vs.check(ctx.data["vars"])
            if w:
                return w
            for text, want, v in ctx.data["calls"]:
                v = it.force(v)
                if not isinstance(v, Agg) or v.adt != RES:
                    raise Undecided("result %r" % (v,))
                if (v.variant == 0) != (want[0] == "ok"):
                    return "rpn(%r) is %s" % (text, "Ok" if v.variant == 0 else "Err")
                if v.variant:
                    continue
                if not hs.same_manager(it, v.fields[0], ctx.data["mgr"]):
                    return "the result belongs to another manager"
                f, t = hs.read(it, v.fields[0])
                if f != want[1]:
                    return "rpn(%r) is a %s diagram" % (text, TAG.get(f, f))
                spec = vs.term(want[2], forest)
                if t == ctx.canon(spec) or t == spec:
                    continue
                o = dict(opts(f))
                o["arity"] = 2 if bss else 3
                w, _ = differ(ctx, t, spec, f, o)
                if w:
                    return "rpn(%r): %s" % (text, w)
            return None
        r = LabRun(g, mklab, entry, check, [], body, limit=2000000)
        r.rules = rule
        r.go()
    mg = "BssMgr" if bss else "MssMgr"
    pre, tok, tok3 = (BDDPRE, BDDTOK, BDDTOK3) if bss else (MTPRE, MTTOK, MTTOK3)
    if part == "x":
        run(None, pre, tok, 1, "meaning of expressions")
        run(mg, pre[2:4], tok, 1, "meaning of expressions through the system manager")
        run(None, [["B", "A", "&"]] if bss else [["y", "x", "-"]], tok3, 1, "two expressions of one manager", second=True)
        run(None, alike(bss), tok, 0, "names that are nearly the same")
        if bss:
            run(None, [[], ["A"]], ODD, 1, "names that only look like tokens")
    else:
        i = int(part)
        run(None, pre[i:i + 1], tok, 2, "meaning of expressions")
        if tier != "quick":
            run(None, pre[i:i + 1], tok3, 3, "meaning of expressions")
    g.need("expressions of " + side, 100)
    return g
