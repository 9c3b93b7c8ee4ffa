"""MIR abstract interpreter (see core.py for the domain)."""
from fractions import Fraction
from .core import *
from . import core

INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
MAXSTEPS = 60000


class Frame:
    __slots__ = ("body", "cells", "line", "args")

    def __init__(self, body):
        self.body = body
        self.cells = [Cell(UNINIT) for _ in body.locals]
        self.line = body.line


class Interp:
    def __init__(self, prog, ctx, hooks=None, natives=None):
        self.prog = prog
        self.ctx = ctx
        self.hooks = hooks or {}
        self.natives = natives
        self.stack = []
        self.depth_limit = 60
        self.step_limit = MAXSTEPS
        self.loopcap = None

    # ---- helpers -------------------------------------------------------
    def where(self):
        for fr in reversed(self.stack):
            if fr.body.kind != "ext":
                return "%s:%s in %s" % (fr.body.file, fr.line, fr.body.where())
        return "?"

    def force(self, v):
        """Expand a lazily represented ADT value."""
        if isinstance(v, SymAdt):
            e = self.ctx.expanded.get(v.t)
            if e is None:
                e = self.expand(v.ty, v.t)
                self.ctx.expanded[v.t] = e
            return e
        return v

    def expand(self, ty, t):
        key = ty[1]
        args = ty[2]
        if key == OPT:
            c = self.ctx.choose(2)
            self.ctx.fact("%s is %s" % (tstr(t), "Some" if c else "None"))
            return some(self.mkval(args[0], ("some", t))) if c else none()
        adt = self.prog.adts.get(key)
        if adt is None or not adt["local"]:
            raise Undecided("opaque value of type %s" % key)
        vs = adt["variants"]
        i = self.ctx.choose(len(vs))
        if len(vs) > 1:
            self.ctx.fact("%s is %s" % (tstr(t), vs[i]["name"]))
        sub = dict(zip(adt["params"], args))
        fs = []
        for j, (fn, fty, _p) in enumerate(vs[i]["fields"]):
            fs.append(self.mkval(subst(fty, sub), ("fld", t, vs[i]["name"], fn)))
        return Agg(key, i, fs)

    def mkval(self, ty, t):
        """An unknown value of the given type, named by the term t."""
        k = ty[0]
        if k == "bool":
            return self.ctx.bool_atom(t)
        if k == "int":
            if ty[1] in ("usize", "u32"):
                return S(t, "node")
            return S(t, "num")
        if k == "float":
            return S(t, "num")
        if k == "param":
            return S(t, "val" if ty[1] in ("V", "Value") else "num")
        if k == "str":
            return S(t, "str")
        if k == "ref":
            return Ref(Cell(self.mkval(ty[1], t)))
        if k == "tuple":
            return Agg("tuple", 0, [self.mkval(x, ("tf", t, i)) for i, x in enumerate(ty[1])])
        if k == "array" and ty[2] is not None and ty[2] <= 16:
            return Seq([self.mkval(ty[1], ("ix", t, i)) for i in range(ty[2])], "array")
        if k == "adt":
            key = ty[1]
            if key == "alloc::string::String":
                return S(t, "str")
            if key == "alloc::boxed::Box":
                return BoxV(Cell(self.mkval(ty[2][0], t)))
            if key == "alloc::vec::Vec":
                ar = self.ctx.data.get("arity", 2)
                return Seq([self.mkval(ty[2][0], ("ix", t, i)) for i in range(ar)])
            adt = self.prog.adts.get(key)
            if key == OPT or (adt and adt["local"]):
                return SymAdt(ty, t)
        if k == "slice":
            ar = self.ctx.data.get("arity", 2)
            return Seq([self.mkval(ty[1], ("ix", t, i)) for i in range(ar)])
        raise Undecided("no abstract value for type %s" % (ty,))

    # ---- memory --------------------------------------------------------
    def step(self, v, s, cell=None, path=None):
        if isinstance(v, SymAdt):
            v = self.force(v)
        if isinstance(v, Agg):
            return v.fields[s]
        if isinstance(v, Seq):
            if isinstance(s, tuple):
                _, a, b = s
                n = len(v.items)
                return Seq(v.items[a:n if b is None else b], "slice")
            if isinstance(s, S):
                s = self.pick_index(s, len(v.items))
            if isinstance(s, int):
                if s >= len(v.items) or s < 0:
                    raise PanicPath("index %d out of bounds at %s" % (s, self.where()))
                return v.items[s]
        if isinstance(v, (BoxV, Ref, RcV)):
            return v      # Box/Unique/NonNull wrappers are transparent
        if isinstance(v, Clo):
            return v.caps[s]
        if v is UNINIT:
            return UNINIT
        g = getattr(v, "getitem", None)
        if g is not None:
            return g(self, s)
        raise Undecided("projection %r of %r at %s" % (s, v, self.where()))

    def pick_index(self, s, n):
        ctx = self.ctx
        t = ctx.canon(s.t)
        if isinstance(t, int):
            return t
        for i in range(n):
            if ctx.test_eq("int", t, i):
                ctx.setrep(t, i)
                return i
        raise CutPath("symbolic index outside the abstract sequence")

    def read(self, cell, path):
        v = cell.v
        for s in path:
            v = self.step(v, s)
        return v

    def write(self, cell, path, val):
        if not path:
            cell.v = val
            return
        v = cell.v
        if v is UNINIT:
            cell.v = val        # first write into a MaybeUninit wrapper
            return
        if isinstance(v, SymAdt):
            v = cell.v = copyv(self.force(v))
        for s in path[:-1]:
            nv = self.step(v, s)
            if isinstance(nv, SymAdt):
                nv = copyv(self.force(nv))
                self.setstep(v, s, nv)
            if nv is UNINIT:
                self.setstep(v, s, val)
                return
            v = nv
        if v is UNINIT:
            cell.v = val
            return
        self.setstep(v, path[-1], val)

    def setstep(self, v, s, val):
        if isinstance(v, Agg):
            v.fields[s] = val
        elif isinstance(v, Seq):
            if isinstance(s, S):
                s = self.pick_index(s, len(v.items))
            if s >= len(v.items):
                raise PanicPath("index out of bounds at %s" % self.where())
            v.items[s] = val
        elif isinstance(v, Clo):
            v.caps[s] = val
        elif isinstance(v, BoxV):
            v.cell.v = val
        elif hasattr(v, "setitem"):
            v.setitem(self, s, val)
        else:
            raise Undecided("write into %r at %s" % (v, self.where()))

    def deref(self, v):
        """Ref/Box value -> (cell, path)"""
        if isinstance(v, Ref):
            return v.cell, v.path
        if isinstance(v, BoxV):
            return v.cell, ()
        if isinstance(v, (str,)) or (isinstance(v, S) and v.sort == "str"):
            return Cell(v), ()
        if isinstance(v, Guard):
            return v.ref.cell, v.ref.path
        if isinstance(v, RcV):
            return v.cell, ()
        raise Undecided("dereference of %r at %s" % (v, self.where()))

    def load(self, v):
        """Follow references down to a non-reference value."""
        n = 0
        while isinstance(v, (Ref, BoxV, Guard, RcV)):
            c, p = self.deref(v)
            v = self.read(c, p)
            n += 1
            if n > 20:
                raise Undecided("reference chain")
        return v

    def loadref(self, v):
        """Follow references until the last one; returns (ref, value)."""
        r = v
        while isinstance(v, (Ref, BoxV, Guard, RcV)):
            c, p = self.deref(v)
            r = Ref(c, p)
            v = self.read(c, p)
        return r, v

    def place(self, fr, p):
        local, projs = p
        cell, path = fr.cells[local], ()
        for pr in projs:
            k = pr[0]
            if k == "deref":
                v = self.read(cell, path)
                cell, path = self.deref(v)
            elif k == "field":
                path = path + (pr[1],)
            elif k == "index":
                ix = fr.cells[pr[1]].v
                path = path + (ix,)
            elif k == "cindex":
                if pr[2]:
                    v = self.read(cell, path)
                    path = path + (len(v.items) - pr[1],)
                else:
                    path = path + (pr[1],)
            elif k == "subslice":
                v = self.read(cell, path)
                n = len(v.items)
                path = path + (("sl", pr[1], n - pr[2] if pr[3] else pr[2]),)
            elif k == "downcast":
                v = self.read(cell, path)
                if isinstance(v, SymAdt):
                    e = copyv(self.force(v))
                    self.write(cell, path, e)
            else:
                raise Undecided("projection %s" % pr)
        return cell, path

    # ---- operands ------------------------------------------------------
    def const(self, c, fr):
        k = c[0]
        if k == "int":
            return int(c[1])
        if k == "bool":
            return c[1]
        if k == "char":
            return chr(c[1])
        if k == "float":
            s = c[1]
            if s in ("NaN", "inf", "-inf"):
                return S(("float", s), "num")
            return Fraction(s)
        if k == "str":
            return c[1]
        if k == "unit":
            return UNIT
        if k == "fnitem":
            return FnItem(c[1])
        if k == "closure":
            return Clo(c[1], [])
        if k == "promoted":
            b = self.prog.bodies.get(c[1])
            if b is None:
                raise Undecided("promoted of unknown body %s" % c[1])
            return self.run(b.promoted[c[2]], [])
        if k == "zst":
            ty = c[1]
            if ty[0] == "closure":
                return Clo(ty[1], [])
            if ty[0] == "fndef":
                raise Undecided("fndef zst")
            if ty[0] == "adt":
                return Agg(ty[1], 0, [])
            if ty[0] == "array":
                return Seq([], "array")
            return UNIT
        if k == "mem":
            return Ref(Cell(Seq(list(c[1]), "bytes")))
        if k == "agg":
            _, ty, var, fs = c
            vals = [self.const(x, fr) for x in fs]
            if ty[0] == "array":
                return Seq(vals, "array")
            if ty[0] == "tuple":
                return Agg("tuple", 0, vals)
            return Agg(ty[1], var or 0, vals)
        if k in ("unevaluated",):
            b = self.prog.bodies.get(c[1])
            if b is not None:
                return self.run(b, [])
        if k == "static":
            b = self.prog.bodies.get(c[1])
            if b is not None:
                return Ref(Cell(self.run(b, [])))
        raise Undecided("constant %s" % (c,))

    def operand(self, fr, o):
        k = o[0]
        if k == "copy":
            c, p = self.place(fr, o[1])
            v = self.read(c, p)
            return copyv(v)
        if k == "move":
            c, p = self.place(fr, o[1])
            return self.read(c, p)
        if k == "const":
            return self.const(o[1], fr)
        raise Undecided("operand %s" % (o,))

    # ---- arithmetic ----------------------------------------------------
    def lin(self, v):
        """integer as (base term or None, offset)"""
        if isinstance(v, bool):
            return None
        if isinstance(v, int):
            return (None, v)
        if isinstance(v, S):
            t = self.ctx.canon(v.t)
            if isinstance(t, int):
                return (None, t)
            if isinstance(t, tuple) and t and t[0] == "lin":
                return (t[1], t[2])
            return (t, 0)
        return None

    def mklin(self, base, k, sort):
        if base is None:
            return k
        if k == 0:
            return S(base, sort)
        return S(("lin", base, k), sort)

    def term(self, v):
        """A hashable canonical term for an abstract value (keys, comparisons, reports)."""
        v = self.force(v)
        if isinstance(v, (Ref, BoxV)):
            return self.term(self.load(v))
        if isinstance(v, S):
            return self.ctx.canon(v.t)
        if isinstance(v, (bool, int, str, Fraction)):
            return v
        if v == UNIT:
            return ("unit",)
        if isinstance(v, Agg):
            if v.adt == "tuple":
                return ("tup",) + tuple(self.term(x) for x in v.fields)
            return ("agg", str(v.adt).split("::")[-1], v.variant) + tuple(self.term(x) for x in v.fields)
        if isinstance(v, Seq):
            return ("seq",) + tuple(self.term(x) for x in v.items)
        if isinstance(v, RcV):
            return ("rc", id(v.cell))
        t = getattr(v, "as_term", None)
        if t is not None:
            return t(self)
        raise Undecided("no term for %r at %s" % (v, self.where()))

    def sort_of(self, a, b):
        for x in (a, b):
            if isinstance(x, S):
                return x.sort
        return "int"

    def compare_eq(self, a, b):
        a, b = self.load(a), self.load(b)
        a, b = self.force(a), self.force(b)
        ctx = self.ctx
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.variant != b.variant:
                return False
            return all(self.compare_eq(x, y) for x, y in zip(a.fields, b.fields))
        if isinstance(a, Seq) and isinstance(b, Seq):
            if len(a.items) != len(b.items):
                return False
            return all(self.compare_eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, S) or isinstance(b, S):
            sorts = {x.sort for x in (a, b) if isinstance(x, S)}
            if "node" in sorts:
                ta, tb = self.term(a), self.term(b)
                if ta == tb:
                    return True
                for x, y in ((ta, tb), (tb, ta)):
                    if isinstance(x, int) and isinstance(y, int):
                        return x == y
                    if isinstance(y, tuple) and y and y[0] in ("len", "lin"):
                        return ctx.test_eq("int", ta, tb)
                    if isinstance(x, int) and x >= (1 << 32) - 1:
                        if isinstance(y, tuple) and any(isinstance(z, tuple) and z and z[0] == "gslot" for z in y):
                            r = ctx.bool_atom(("sentinel", y, x), "%s is the empty marker" % tstr(y))
                            if r:
                                ctx.setrep(y, x)
                            return r
                        return False     # reserved sentinel, never a node id
                return ctx.node_eq(ta, tb)
            if "str" in sorts:
                return ctx.bool_atom(("streq",) + tuple(sorted([repr(self.term(a)), repr(self.term(b))])))
            la, lb = self.lin(a), self.lin(b)
            if la and lb:
                if la[0] == lb[0]:
                    return la[1] == lb[1]
                return self.lin_rel(la, lb, "eq", self.sort_of(a, b))
            ta, tb = self.term(a), self.term(b)
            return ctx.test_eq("val" if "val" in sorts else "num", ta, tb)
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
            return a == b
        if isinstance(a, RcV) and isinstance(b, RcV):
            return a.cell is b.cell
        if a == UNIT and b == UNIT:
            return True
        if isinstance(a, MapV) and isinstance(b, MapV):
            return self.natives.map_eq(self, a, b)
        raise Undecided("equality of %r and %r at %s" % (a, b, self.where()))

    def lin_rel(self, la, lb, op, sort):
        ctx = self.ctx
        srt = {"level": "level", "val": "val", "num": "num"}.get(sort, "int")
        if sort == "hdr" and op == "eq" and la[1] == lb[1] and isinstance(la[0], tuple) and isinstance(lb[0], tuple) \
                and la[0][0] in ("hdr", "h") and lb[0][0] in ("hdr", "h"):
            return ctx.test_eq("hdr", la[0], lb[0])
        (ba, ka), (bb, kb) = la, lb
        # move offsets to one side when one side is constant
        if ba is None and bb is not None:
            ta, tb = ka - kb, bb
        elif bb is None and ba is not None:
            ta, tb = ba, kb - ka
        else:
            d = kb - ka
            ta = ba
            tb = bb if d == 0 else ("lin", bb, d)
        for x, y, sw in ((ta, tb, False), (tb, ta, True)):
            # a saturated constant (Level::MAX and the like) is above every real level/index
            if isinstance(x, int) and x >= (1 << 31) and not isinstance(y, int):
                return False if op == "eq" else sw
        if srt == "int" or srt == "level":
            # naturals: never below zero
            for x, y, sw in ((ta, tb, False), (tb, ta, True)):
                if isinstance(x, int) and not isinstance(y, int):
                    if x < 0:
                        return (not sw) if op == "lt" else False
                    if x == 0 and op == "lt" and sw:
                        return False     # y < 0
        if op == "eq":
            return ctx.test_eq(srt, ta, tb)
        return ctx.test_lt(srt, ta, tb)

    def compare_lt(self, a, b):
        """a < b"""
        r = self.compare3(a, b, want="lt")
        return r

    def compare3(self, a, b, want="cmp"):
        """want='cmp' -> '<','=','>' ; want='lt' -> bool a<b ; want='le' -> bool a<=b"""
        a, b = self.load(a), self.load(b)
        a, b = self.force(a), self.force(b)
        ctx = self.ctx

        def fin(r):
            if want == "cmp":
                return r
            if want == "lt":
                return r == "<"
            return r in "<="
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.variant != b.variant:
                return fin("<" if a.variant < b.variant else ">")
            fs = list(zip(a.fields, b.fields))
            if not fs:
                return fin("=")
            for x, y in fs[:-1]:
                r = self.compare3(x, y)
                if r != "=":
                    return fin(r)
            return self.compare3(fs[-1][0], fs[-1][1], want)
        if isinstance(a, Seq) and isinstance(b, Seq):
            for x, y in zip(a.items, b.items):
                r = self.compare3(x, y)
                if r != "=":
                    return fin(r)
            n, m = len(a.items), len(b.items)
            return fin("<" if n < m else ("=" if n == m else ">"))
        if isinstance(a, S) or isinstance(b, S):
            sorts = {x.sort for x in (a, b) if isinstance(x, S)}
            la, lb = self.lin(a), self.lin(b)
            if la and lb and la[0] == lb[0]:
                x, y = la[1], lb[1]
                return fin("<" if x < y else ("=" if x == y else ">"))
            # id < table length always holds for the ids we hand out
            if la and lb and "node" in sorts | {"node"}:
                lena = isinstance(la[0], tuple) and la[0][0] == "len"
                lenb = isinstance(lb[0], tuple) and lb[0][0] == "len"
                if lenb and not lena and (isinstance(a, int) or (isinstance(a, S) and a.sort in ("node", "hdr"))):
                    if isinstance(a, S) or a < 3:
                        return fin("<")
                if lena and not lenb and (isinstance(b, int) or (isinstance(b, S) and b.sort in ("node", "hdr"))):
                    if isinstance(b, S) or b < 3:
                        return fin(">")
            if "node" in sorts and not ({"level", "val", "num"} & sorts):
                ta, tb = self.term(a), self.term(b)
                # ids are ordered but equality is the node identity
                if ctx.node_eq(ta, tb) if want == "cmp" else (ta == tb):
                    return fin("=")
                for x, sw in ((ta, False), (tb, True)):
                    if isinstance(x, int) and x >= (1 << 32) - 1:
                        return fin(">" if not sw else "<")
                if want == "le":
                    return not ctx.test_lt("nodeid", tb, ta)
                if want == "lt":
                    return ctx.test_lt("nodeid", ta, tb)
                return "<" if ctx.test_lt("nodeid", ta, tb) else ">"
            if la and lb:
                srt = self.sort_of(a, b)
                if want == "lt":
                    return self.lin_rel(la, lb, "lt", srt)
                if want == "le":
                    return not self.lin_rel(lb, la, "lt", srt)
                if self.lin_rel(la, lb, "lt", srt):
                    return "<"
                if self.lin_rel(la, lb, "eq", srt):
                    return "="
                return ">"
            ta, tb = self.term(a), self.term(b)
            srt = "val" if "val" in sorts else ("str" if "str" in sorts else "num")
            if want == "lt":
                return ctx.test_lt(srt, ta, tb)
            if want == "le":
                return not ctx.test_lt(srt, tb, ta)
            return ctx.compare(srt, ta, tb)
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
            return fin("<" if a < b else ("=" if a == b else ">"))
        raise Undecided("ordering of %r and %r at %s" % (a, b, self.where()))

    def arith(self, op, a, b, ty=None):
        """op in add/sub/mul/div/rem"""
        a, b = self.load(a), self.load(b)
        if isinstance(a, S) or isinstance(b, S):
            sorts = {x.sort for x in (a, b) if isinstance(x, S)}
            ta, tb = self.term(a), self.term(b)
            if isinstance(ta, (int, Fraction)) and isinstance(tb, (int, Fraction)) and not isinstance(ta, bool):
                return self.arith(op, ta, tb, ty)
            if sorts & {"val", "num"}:
                sort = "val" if "val" in sorts else "num"
                return S((op, ta, tb), sort)
            la, lb = self.lin(a), self.lin(b)
            sort = [x.sort for x in (a, b) if isinstance(x, S)][0]
            if la and lb and op == "add":
                if la[0] is None or lb[0] is None:
                    return self.mklin(la[0] if la[0] is not None else lb[0], la[1] + lb[1], sort)
            if la and lb and op == "sub":
                if lb[0] is None:
                    return self.mklin(la[0], la[1] - lb[1], sort)
                if la[0] == lb[0]:
                    return la[1] - lb[1]
            return S((op, ta, tb), sort if sort != "node" else "int")
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if op == "add":
                return a + b
            if op == "sub":
                return a - b
            if op == "mul":
                return a * b
            if op in ("div", "rem"):
                if b == 0:
                    raise PanicPath("division by zero at %s" % self.where())
                if isinstance(a, Fraction) or isinstance(b, Fraction):
                    return Fraction(a) / Fraction(b) if op == "div" else S(("rem", a, b), "num")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if op == "div" else a - q * b
        raise Undecided("%s of %r and %r at %s" % (op, a, b, self.where()))

    def wrap(self, v, ty):
        if isinstance(v, int) and not isinstance(v, bool) and ty and ty[0] == "int":
            w = INTW.get(ty[1], 64)
            if ty[1][0] == "u":
                return v & ((1 << w) - 1)
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        return v

    def binop(self, op, a, b, ty):
        if op in ("Eq", "Ne"):
            r = self.compare_eq(a, b)
            return r if op == "Eq" else (not r)
        if op == "Lt":
            return self.compare3(a, b, "lt")
        if op == "Gt":
            return self.compare3(b, a, "lt")
        if op == "Le":
            return self.compare3(a, b, "le")
        if op == "Ge":
            return self.compare3(b, a, "le")
        if op == "Cmp":
            r = self.compare3(a, b, "cmp")
            return Agg(ORD, {"<": 0, "=": 1, ">": 2}[r], [])
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        m = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}.get(base)
        if m:
            r = self.arith(m, a, b, ty)
            over = False
            if isinstance(r, int) and not isinstance(r, bool):
                w = self.wrap(r, ty)
                over = w != r
                r = w
            if op.endswith("WithOverflow"):
                return Agg("tuple", 0, [r, over])
            return r
        if isinstance(a, bool) and isinstance(b, bool):
            if op == "BitAnd":
                return a and b
            if op == "BitOr":
                return a or b
            if op == "BitXor":
                return a != b
        if isinstance(a, int) and isinstance(b, int):
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op in ("Shl", "ShlUnchecked"):
                return self.wrap(a << b, ty)
            if op in ("Shr", "ShrUnchecked"):
                return a >> b
        ta, tb = self.term(a), self.term(b)
        return S((op.lower(), ta, tb), "int")

    def cast(self, kind, v, fty, tty):
        if kind == "Transmute" and fty[0] == "ptr" and tty[0] == "int":
            return 4096     # only the compiler's own alignment and null checks look at it
        if tty[0] == "int" and fty[0] in ("int", "bool", "char"):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, str):
                return ord(v)
            if isinstance(v, int):
                return self.wrap(v, tty)
            if isinstance(v, S) and INTW.get(tty[1], 64) < 32 and INTW.get(fty[1], 64) > INTW.get(tty[1], 64):
                return S(("narrow", tty[1], self.ctx.canon(v.t)), "int")
            return v
        if tty[0] == "int" and fty[0] == "adt":
            v = self.force(v)
            if isinstance(v, Agg):
                return int(self.prog.adts[v.adt]["variants"][v.variant]["discr"])
        if tty[0] == "float":
            if isinstance(v, (int, Fraction)):
                return Fraction(v)
            if isinstance(v, S):
                return S(v.t, "num")
        if tty[0] == "int" and fty[0] == "float":
            if isinstance(v, Fraction):
                return int(v)
            return S(("trunc", self.term(v)), "num")
        return v

    def rvalue(self, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref" or k == "rawptr":
            c, p = self.place(fr, r[2] if k == "ref" else r[1])
            return self.mkref(c, p)
        if k == "agg":
            ak = r[1]
            vals = [self.operand(fr, o) for o in r[2]]
            if ak[0] == "array":
                return Seq(vals, "array")
            if ak[0] == "tuple":
                return Agg("tuple", 0, vals) if vals else UNIT
            if ak[0] == "adt":
                return Agg(ak[1], ak[2], vals)
            if ak[0] == "closure":
                return Clo(ak[1], vals)
            raise Undecided("aggregate %s" % ak)
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), r[4])
        if k == "un":
            v = self.operand(fr, r[2])
            if r[1] == "Not":
                if isinstance(v, bool):
                    return not v
                if isinstance(v, int):
                    return self.wrap(~v, r[3])
            if r[1] == "Neg":
                return self.arith("sub", 0, v)
            if r[1] == "PtrMetadata":
                w = self.load(v)
                return self.natives.seq_len(self, w)
            raise Undecided("unary %s %r" % (r[1], v))
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), r[3], r[4])
        if k == "discr":
            c, p = self.place(fr, r[1])
            v = self.read(c, p)
            return self.discr(v)
        if k == "repeat":
            v = self.operand(fr, r[1])
            if r[2] is None:
                raise Undecided("array repeat of generic length")
            if r[2] > 4096:
                raise Undecided("huge array")
            return Seq([copyv(v) for _ in range(r[2])], "array")
        raise Undecided("rvalue %s at %s" % (r, self.where()))

    def mkref(self, c, p):
        # collapse &str-like values: a reference to a string is the string itself
        return Ref(c, p)

    def discr(self, v):
        v = self.force(v)
        if isinstance(v, Agg):
            a = self.prog.adts.get(v.adt)
            if a is None:
                return v.variant if v.adt != "entry" else self.natives.entry_discr(self, v)
            return int(a["variants"][v.variant]["discr"])
        if isinstance(v, S):
            return v
        raise Undecided("discriminant of %r at %s" % (v, self.where()))

    # ---- control -------------------------------------------------------
    def run(self, body, args):
        fr = Frame(body)
        fr.args = args
        if len(self.stack) > self.depth_limit:
            raise Undecided("call depth limit in %s" % body.key)
        for i, a in enumerate(args):
            fr.cells[i + 1].v = a
        self.stack.append(fr)
        visits = {}
        try:
            bb = 0
            blocks = body.blocks
            while True:
                blk = blocks[bb]
                n = visits.get(bb, 0) + 1
                visits[bb] = n
                if self.loopcap and n > self.loopcap:
                    raise CutPath("loop bound")
                if n > 3000:
                    raise Undecided("loop bound in %s" % body.key)
                for s in blk["s"]:
                    self.ctx.steps += 1
                    if s[0] == "=":
                        fr.line = s[3]
                        v = self.rvalue(fr, s[2], s[4])
                        c, p = self.place(fr, s[1])
                        if p:
                            self.write(c, p, v)
                        else:
                            c.v = v
                    elif s[0] == "setdiscr":
                        c, p = self.place(fr, s[1])
                        v = self.read(c, p)
                        if isinstance(v, Agg):
                            v.variant = s[2]
                if self.ctx.steps > self.step_limit:
                    raise Undecided("step limit")
                t = blk["t"]
                fr.line = blk["l"]
                k = t[0]
                if k == "goto":
                    bb = t[1]
                elif k == "switch":
                    v = self.operand(fr, t[1])
                    bb = self.switch(v, t[2], t[3])
                elif k == "return":
                    return fr.cells[0].v if fr.cells[0].v is not UNINIT else UNIT
                elif k == "call":
                    f = self.operand(fr, t[1])
                    args = [self.operand(fr, a) for a in t[2]]
                    v = self.call(f, args, t[5], t[6])
                    if t[4] is None:
                        raise PanicPath("diverging call at %s" % self.where())
                    c, p = self.place(fr, t[3])
                    self.write(c, p, v)
                    bb = t[4]
                elif k == "drop":
                    c, p = self.place(fr, t[1])
                    self.drop_value(c, p)
                    bb = t[2]
                elif k == "assert":
                    v = self.operand(fr, t[1])
                    if isinstance(v, bool) and v != t[2]:
                        raise PanicPath("%s at %s" % (t[4], self.where()))
                    bb = t[3]
                elif k == "unreachable":
                    raise PanicPath("unreachable at %s" % self.where())
                else:
                    raise Undecided("terminator %s" % (t,))
        finally:
            self.stack.pop()

    def switch(self, v, targets, otherwise):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        if isinstance(v, S):
            t = self.ctx.canon(v.t)
            if isinstance(t, int):
                v = t
            else:
                for val, bb in targets:
                    if v.sort == "node":
                        e = self.ctx.node_eq(t, int(val))
                    else:
                        e = self.compare_eq(v, int(val))
                    if e:
                        return bb
                return otherwise
        if isinstance(v, int):
            for val, bb in targets:
                x = int(val)
                if x == v or (v < 0 and x == (v & 0xff)) or (v < 0 and x in (v & 0xffff, v & 0xffffffff, v & (2**64 - 1))):
                    return bb
            return otherwise
        raise Undecided("switch on %r at %s" % (v, self.where()))

    def drop_value(self, c, p, depth=0):
        v = self.read(c, p)
        if depth > 6:
            return
        if isinstance(v, Guard):
            if v.live:
                v.live = False
                if v.mut:
                    v.rc.writer -= 1
                else:
                    v.rc.readers -= 1
            return
        if isinstance(v, Agg):
            a = self.prog.adts.get(v.adt)
            if a and a.get("drop") and a["local"]:
                b = self.prog.bodies.get(a["drop"])
                if b is not None:
                    h = self.hooks.get(b.key)
                    if h is not None:
                        r = h(self, [Ref(c, p)], None)
                        if r is not NotImplemented:
                            return
                    self.run(b, [Ref(c, p)])
            for i, x in enumerate(v.fields):
                if isinstance(x, (Agg, Guard, Seq, BoxV)):
                    self.drop_value(c, p + (i,), depth + 1)
        elif isinstance(v, Seq):
            for i, x in enumerate(v.items):
                if isinstance(x, (Agg, Guard, Seq, BoxV)):
                    self.drop_value(c, p + (i,), depth + 1)
        elif isinstance(v, BoxV):
            if isinstance(v.cell.v, (Agg, Guard, Seq)):
                self.drop_value(v.cell, (), depth + 1)
        elif isinstance(v, MapV):
            for e in v.ents:
                if isinstance(e[2].v, (Agg, Guard, Seq, BoxV)):
                    self.drop_value(e[2], (), depth + 1)

    # ---- calls ---------------------------------------------------------
    def call(self, f, args, dty, atys):
        if isinstance(f, Ref):
            f = self.load(f)
        if isinstance(f, FnItem):
            return self.call_fn(f.f, args, dty, atys)
        if isinstance(f, Clo):
            return self.call_closure(f, args)
        raise Undecided("indirect call of %r at %s" % (f, self.where()))

    def call_value(self, f, args):
        """Call a closure/function value with untupled arguments."""
        f0 = f
        while isinstance(f, (Ref, BoxV)):
            c, p = self.deref(f)
            f = self.read(c, p)
        if isinstance(f, Clo):
            return self.call_closure(f, args, f0 if isinstance(f0, Ref) else None)
        if isinstance(f, FnItem):
            return self.call_fn(f.f, args, None, None)
        if callable(f):
            return f(*args)
        raise Undecided("call of %r at %s" % (f, self.where()))

    def call_closure(self, f, args, ref=None):
        b = self.prog.bodies.get(f.key)
        if b is None:
            raise Undecided("closure %s has no body" % f.key)
        if b.locals[1][0] == "ref":
            me = ref if ref is not None else Ref(Cell(f))
        else:
            me = f
        return self.run(b, [me] + list(args))

    def call_fn(self, fr, args, dty, atys):
        if fr.get("ctor"):
            return Agg(fr["ctor"][0], fr["ctor"][1], list(args))
        key = fr["resolved"] or fr["fn"]
        h = self.hooks.get(key)
        if h is not None:
            r = h(self, args, fr)
            if r is not NotImplemented:
                return r
        b = self.prog.bodies.get(key)
        if b is not None and b.kind == "body":
            if len(args) == 2 and isinstance(args[0], (Ref, Clo)):
                f = args[0] if isinstance(args[0], Clo) else self.load(args[0])
                if isinstance(f, Clo) and f.key == key and (args[1] == UNIT or (isinstance(args[1], Agg) and args[1].adt == "tuple")):
                    a = list(args[1].fields) if isinstance(args[1], Agg) else []
                    return self.call_closure(f, a, args[0] if isinstance(args[0], Ref) else None)
            return self.run_call(b, args)
        r = self.natives.call(self, fr, args, dty, atys)
        if r is not NotImplemented:
            return r
        # a trait method of a workspace trait that could not be resolved statically:
        # dispatch on the receiver value
        if fr["trait"] and args:
            b2 = self.dispatch(fr, args)
            if b2 is not None:
                h = self.hooks.get(b2.key)
                if h is not None:
                    r = h(self, args, fr)
                    if r is not NotImplemented:
                        return r
                return self.run_call(b2, args)
        b = self.prog.bodies.get(fr["fn"]) if b is None else b
        if b is not None:
            return self.run_call(b, args)
        raise Undecided("no model for %s at %s" % (fr["pretty"], self.where()))

    def run_call(self, b, args):
        return self.run(b, args)

    def call_body(self, b, args):
        """Call a workspace function, honouring hooks."""
        h = self.hooks.get(b.key)
        if h is not None:
            r = h(self, args, {"name": b.name, "resolved": b.key, "fn": b.key, "pretty": b.key, "trait": b.trait})
            if r is not NotImplemented:
                return r
        return self.run_call(b, args)

    def dispatch(self, fr, args):
        v = self.load(args[0])
        v = self.force(v) if isinstance(v, SymAdt) else v
        if isinstance(v, Agg):
            nm = str(v.adt).split("::")[-1]
            cr = str(v.adt).split("::")[0]
            for c in (cr, "common", "bddcore", "mddcore", "bss", "mss"):
                b = self.prog.find(c, nm, fr["name"], fr["trait"].split("::")[-1].split("<")[0])
                if b is not None:
                    return b
        return None


def subst(ty, sub):
    if ty is None:
        return ty
    if ty[0] == "param":
        return sub.get(ty[1], ty)
    if ty[0] in ("adt",):
        return ["adt", ty[1], [subst(x, sub) for x in ty[2]]]
    if ty[0] in ("ref", "ptr"):
        return [ty[0], subst(ty[1], sub), ty[2]]
    if ty[0] == "tuple":
        return ["tuple", [subst(x, sub) for x in ty[1]]]
    if ty[0] == "array":
        return ["array", subst(ty[1], sub), ty[2]]
    if ty[0] == "slice":
        return ["slice", subst(ty[1], sub)]
    return ty
