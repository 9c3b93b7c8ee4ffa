"""Abstract models of the std functions the workspace uses (dispatch by name and by the
abstract receiver, not by std-internal paths)."""
import re
from fractions import Fraction
from .core import *
from .core import OPT, RES, ORD, CF
from .interp import INTW, subst

STOP = object()


# ---------------------------------------------------------------------------
# iterators
class It:
    def next(self, it):
        raise Undecided("iterator next")

    def back(self, it):
        # generic: materialise
        if not hasattr(self, "_buf"):
            self._buf = []
            while True:
                x = type(self).next(self, it)
                if x is STOP:
                    break
                self._buf.append(x)
                if len(self._buf) > 4000:
                    raise Undecided("iterator too long")
            b = self._buf
            self.next = lambda it2: b.pop(0) if b else STOP
        return self._buf.pop() if self._buf else STOP

    def as_term(self, it):
        return ("iter",)


class DomIt(It):
    """Iteration over a table of unknown length: the members that matter plus a generic one."""

    def __init__(self, items, mk):
        self.items, self.mk, self.i, self.p = items, mk, 0, None

    def next(self, it):
        if self.i >= len(self.items):
            return STOP
        self.p = self.items[self.i]
        self.i += 1
        return self.mk(self.p)

    def back(self, it):
        if self.i >= len(self.items):
            return STOP
        self.p = self.items.pop()
        return self.mk(self.p)

    def pos(self):
        return self.p


def table_domain(it, n):
    """Indices standing for all rows of a table whose length is the term n, or None."""
    h = it.ctx.data.get("domain")
    n = it.load(n)
    if h is None or not isinstance(n, S):
        return None
    return h(it, it.ctx.canon(n.t))


class ListIt(It):
    def __init__(self, items):
        self.items = list(items)

    def next(self, it):
        return self.items.pop(0) if self.items else STOP

    def back(self, it):
        return self.items.pop() if self.items else STOP


class SliceIt(It):
    """Yields references to the elements of a sequence stored at (cell, path)."""

    def __init__(self, it, ref, n):
        self.ref, self.i, self.j = ref, 0, n

    def next(self, it):
        if self.i >= self.j:
            return STOP
        r = Ref(self.ref.cell, self.ref.path + (self.i,))
        self.i += 1
        return r

    def back(self, it):
        if self.i >= self.j:
            return STOP
        self.j -= 1
        return Ref(self.ref.cell, self.ref.path + (self.j,))


class RangeIt(It):
    """a..b with possibly symbolic bounds"""

    def __init__(self, a, b, incl=False):
        self.a, self.b, self.incl = a, b, incl
        self.done = False
        self.n = 0

    def next(self, it):
        if self.done:
            return STOP
        a, b = self.a, self.b
        if self.n == 0 and isinstance(a, int) and a <= 3 and not self.incl and isinstance(it.load(b), S):
            d = table_domain(it, b)
            if d is not None:
                self.dom = [x for x in d if not (isinstance(x, int) and x < a)]
        if getattr(self, "dom", None) is not None:
            self.n += 1
            return self.dom.pop(0) if self.dom else STOP
        less = it.compare3(a, b, "lt")
        if less:
            self.a = it.arith("add", a, 1)
            self.n += 1
            if self.n > 400:
                raise CutPath("range bound")
            return a
        if self.incl and it.compare_eq(a, b):
            self.done = True
            return a
        self.done = True
        return STOP

    def back(self, it):
        if self.done:
            return STOP
        if it.compare3(self.a, self.b, "lt"):
            if self.incl:
                r = self.b
                self.b = it.arith("sub", self.b, 1)
                return r
            self.b = it.arith("sub", self.b, 1)
            return self.b
        if self.incl and it.compare_eq(self.a, self.b):
            self.done = True
            return self.a
        self.done = True
        return STOP


class MapIt(It):
    def pos(self):
        return self.src.pos() if hasattr(self.src, "pos") else None

    def __init__(self, src, f):
        self.src, self.f = src, f

    def next(self, it):
        x = self.src.next(it)
        return STOP if x is STOP else it.call_value(self.f, [x])

    def back(self, it):
        x = self.src.back(it)
        return STOP if x is STOP else it.call_value(self.f, [x])


class FnIt(It):
    """A python generator function over an iterator source."""

    def __init__(self, gen):
        self.gen = gen

    def next(self, it):
        return next(self.gen, STOP)


class FilterIt(It):
    def __init__(self, src, f, mapped=False, neg=False):
        self.src, self.f, self.mapped = src, f, mapped

    def _go(self, it, step):
        while True:
            x = step(it)
            if x is STOP:
                return STOP
            if self.mapped:
                r = it.force(it.call_value(self.f, [x]))
                if r.variant == 1:
                    return r.fields[0]
            elif truth(it, it.call_value(self.f, [Ref(Cell(x))])):
                return x

    def next(self, it):
        return self._go(it, self.src.next)

    def back(self, it):
        return self._go(it, self.src.back)


class ZipIt(It):
    def pos(self):
        return self.a.pos() if hasattr(self.a, "pos") else None

    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self, it):
        x = self.a.next(it)
        if x is STOP:
            return STOP
        y = self.b.next(it)
        if y is STOP:
            return STOP
        return tup(x, y)


class EnumIt(It):
    def __init__(self, src):
        self.src, self.i = src, 0

    def next(self, it):
        x = self.src.next(it)
        if x is STOP:
            return STOP
        p = self.src.pos() if hasattr(self.src, "pos") else None
        r = tup(self.i if p is None else p, x)
        self.i += 1
        return r

    def pos(self):
        return self.src.pos() if hasattr(self.src, "pos") else None


class RevIt(It):
    def pos(self):
        return self.src.pos() if hasattr(self.src, "pos") else None

    def __init__(self, src):
        self.src = src

    def next(self, it):
        return self.src.back(it)

    def back(self, it):
        return self.src.next(it)


class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self, it):
        x = self.a.next(it)
        return x if x is not STOP else self.b.next(it)

    def back(self, it):
        x = self.b.back(it)
        return x if x is not STOP else self.a.back(it)


class PeekIt(It):
    def __init__(self, src):
        self.src, self.buf = src, []

    def next(self, it):
        return self.buf.pop() if self.buf else self.src.next(it)


class UserIt(It):
    """A workspace type implementing Iterator."""

    def __init__(self, ref, body):
        self.ref, self.body = ref, body
        self.n = 0

    def next(self, it):
        r = it.force(it.run(self.body, [self.ref]))
        self.n += 1
        if self.n > 500:
            raise CutPath("user iterator bound")
        return r.fields[0] if r.variant == 1 else STOP


def drain(it, i, cap=4000):
    out = []
    while True:
        x = i.next(it)
        if x is STOP:
            return out
        out.append(x)
        if len(out) > cap:
            raise Undecided("iterator too long")


def truth(it, v):
    v = it.load(v)
    if isinstance(v, bool):
        return v
    raise Undecided("boolean %r at %s" % (v, it.where()))


# ---------------------------------------------------------------------------
def clone(it, v):
    """Clone of an abstract value (v itself, not a reference to it)."""
    v = it.force(v) if isinstance(v, SymAdt) else v
    if isinstance(v, Agg):
        b = None
        a = it.prog.adts.get(v.adt)
        if a is not None and a["local"]:
            b = it.prog.find(str(v.adt).split("::")[0], str(v.adt).split("::")[-1], "clone", "Clone")
        if b is not None and not b.blocks is None:
            return it.call_body(b, [Ref(Cell(v))])
        return Agg(v.adt, v.variant, [clone(it, x) for x in v.fields], v.tag)
    if isinstance(v, Seq):
        return Seq([clone(it, x) for x in v.items], v.kind)
    if isinstance(v, BoxV):
        return BoxV(Cell(clone(it, v.cell.v)))
    if isinstance(v, RcV):
        return RcV(v.cell, v.weak)
    if isinstance(v, MapV):
        m = MapV(v.isset, v.name, v.sym, v.ordered)
        m.ents = [[clone(it, k), t, Cell(clone(it, c.v))] for k, t, c in v.ents]
        return m
    if isinstance(v, Ref):
        return v
    if isinstance(v, It):
        import copy
        return copy.copy(v)
    h = getattr(v, "clone", None)
    if h is not None:
        return h(it)
    return v


def strv(it, v):
    v = it.load(v)
    if isinstance(v, str) or (isinstance(v, S) and v.sort == "str"):
        return v
    return None


def to_string(it, v):
    v = it.load(v)
    v = it.force(v) if isinstance(v, SymAdt) else v
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, S):
        if v.sort == "str":
            return v
        t = it.ctx.canon(v.t)
        if isinstance(t, int):
            return str(t)
        return S(("disp", t), "str")
    if isinstance(v, Fraction):
        return S(("disp", v), "str")
    if isinstance(v, Seq) and v.kind == "bytes" and all(isinstance(x, int) for x in v.items):
        return bytes(v.items).decode("utf8", "replace")
    if isinstance(v, Agg):
        return S(("disp", it.term(v)), "str")
    raise Undecided("Display of %r" % (v,))


def concat(it, parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            q = [p]
        else:
            t = it.ctx.canon(p.t)
            q = list(t[1:]) if isinstance(t, tuple) and t and t[0] == "cat" else [t]
        for x in q:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
    if not out:
        return ""
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else S(out[0], "str")
    return S(("cat",) + tuple(out), "str")


def parse_template(bs):
    """Pieces of the compact format template: literal strings and argument slots."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode("utf8", "replace"))
            i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | (bs[i + 2] << 8)
            out.append(bytes(bs[i + 3:i + 3 + n]).decode("utf8", "replace"))
            i += 3 + n
        elif b == 0xC0:
            out.append(("arg", nxt))
            nxt += 1
            i += 1
        elif b & 0xC0 == 0xC0:
            i += 1
            spec = 0
            if b & 1:
                spec = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if b & 2:
                i += 2
                spec = spec or 1
            if b & 4:
                i += 2
                spec = spec or 1
            if b & 8:
                nxt = bs[i] | (bs[i + 1] << 8)
                i += 2
            out.append(("arg", nxt))
            nxt += 1
        else:
            raise Undecided("format template byte %#x" % b)
    return out


# ---------------------------------------------------------------------------
class Natives:
    def seq_len(self, it, v):
        v = it.force(v) if isinstance(v, SymAdt) else v
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, S) and v.sort == "str":
            return S(("strlen", it.ctx.canon(v.t)), "int")
        h = getattr(v, "length", None)
        if h is not None:
            return h(it)
        if isinstance(v, MapV):
            return self.map_len(it, v)
        raise Undecided("length of %r at %s" % (v, it.where()))

    def map_len(self, it, m):
        if m.sym is not None:
            return S(("len", m.name), "int")
        return len(m.ents)

    def map_eq(self, it, a, b):
        if len(a.ents) != len(b.ents):
            return False
        for k, t, c in a.ents:
            e = self.map_find(it, b, k)
            if e is None or not it.compare_eq(c.v, e[2].v):
                return False
        return True

    # -- maps
    def literal(self, it, v):
        """A hashable form of a key without symbolic parts, else None."""
        v = it.load(v)
        if isinstance(v, (int, str)):
            return (type(v).__name__, v)
        if isinstance(v, Agg) and v.adt == "tuple":
            out = []
            for x in v.fields:
                x = self.literal(it, x)
                if x is None:
                    return None
                out.append(x)
            return tuple(out)
        return None

    def indexed(self, it, m, k):
        """The literal-key index of m, brought up to date; None if some key is not literal."""
        if m.idx is None or m.idx[0] is not m.ents or m.idx[1] > len(m.ents):
            m.idx = [m.ents, 0, {}]
        ents, n, d = m.idx
        while n < len(ents):
            g = self.literal(it, ents[n][0])
            if g is None:
                return None
            d.setdefault(g, ents[n])
            n += 1
            m.idx[1] = n
        return d

    def map_find(self, it, m, key):
        """Entry of a map for key, splitting on key equality where needed."""
        if len(m.ents) > 8:
            k = self.literal(it, key)
            d = self.indexed(it, m, k) if k is not None else None
            if d is not None:
                if k in d:
                    return d[k]
                return m.sym.lookup(it, m, key) if m.sym is not None else None
        for e in m.ents:
            if it.compare_eq(e[0], key):
                return e
        if m.sym is not None:
            return m.sym.lookup(it, m, key)
        return None

    def map_insert(self, it, m, key, val):
        if m.sym is not None:
            it.ctx.event("insert", m.name, it.term(key), None if m.isset else val, it.where())
            mi = it.ctx.data.get("memoinsert")
            if mi is not None:
                mi.insert(it, m, key, val)
            if getattr(m.sym, "on_insert", None):
                m.sym.on_insert(it, m, key, val)
        e = self.known(it, m, key)
        if e is not None:
            old = e[2].v
            e[2].v = val
            return old
        m.ents.append([key, None, Cell(val)])
        return STOP

    # -- conversion to iterator
    def iter_of(self, it, v):
        """IntoIterator for an abstract value (by value or by reference)."""
        if isinstance(v, It):
            return v
        if isinstance(v, (Ref, Guard)):
            r, w = it.loadref(v)
            w = it.force(w) if isinstance(w, SymAdt) else w
            if isinstance(w, It):
                return w
            if isinstance(w, Seq):
                return SliceIt(it, r, len(w.items))
            if isinstance(w, MapV):
                return self.map_iter(it, w)
            if isinstance(w, Agg):
                if w.adt == OPT:
                    return ListIt([Ref(r.cell, r.path + (0,))] if w.variant else [])
                return self.user_iter(it, w, r)
            h = getattr(w, "iterate", None)
            if h is not None:
                return h(it, r)
            raise Undecided("iteration over %r at %s" % (w, it.where()))
        if isinstance(v, SymAdt):
            v = it.force(v)
        if isinstance(v, BoxV):
            return self.iter_of(it, v.cell.v)
        if isinstance(v, Seq):
            return ListIt(v.items)
        if isinstance(v, MapV):
            if v.sym is not None:
                raise Undecided("iteration over an unknown map at %s" % it.where())
            self.arrange(it, v)
            if v.isset:
                return ListIt([e[0] for e in v.ents])
            return ListIt([tup(e[0], e[2].v) for e in v.ents])
        if isinstance(v, Agg):
            last = str(v.adt).split("::")[-1]
            if v.adt == OPT:
                return ListIt(list(v.fields))
            if last == "Range":
                return RangeIt(v.fields[0], v.fields[1])
            if last == "RangeInclusive":
                return RangeIt(v.fields[0], v.fields[1], True)
            return self.user_iter(it, v, Ref(Cell(v)))
        h = getattr(v, "iterate", None)
        if h is not None:
            return h(it, Ref(Cell(v)))
        raise Undecided("into_iter of %r at %s" % (v, it.where()))

    def user_iter(self, it, w, r):
        last = str(w.adt).split("::")[-1]
        if last in ("Range", "RangeInclusive"):
            # &mut Range: keep one iterator object per range value
            rng = RangeIt(w.fields[0], w.fields[1], last == "RangeInclusive")
            return rng
        b = it.prog.find(str(w.adt).split("::")[0], last, "next", "Iterator")
        if b is not None:
            return UserIt(r, b)
        b = it.prog.find(str(w.adt).split("::")[0], last, "into_iter", "IntoIterator")
        if b is not None:
            return self.iter_of(it, it.run(b, [w]))
        raise Undecided("iteration over %s at %s" % (w.adt, it.where()))

    def arrange(self, it, m):
        if m.ordered and m.sym is None and len(m.ents) > 1:
            self.sort(it, m.ents, lambda a, b: it.compare3(b[0], a[0], "lt"))
        return m.ents

    def map_iter(self, it, m, what="both"):
        if m.sym is not None:
            h = getattr(m.sym, "iterate", None)
            if h is None:
                raise Undecided("iteration over an unknown map at %s" % it.where())
            return h(it, m, what)
        out = []
        self.arrange(it, m)
        for e in m.ents:
            k = Ref(Cell(e[0]))
            if m.isset or what == "keys":
                out.append(k)
            elif what == "values":
                out.append(Ref(e[2]))
            else:
                out.append(tup(k, Ref(e[2])))
        return ListIt(out)

    # -- construct a collection from a list of values
    def collect(self, it, vals, dty):
        k = dty[0] if dty else None
        if k == "adt":
            name = dty[1].split("::")[-1]
            if name in ("Vec", "VecDeque", "LinkedList"):
                return Seq(vals)
            if name == "Box" or name == "Rc":
                inner = dty[2][0]
                if inner[0] == "slice":
                    return BoxV(Cell(Seq(vals)))
            if name in ("HashMap", "BTreeMap"):
                m = MapV(False, ordered=name == "BTreeMap")
                for v in vals:
                    self.map_insert(it, m, v.fields[0], v.fields[1])
                return m
            if name in ("HashSet", "BTreeSet"):
                m = MapV(True, ordered=name == "BTreeSet")
                for v in vals:
                    self.map_insert(it, m, v, UNIT)
                return m
            if name == "String":
                return concat(it, [to_string(it, v) for v in vals])
            if name in ("Option", "Result"):
                good = []
                for v in vals:
                    v = it.force(v)
                    if name == "Option":
                        if v.variant == 0:
                            return none()
                    elif v.variant == 1:
                        return v
                    good.append(v.fields[0])
                r = self.collect(it, good, dty[2][0])
                return some(r) if name == "Option" else ok(r)
        raise Undecided("collect into %s at %s" % (dty, it.where()))

    # ------------------------------------------------------------------
    def call(self, it, fr, args, dty, atys):
        name = fr["name"]
        trait = (fr["trait"] or "").split("<")[0].split("::")[-1]
        pretty = fr["pretty"]
        h = getattr(self, "t_" + trait, None) if trait else None
        if h is not None:
            r = h(it, name, args, dty, fr)
            if r is not NotImplemented:
                return r
            if trait != "Iterator":
                return NotImplemented
        if trait and h is None and not pretty.startswith(("std::", "core::", "alloc::")):
            return NotImplemented
        return self.plain(it, name, pretty, args, dty, fr)

    # -- trait families
    def t_Clone(self, it, name, args, dty, fr):
        if name != "clone":
            return NotImplemented
        v = args[0]
        c, p = it.deref(v)
        return clone(it, it.read(c, p))

    def t_ToOwned(self, it, name, args, dty, fr):
        if name == "to_owned":
            return clone(it, it.load(args[0]))
        return NotImplemented

    def t_Drop(self, it, name, args, dty, fr):
        return NotImplemented

    def t_Hash(self, it, name, args, dty, fr):
        return UNIT

    def t_Debug(self, it, name, args, dty, fr):
        return NotImplemented

    def t_PartialEq(self, it, name, args, dty, fr):
        if self.user_impl(it, args[0], name, "PartialEq"):
            return NotImplemented
        if name == "eq":
            return it.compare_eq(args[0], args[1])
        if name == "ne":
            b = self.user_impl(it, args[0], "eq", "PartialEq")
            if b:
                return not truth(it, it.run(b, args))
            return not it.compare_eq(args[0], args[1])
        return NotImplemented

    def user_impl(self, it, v, name, trait):
        v = it.load(v)
        adt = v.adt if isinstance(v, Agg) else (v.ty[1] if isinstance(v, SymAdt) else None)
        if adt is None or adt == "tuple":
            return None
        a = it.prog.adts.get(adt)
        if a is None or not a["local"]:
            return None
        return it.prog.find(adt.split("::")[0], adt.split("::")[-1], name, trait)

    def t_PartialOrd(self, it, name, args, dty, fr):
        a, b = args[0], args[1]
        if self.user_impl(it, a, name, "PartialOrd"):
            return NotImplemented
        if name == "lt":
            return it.compare3(a, b, "lt")
        if name == "gt":
            return it.compare3(b, a, "lt")
        if name == "le":
            return it.compare3(a, b, "le")
        if name == "ge":
            return it.compare3(b, a, "le")
        if name == "partial_cmp":
            return some(Agg(ORD, "<=>".index(it.compare3(a, b)), []))
        return NotImplemented

    def t_Ord(self, it, name, args, dty, fr):
        if name == "cmp":
            if self.user_impl(it, args[0], "cmp", "Ord"):
                return NotImplemented
            return Agg(ORD, "<=>".index(it.compare3(args[0], args[1])), [])
        if name in ("max", "min"):
            return self.minmax(it, name, args[0], args[1])
        if name == "clamp":
            return self.minmax(it, "min", self.minmax(it, "max", args[0], args[1]), args[2])
        return NotImplemented

    def minmax(self, it, name, a, b):
        x, y = it.load(a), it.load(b)
        # std: max returns the second when equal, min the first
        if name == "max":
            return a if it.compare3(y, x, "lt") else b
        return b if it.compare3(y, x, "lt") else a

    def arithtrait(self, op):
        def f(it, name, args, dty, fr):
            a = it.load(args[0])
            if isinstance(a, Agg):
                return NotImplemented
            return it.arith(op, args[0], args[1], dty)
        return f

    def t_Add(self, it, name, args, dty, fr):
        s = strv(it, args[0])
        if s is not None:
            return concat(it, [s, strv(it, args[1])])
        return self.arithtrait("add")(it, name, args, dty, fr)

    def t_Sub(self, it, name, args, dty, fr):
        return self.arithtrait("sub")(it, name, args, dty, fr)

    def t_Mul(self, it, name, args, dty, fr):
        return self.arithtrait("mul")(it, name, args, dty, fr)

    def t_Div(self, it, name, args, dty, fr):
        return self.arithtrait("div")(it, name, args, dty, fr)

    def t_Rem(self, it, name, args, dty, fr):
        return self.arithtrait("rem")(it, name, args, dty, fr)

    def t_Neg(self, it, name, args, dty, fr):
        return it.arith("sub", 0, args[0])

    def t_Not(self, it, name, args, dty, fr):
        v = it.load(args[0])
        if isinstance(v, bool):
            return not v
        return NotImplemented

    def assign(op):
        def f(self, it, name, args, dty, fr):
            c, p = it.deref(args[0])
            v = it.read(c, p)
            if op == "add" and strv(it, v) is not None:
                it.write(c, p, concat(it, [strv(it, v), strv(it, args[1])]))
                return UNIT
            it.write(c, p, it.arith(op, v, args[1]))
            return UNIT
        return f

    t_AddAssign = assign("add")
    t_SubAssign = assign("sub")
    t_MulAssign = assign("mul")

    def t_Deref(self, it, name, args, dty, fr):
        if self.user_impl(it, args[0], name, "Deref"):
            return NotImplemented
        return self.deref1(it, args[0])

    t_DerefMut = t_Deref

    def deref1(self, it, r):
        c, p = it.deref(r)
        v = it.read(c, p)
        if isinstance(v, RcV):
            return Ref(v.cell)
        if isinstance(v, Guard):
            return v.ref
        if isinstance(v, BoxV):
            return Ref(v.cell)
        if isinstance(v, Ref):
            return v
        return Ref(c, p)       # Vec -> slice, String -> str

    def t_AsRef(self, it, name, args, dty, fr):
        return self.deref1(it, args[0])

    t_AsMut = t_AsRef

    def t_Borrow(self, it, name, args, dty, fr):
        return self.deref1(it, args[0])

    t_BorrowMut = t_Borrow

    def t_Index(self, it, name, args, dty, fr):
        if self.user_impl(it, args[0], name, "Index"):
            return NotImplemented
        r, v = it.loadref(args[0])
        v = it.force(v) if isinstance(v, SymAdt) else v
        ix = args[1]
        if isinstance(v, MapV):
            e = self.map_find(it, v, ix)
            if e is None:
                raise PanicPath("missing key at %s" % it.where())
            return Ref(e[2])
        if strv(it, v) is not None:
            return self.str_index(it, v, ix)
        ix = it.load(ix)
        if isinstance(ix, Agg):
            a, b = self.range_bounds(it, ix, v)
            return Ref(r.cell, r.path + (("sl", a, b),))
        if isinstance(v, Seq):
            if isinstance(ix, S):
                ix = it.pick_index(ix, len(v.items))
            if ix >= len(v.items):
                raise PanicPath("index out of bounds at %s" % it.where())
            return Ref(r.cell, r.path + (ix,))
        return Ref(r.cell, r.path + (ix,))

    t_IndexMut = t_Index

    def range_bounds(self, it, rng, v):
        last = str(rng.adt).split("::")[-1]
        n = len(v.items) if isinstance(v, Seq) else None
        f = [it.load(x) for x in rng.fields]
        if last == "Range":
            a, b = f[0], f[1]
        elif last == "RangeFrom":
            a, b = f[0], n
        elif last == "RangeTo":
            a, b = 0, f[0]
        elif last == "RangeFull":
            a, b = 0, n
        elif last == "RangeInclusive":
            a, b = f[0], it.arith("add", f[1], 1)
        elif last == "RangeToInclusive":
            a, b = 0, it.arith("add", f[0], 1)
        else:
            raise Undecided("slice index %s" % last)
        if not isinstance(a, int) or not isinstance(b, int):
            raise Undecided("symbolic slice bounds at %s" % it.where())
        if n is not None and (b > n or a > b):
            raise PanicPath("slice out of bounds at %s" % it.where())
        return a, b

    def str_index(self, it, v, ix):
        ix = it.load(ix)
        v = it.load(v)
        if isinstance(v, str):
            last = str(ix.adt).split("::")[-1]
            b = v.encode()
            n = len(b)
            f = [it.load(x) for x in ix.fields]
            lo = f[0] if last in ("Range", "RangeFrom", "RangeInclusive") else 0
            hi = {"Range": lambda: f[1], "RangeTo": lambda: f[0], "RangeInclusive": lambda: f[1] + 1}.get(last, lambda: n)()
            if lo > hi or hi > n:
                raise PanicPath("str slice at %s" % it.where())
            return b[lo:hi].decode("utf8", "replace")
        return S(("substr", it.ctx.canon(v.t), it.term(ix)), "str")

    def t_From(self, it, name, args, dty, fr):
        return self.convert(it, args[0], dty, fr)

    def t_Into(self, it, name, args, dty, fr):
        return self.convert(it, args[0], dty, fr)

    t_TryFrom = None
    t_TryInto = None

    def convert(self, it, v, dty, fr):
        k = dty[0] if dty else None
        w = v
        if k is None and isinstance(v, Ref) and strv(it, v) is not None:
            return strv(it, v)      # String::from passed as a value
        if k in ("param", "float"):
            w = it.load(v)
            if isinstance(w, (int, Fraction)) and not isinstance(w, bool):
                return Fraction(w) if k == "float" else w
            return w
        if k == "int":
            w = it.load(v)
            if isinstance(w, bool):
                return int(w)
            return w
        if k == "adt":
            nm = dty[1].split("::")[-1]
            s = strv(it, v)
            if nm == "String" and s is not None:
                return s
            if nm == "Box" or nm == "Rc":
                if isinstance(v, Seq):
                    return BoxV(Cell(v))
                if nm == "Box" and dty[2][0][0] == "slice":
                    return BoxV(Cell(clone(it, it.load(v))))
                return BoxV(Cell(v))
            if nm == "Vec":
                w = it.load(v)
                if isinstance(w, Seq):
                    return clone(it, w) if isinstance(v, Ref) else w
            if nm == "Option":
                return some(v)
            if nm in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                return self.collect(it, drain(it, self.iter_of(it, v)), dty)
        return v

    def t_Default(self, it, name, args, dty, fr):
        return self.default(it, dty)

    def default(self, it, ty):
        k = ty[0]
        if k == "bool":
            return False
        if k == "int":
            return 0
        if k == "float":
            return Fraction(0)
        if k == "tuple":
            return Agg("tuple", 0, [self.default(it, x) for x in ty[1]]) if ty[1] else UNIT
        if k == "adt":
            nm = ty[1].split("::")[-1]
            if nm in ("Vec", "VecDeque"):
                return Seq([])
            if nm in ("HashMap", "BTreeMap"):
                return self.newmap(it, False, nm == "BTreeMap")
            if nm in ("HashSet", "BTreeSet"):
                return self.newmap(it, True, nm == "BTreeSet")
            if nm == "String":
                return ""
            if nm == "Option":
                return none()
            if nm == "Box":
                return BoxV(Cell(self.default(it, ty[2][0])))
            if nm == "Rc":
                return RcV(Cell(self.default(it, ty[2][0])))
            if nm == "RefCell":
                return RefCellV(self.default(it, ty[2][0]))
            if nm in ("BuildHasherDefault", "RandomState", "PhantomData"):
                return Agg(ty[1], 0, [])
            b = it.prog.find(ty[1].split("::")[0], nm, "default", "Default")
            if b is not None:
                return it.run(b, [])
        raise Undecided("Default for %s" % (ty,))

    def newmap(self, it, isset, ordered=False):
        m = MapV(isset, ordered=ordered)
        it.ctx.data["maps"] = it.ctx.data.get("maps", 0) + 1
        m.name = ("map", it.ctx.data["maps"])
        return m

    def t_IntoIterator(self, it, name, args, dty, fr):
        if self.user_impl(it, args[0], "into_iter", "IntoIterator") and not isinstance(args[0], Ref):
            return NotImplemented
        v = args[0]
        return self.iter_of(it, v)

    def t_FromIterator(self, it, name, args, dty, fr):
        return self.collect(it, drain(it, self.iter_of(it, args[0])), dty)

    def t_Extend(self, it, name, args, dty, fr):
        r, v = it.loadref(args[0])
        vals = drain(it, self.iter_of(it, args[1]))
        deref = None
        for x in vals:
            if isinstance(v, Seq):
                v.items.append(copyv(it.load(x)) if isinstance(x, Ref) and self.wants_copy(it, fr) else x)
            elif isinstance(v, MapV):
                if v.isset:
                    self.map_insert(it, v, x, UNIT)
                else:
                    self.map_insert(it, v, x.fields[0], x.fields[1])
            elif strv(it, v) is not None:
                v = concat(it, [v, to_string(it, x)])
                it.write(r.cell, r.path, v)
            else:
                h = getattr(v, "push", None)
                if h is None:
                    raise Undecided("extend %r" % (v,))
                h(it, it.load(x))
        return UNIT

    def wants_copy(self, it, fr):
        # Extend<&'a T>: element type of the trait argument is a reference
        a = fr.get("args") or []
        s = str(a)
        return "'ref'" in s or '"ref"' in s

    def t_Fn(self, it, name, args, dty, fr):
        t = args[1]
        a = list(t.fields) if isinstance(t, Agg) else []
        return it.call_value(args[0], a)

    t_FnMut = t_Fn
    t_FnOnce = t_Fn

    def t_Try(self, it, name, args, dty, fr):
        if name == "branch":
            v = it.force(args[0])
            if v.adt == OPT:
                return Agg(CF, 0, [v.fields[0]]) if v.variant == 1 else Agg(CF, 1, [none()])
            if v.adt == RES:
                return Agg(CF, 0, [v.fields[0]]) if v.variant == 0 else Agg(CF, 1, [v])
        if name == "from_output":
            return some(args[0]) if dty[1] == OPT else ok(args[0])
        return NotImplemented

    def t_FromResidual(self, it, name, args, dty, fr):
        v = it.force(args[0])
        if v.adt == OPT:
            return none() if dty[1] == OPT else err(UNIT)
        return err(v.fields[0])

    def t_ToString(self, it, name, args, dty, fr):
        return to_string(it, args[0])

    def t_Write(self, it, name, args, dty, fr):
        if name in ("write_all", "write_str"):
            r, v = it.loadref(args[0])
            s = to_string(it, args[1])
            self.sink(it, r, v, s)
            return ok(UNIT)
        if name == "write_fmt":
            r, v = it.loadref(args[0])
            self.sink(it, r, v, self.fmt(it, args[1]))
            return ok(UNIT)
        if name == "flush":
            return ok(UNIT)
        return NotImplemented

    def sink(self, it, r, v, s):
        if isinstance(v, Seq):
            v.items.append(("str", s))
        elif strv(it, v) is not None:
            it.write(r.cell, r.path, concat(it, [v, s]))
        elif hasattr(v, "write_str"):
            v.write_str(it, s)
        else:
            raise Undecided("write into %r" % (v,))

    def fmt(self, it, a):
        a = it.load(a)
        if isinstance(a, Agg) and a.adt == "fmtargs":
            return concat(it, a.fields)
        if strv(it, a) is not None:
            return a
        raise Undecided("format arguments %r" % (a,))

    # -- iterator methods
    def t_Iterator(self, it, name, args, dty, fr):
        src = args[0]
        r0, w = it.loadref(src) if isinstance(src, (Ref, BoxV)) else (None, src)
        w = it.force(w) if isinstance(w, SymAdt) else w
        if isinstance(w, Agg) and str(w.adt).split("::")[-1] in ("Range", "RangeInclusive"):
            rng = self.iter_of(it, w)
            if name == "next":
                x = rng.next(it)
                if x is not STOP:
                    w.fields[0] = rng.a
                return none() if x is STOP else some(x)
            w = rng
        elif isinstance(w, Agg) and w.adt != OPT:
            b = it.prog.find(str(w.adt).split("::")[0], str(w.adt).split("::")[-1], name, "Iterator")
            if b is not None:
                return NotImplemented
            w = self.user_iter(it, w, r0 or Ref(Cell(w)))
        if not isinstance(w, It):
            w = self.iter_of(it, src)
        return self.iter_method(it, name, w, args, dty, fr)

    def t_DoubleEndedIterator(self, it, name, args, dty, fr):
        w = it.load(args[0])
        if name == "next_back":
            x = w.back(it)
            return none() if x is STOP else some(x)
        return self.t_Iterator(it, name, args, dty, fr)

    def t_ExactSizeIterator(self, it, name, args, dty, fr):
        w = it.load(args[0])
        if name == "len":
            if isinstance(w, SliceIt):
                return w.j - w.i
            if isinstance(w, ListIt):
                return len(w.items)
            if isinstance(w, (MapIt, EnumIt, RevIt)):
                return self.t_ExactSizeIterator(it, name, [w.src], dty, fr)
        return NotImplemented

    def iter_method(self, it, n, w, args, dty, fr):
        cv = it.call_value
        if n == "next":
            x = w.next(it)
            return none() if x is STOP else some(x)
        if n in ("by_ref", "fuse", "into_iter", "inspect"):
            return w if n != "by_ref" else args[0]
        if n == "map":
            return MapIt(w, args[1])
        if n == "filter":
            return FilterIt(w, args[1])
        if n == "filter_map":
            return FilterIt(w, args[1], True)
        if n == "zip":
            return ZipIt(w, self.iter_of(it, args[1]))
        if n == "chain":
            return ChainIt(w, self.iter_of(it, args[1]))
        if n == "enumerate":
            return EnumIt(w)
        if n == "rev":
            return RevIt(w)
        if n == "peekable":
            return PeekIt(w)
        if n in ("copied", "cloned"):
            return MapIt(w, lambda x: clone(it, it.read(*it.deref(x))))
        if n in ("flat_map", "flatten"):
            f = args[1] if n == "flat_map" else None

            def gen():
                while True:
                    x = w.next(it)
                    if x is STOP:
                        return
                    sub = self.iter_of(it, cv(f, [x]) if f is not None else x)
                    while True:
                        y = sub.next(it)
                        if y is STOP:
                            break
                        yield y
            return FnIt(gen())
        if n in ("take", "skip", "step_by"):
            k = it.load(args[1])
            if not isinstance(k, int):
                raise Undecided("symbolic %s at %s" % (n, it.where()))

            def gen2():
                i = 0
                while True:
                    if n == "take" and i >= k:
                        return
                    x = w.next(it)
                    if x is STOP:
                        return
                    if n == "take" or (n == "skip" and i >= k) or (n == "step_by" and i % k == 0):
                        yield x
                    i += 1
            return FnIt(gen2())
        if n in ("take_while", "skip_while", "map_while"):
            f = args[1]

            def gen3():
                skipping = True
                while True:
                    x = w.next(it)
                    if x is STOP:
                        return
                    if n == "map_while":
                        r = it.force(cv(f, [x]))
                        if r.variant == 0:
                            return
                        yield r.fields[0]
                        continue
                    if n == "take_while":
                        if not truth(it, cv(f, [Ref(Cell(x))])):
                            return
                        yield x
                        continue
                    if skipping and truth(it, cv(f, [Ref(Cell(x))])):
                        continue
                    skipping = False
                    yield x
            return FnIt(gen3())
        if n == "scan":
            st = Cell(args[1])

            def gen4():
                while True:
                    x = w.next(it)
                    if x is STOP:
                        return
                    r = it.force(cv(args[2], [Ref(st), x]))
                    if r.variant == 0:
                        return
                    yield r.fields[0]
            return FnIt(gen4())
        # consumers
        if n == "collect":
            return self.collect(it, drain(it, w), dty)
        if n == "count":
            return len(drain(it, w))
        if n == "last":
            xs = drain(it, w)
            return some(xs[-1]) if xs else none()
        if n == "nth":
            xs = None
            k = it.load(args[1])
            for _ in range(k + 1):
                xs = w.next(it)
                if xs is STOP:
                    return none()
            return some(xs)
        if n in ("all", "any"):
            while True:
                x = w.next(it)
                if x is STOP:
                    return n == "all"
                b = truth(it, cv(args[1], [x]))
                if n == "all" and not b:
                    return False
                if n == "any" and b:
                    return True
        if n in ("find", "position", "find_map", "rposition"):
            i = 0
            while True:
                x = w.next(it)
                if x is STOP:
                    return none()
                if n == "find_map":
                    r = it.force(cv(args[1], [x]))
                    if r.variant == 1:
                        return r
                elif truth(it, cv(args[1], [Ref(Cell(x)) if n == "find" else x])):
                    return some(x if n == "find" else i)
                i += 1
        if n in ("fold", "rfold"):
            acc = args[1]
            while True:
                x = w.next(it) if n == "fold" else w.back(it)
                if x is STOP:
                    return acc
                acc = cv(args[2], [acc, x])
        if n == "try_fold":
            acc = args[1]
            while True:
                x = w.next(it)
                if x is STOP:
                    return some(acc) if dty[1] == OPT else ok(acc)
                r = it.force(cv(args[2], [acc, x]))
                good = r.variant == (1 if r.adt == OPT else 0)
                if not good:
                    return r
                acc = r.fields[0]
        if n == "reduce":
            acc = w.next(it)
            if acc is STOP:
                return none()
            while True:
                x = w.next(it)
                if x is STOP:
                    return some(acc)
                acc = cv(args[1], [acc, x])
        if n in ("for_each", "try_for_each"):
            while True:
                x = w.next(it)
                if x is STOP:
                    return UNIT
                cv(args[1], [x])
        if n in ("sum", "product"):
            acc = 0 if n == "sum" else 1
            for x in drain(it, w):
                acc = it.arith("add" if n == "sum" else "mul", acc, x)
            return acc
        if n in ("max", "min"):
            acc = w.next(it)
            if acc is STOP:
                return none()
            while True:
                x = w.next(it)
                if x is STOP:
                    return some(acc)
                acc = self.minmax(it, n, acc, x)
        if n in ("max_by_key", "min_by_key"):
            xs = drain(it, w)
            if not xs:
                return none()
            best = xs[0]
            bk = cv(args[1], [Ref(Cell(best))])
            for x in xs[1:]:
                k = cv(args[1], [Ref(Cell(x))])
                lt = it.compare3(k, bk, "lt")
                if (n == "min_by_key" and lt) or (n == "max_by_key" and not lt):
                    best, bk = x, k
            return some(best)
        if n in ("unzip",):
            a, b = [], []
            for x in drain(it, w):
                a.append(x.fields[0])
                b.append(x.fields[1])
            return tup(self.collect(it, a, dty[1][0]), self.collect(it, b, dty[1][1]))
        if n == "partition":
            a, b = [], []
            for x in drain(it, w):
                (a if truth(it, cv(args[1], [Ref(Cell(x))])) else b).append(x)
            return tup(self.collect(it, a, dty[1][0]), self.collect(it, b, dty[1][1]))
        if n in ("eq", "ne"):
            xs, ys = drain(it, w), drain(it, self.iter_of(it, args[1]))
            e = len(xs) == len(ys) and all(it.compare_eq(x, y) for x, y in zip(xs, ys))
            return e if n == "eq" else not e
        if n in ("size_hint",):
            return tup(0, none())
        if n == "peek" and isinstance(w, PeekIt):
            if not w.buf:
                x = w.src.next(it)
                if x is STOP:
                    return none()
                w.buf.append(x)
            return some(Ref(Cell(w.buf[0])))
        return NotImplemented

    # ------------------------------------------------------------------
    def plain(self, it, name, pretty, args, dty, fr):
        seg = pretty.split("::")
        owner = None
        # owner type: segment before the method, generic args stripped
        p2 = pretty
        import re
        p3 = re.sub(r"::<[^>]*>", "", p2)
        parts = p3.split("::")
        owner = parts[-2] if len(parts) > 1 else ""
        if owner.startswith("<impl"):
            owner = "prim"
        h = getattr(self, "o_" + owner, None)
        if "<impl [T]>" in pretty or "<impl str>" in pretty or "<impl " in pretty:
            if "<impl [T]>" in pretty or "[T]" in pretty:
                return self.o_Vec(it, name, args, dty, fr)
            if "<impl str>" in pretty:
                return self.o_str(it, name, args, dty, fr)
            return self.o_num(it, name, args, dty, fr, pretty)
        if h is not None:
            return h(it, name, args, dty, fr)
        f = getattr(self, "f_" + name, None)
        if f is not None:
            return f(it, args, dty, fr, pretty)
        if args:
            v = it.load(args[0]) if isinstance(args[0], (Ref, Guard)) else args[0]
            if isinstance(v, It):
                return self.iter_method(it, name, v, args, dty, fr)
        return NotImplemented

    # free functions
    def f_from_elem(self, it, args, dty, fr, pretty):
        v, n = args
        n = it.load(n)
        if isinstance(n, int):
            if n > 70000:
                raise Undecided("huge vec")
            return Seq([clone(it, v) for _ in range(n)]) if n <= 4096 else BigFill(v, n)
        return SymArr(v, n)

    def f_drop(self, it, args, dty, fr, pretty):
        it.drop_value(Cell(args[0]), ())
        return UNIT

    def f_forget(self, it, args, dty, fr, pretty):
        return UNIT

    def f_swap(self, it, args, dty, fr, pretty):
        c1, p1 = it.deref(args[0])
        c2, p2 = it.deref(args[1])
        a, b = it.read(c1, p1), it.read(c2, p2)
        it.write(c1, p1, b)
        it.write(c2, p2, a)
        return UNIT

    def f_replace(self, it, args, dty, fr, pretty):
        c, p = it.deref(args[0])
        a = it.read(c, p)
        it.write(c, p, args[1])
        return a

    def f_take(self, it, args, dty, fr, pretty):
        c, p = it.deref(args[0])
        a = it.read(c, p)
        it.write(c, p, self.default(it, dty))
        return a

    def f_max(self, it, args, dty, fr, pretty):
        return self.minmax(it, "max", args[0], args[1])

    def f_min(self, it, args, dty, fr, pretty):
        return self.minmax(it, "min", args[0], args[1])

    def f_must_use(self, it, args, dty, fr, pretty):
        return args[0]

    def f_black_box(self, it, args, dty, fr, pretty):
        return args[0]

    def f_identity(self, it, args, dty, fr, pretty):
        return args[0]

    def f_once(self, it, args, dty, fr, pretty):
        return ListIt([args[0]])

    def f_empty(self, it, args, dty, fr, pretty):
        return ListIt([])

    def f_from_utf8(self, it, args, dty, fr, pretty):
        v = it.load(args[0])
        return ok(self.bytes_str(it, v))

    def bytes_str(self, it, v):
        if strv(it, v) is not None:
            return v
        if isinstance(v, Seq):
            ps = []
            for x in v.items:
                if isinstance(x, tuple) and x and x[0] == "str":
                    ps.append(x[1])
                elif isinstance(x, int):
                    ps.append(chr(x))
                else:
                    raise Undecided("bytes")
            return concat(it, ps)
        raise Undecided("from_utf8 of %r" % (v,))

    def f_size_of(self, it, args, dty, fr, pretty):
        return 8

    def f_panic(self, it, args, dty, fr, pretty):
        raise PanicPath("panic at %s" % it.where())

    f_panic_fmt = f_panic_explicit = f_assert_failed = f_panic_display = f_unwrap_failed = f_panic_str = f_panic
    f_panic_nounwind = f_unreachable_display = f_begin_panic = f_panic_bounds_check = f_panic

    def f_format(self, it, args, dty, fr, pretty):
        return self.fmt(it, args[0])

    def f_box_assume_init_into_vec_unsafe(self, it, args, dty, fr, pretty):
        v = args[0].cell.v
        # MaybeUninit<[T;N]> wrappers were flattened by write-through
        while isinstance(v, Agg):
            v = v.fields[-1]
        return Seq(list(v.items))

    def f_into_vec(self, it, args, dty, fr, pretty):
        v = args[0]
        v = v.cell.v if isinstance(v, BoxV) else v
        return Seq(list(v.items))

    def f_assert_unsafe_precondition(self, it, args, dty, fr, pretty):
        return UNIT

    def f_ub_checks(self, it, args, dty, fr, pretty):
        return False

    # types
    def o_mem(self, it, name, args, dty, fr):
        f = getattr(self, "f_" + name, None)
        return f(it, args, dty, fr, "") if f else NotImplemented

    def o_Box(self, it, name, args, dty, fr):
        if name == "new":
            return BoxV(Cell(args[0]))
        if name == "new_uninit":
            return BoxV(Cell(UNINIT))
        if name == "into_vec":
            return self.f_into_vec(it, args, dty, fr, "")
        if name in ("assume_init", "into_boxed_slice", "write"):
            return args[0]
        if name in ("as_ref", "as_mut", "leak"):
            return Ref(args[0].cell)
        return NotImplemented

    def o_Rc(self, it, name, args, dty, fr):
        if name == "new":
            return RcV(Cell(args[0]))
        if name == "downgrade":
            v = it.read(*it.deref(args[0]))
            return RcV(v.cell, True)
        if name == "ptr_eq":
            a, b = it.read(*it.deref(args[0])), it.read(*it.deref(args[1]))
            return a.cell is b.cell
        if name == "clone":
            v = it.read(*it.deref(args[0]))
            return RcV(v.cell, v.weak)
        if name in ("strong_count", "weak_count"):
            return S(it.ctx.fresh("rc"), "int")
        return NotImplemented

    def o_Weak(self, it, name, args, dty, fr):
        if name in ("new", "default"):
            return RcV(None, True)
        if name == "upgrade":
            v = it.read(*it.deref(args[0]))
            return none() if v.cell is None else some(RcV(v.cell))
        if name == "clone":
            v = it.read(*it.deref(args[0]))
            return RcV(v.cell, True)
        if name == "ptr_eq":
            return self.o_Rc(it, name, args, dty, fr)
        return NotImplemented

    def o_RefCell(self, it, name, args, dty, fr):
        if name == "new":
            return RefCellV(args[0])
        if name == "into_inner":
            return args[0].cell.v
        rc = it.load(args[0])
        if not isinstance(rc, RefCellV):
            raise Undecided("borrow of %r" % (rc,))
        if name in ("borrow", "try_borrow"):
            if rc.writer:
                if name == "try_borrow":
                    return err(UNIT)
                it.ctx.event("double-borrow", "borrow", it.where())
                raise PanicPath("RefCell already mutably borrowed at %s" % it.where())
            rc.readers += 1
            g = Guard(rc, False, Ref(rc.cell))
            return ok(g) if name == "try_borrow" else g
        if name in ("borrow_mut", "try_borrow_mut"):
            if rc.writer or rc.readers:
                if name == "try_borrow_mut":
                    return err(UNIT)
                it.ctx.event("double-borrow", "borrow_mut", it.where())
                raise PanicPath("RefCell already borrowed at %s" % it.where())
            rc.writer += 1
            g = Guard(rc, True, Ref(rc.cell))
            return ok(g) if name == "try_borrow_mut" else g
        if name == "replace":
            old = rc.cell.v
            rc.cell.v = args[1]
            return old
        if name == "get_mut":
            return Ref(rc.cell)
        return NotImplemented

    def o_Ref(self, it, name, args, dty, fr):
        if name == "map":
            g = args[0]
            return Guard2(g, it.call_value(args[1], [g.ref]))
        return NotImplemented

    o_RefMut = o_Ref

    def o_Option(self, it, name, args, dty, fr):
        r = None
        v = args[0]
        if isinstance(v, (Ref, Guard)):
            r, v = it.loadref(v)
        v0 = v
        v = it.force(v)
        if isinstance(v0, SymAdt) and r is not None:
            v = copyv(v)
            it.write(r.cell, r.path, v)
        if not isinstance(v, Agg):
            raise Undecided("Option method on %r at %s" % (v, it.where()))
        isS = v.variant == 1
        cv = it.call_value
        if name in ("unwrap", "expect", "unwrap_unchecked"):
            if not isS:
                raise PanicPath("unwrap of None at %s" % it.where())
            return v.fields[0]
        if name == "is_some":
            return isS
        if name == "is_none":
            return not isS
        if name == "unwrap_or":
            return v.fields[0] if isS else args[1]
        if name == "unwrap_or_else":
            return v.fields[0] if isS else cv(args[1], [])
        if name == "unwrap_or_default":
            return v.fields[0] if isS else self.default(it, dty)
        if name == "map":
            return some(cv(args[1], [v.fields[0]])) if isS else v
        if name == "and_then":
            return cv(args[1], [v.fields[0]]) if isS else v
        if name == "map_or":
            return cv(args[2], [v.fields[0]]) if isS else args[1]
        if name == "map_or_else":
            return cv(args[2], [v.fields[0]]) if isS else cv(args[1], [])
        if name == "is_some_and":
            return truth(it, cv(args[1], [v.fields[0]])) if isS else False
        if name == "is_none_or":
            return truth(it, cv(args[1], [v.fields[0]])) if isS else True
        if name == "ok_or":
            return ok(v.fields[0]) if isS else err(args[1])
        if name == "ok_or_else":
            return ok(v.fields[0]) if isS else err(cv(args[1], []))
        if name in ("copied", "cloned"):
            return some(clone(it, it.read(*it.deref(v.fields[0])))) if isS else none()
        if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            if not isS:
                return none()
            rr = Ref(r.cell, r.path + (0,)) if r is not None else Ref(Cell(v.fields[0]))
            if "deref" in name:
                rr = self.deref1(it, rr)
            return some(rr)
        if name == "take":
            it.write(r.cell, r.path, none())
            return v
        if name == "replace":
            it.write(r.cell, r.path, some(args[1]))
            return v
        if name in ("insert", "get_or_insert", "get_or_insert_with"):
            if name == "insert" or not isS:
                nv = args[1] if name != "get_or_insert_with" else cv(args[1], [])
                it.write(r.cell, r.path, some(nv))
            return Ref(r.cell, r.path + (0,))
        if name == "or":
            return v if isS else args[1]
        if name == "or_else":
            return v if isS else cv(args[1], [])
        if name == "and":
            return args[1] if isS else v
        if name == "xor":
            w = it.force(args[1])
            if isS and w.variant == 0:
                return v
            if not isS and w.variant == 1:
                return w
            return none()
        if name == "filter":
            return v if isS and truth(it, cv(args[1], [Ref(Cell(v.fields[0]))])) else none()
        if name == "zip":
            w = it.force(args[1])
            return some(tup(v.fields[0], w.fields[0])) if isS and w.variant == 1 else none()
        if name in ("iter", "iter_mut"):
            return ListIt([Ref(r.cell, r.path + (0,))] if isS else [])
        if name == "flatten":
            return v.fields[0] if isS else v
        return NotImplemented

    def o_Result(self, it, name, args, dty, fr):
        v = args[0]
        if isinstance(v, Ref):
            v = it.load(v)
        v = it.force(v)
        good = v.variant == 0
        cv = it.call_value
        if name in ("unwrap", "expect"):
            if not good:
                raise PanicPath("unwrap of Err at %s" % it.where())
            return v.fields[0]
        if name == "is_ok":
            return good
        if name == "is_err":
            return not good
        if name == "ok":
            return some(v.fields[0]) if good else none()
        if name == "err":
            return none() if good else some(v.fields[0])
        if name == "map":
            return ok(cv(args[1], [v.fields[0]])) if good else v
        if name == "map_err":
            return v if good else err(cv(args[1], [v.fields[0]]))
        if name == "and_then":
            return cv(args[1], [v.fields[0]]) if good else v
        if name == "unwrap_or":
            return v.fields[0] if good else args[1]
        if name == "unwrap_or_else":
            return v.fields[0] if good else cv(args[1], [v.fields[0]])
        return NotImplemented

    def o_ops(self, it, name, args, dty, fr):
        return NotImplemented

    def o_RangeInclusive(self, it, name, args, dty, fr):
        if name == "new":
            return Agg("core::ops::range::RangeInclusive", 0, [args[0], args[1], False])
        return NotImplemented

    def o_Vec(self, it, name, args, dty, fr):
        if name in ("new", "with_capacity") :
            return Seq([])
        r, v = it.loadref(args[0])
        v = it.force(v) if isinstance(v, SymAdt) else v
        h = getattr(v, "m_" + name, None)
        if h is not None:
            return h(it, args)
        if not isinstance(v, Seq):
            if name == "len":
                return self.seq_len(it, v)
            if name in ("iter", "iter_mut"):
                return self.iter_of(it, args[0])
            if name == "get" and hasattr(v, "getitem"):
                return v.get_opt(it, r, args[1])
            if name in ("as_slice", "as_mut_slice", "into_boxed_slice"):
                return args[0]
            if name in ("reserve", "shrink_to_fit"):
                return UNIT
            if name == "is_empty":
                return it.compare_eq(self.seq_len(it, v), 0)
            raise Undecided("%s on %r at %s" % (name, v, it.where()))
        L = v.items
        if any(False for _ in ()):
            pass
        if name == "len":
            return len(L)
        if name == "is_empty":
            return not L
        if name in ("push", "push_back"):
            L.append(args[1])
            return UNIT
        if name == "push_front":
            L.insert(0, args[1])
            return UNIT
        if name in ("pop", "pop_back"):
            return some(L.pop()) if L else none()
        if name == "pop_front":
            return some(L.pop(0)) if L else none()
        if name == "clear":
            del L[:]
            return UNIT
        if name == "truncate":
            k = it.load(args[1])
            del L[k:]
            return UNIT
        if name in ("reserve", "shrink_to_fit", "reserve_exact"):
            return UNIT
        if name in ("iter", "iter_mut"):
            return SliceIt(it, r, len(L))
        if name in ("first", "last", "first_mut", "last_mut", "front", "back"):
            if not L:
                return none()
            return some(Ref(r.cell, r.path + (0 if name[0] == "f" else len(L) - 1,)))
        if name in ("get", "get_mut"):
            ix = it.load(args[1])
            if isinstance(ix, S):
                t = it.ctx.canon(ix.t)
                if not it.compare3(ix, len(L), "lt"):
                    return none()
                ix = it.pick_index(ix, len(L))
            if isinstance(ix, Agg):
                a, b = self.range_bounds(it, ix, v)
                return some(Ref(r.cell, r.path + (("sl", a, b),)))
            return some(Ref(r.cell, r.path + (ix,))) if 0 <= ix < len(L) else none()
        if name in ("get_unchecked", "get_unchecked_mut"):
            return Ref(r.cell, r.path + (it.load(args[1]),))
        if name == "contains":
            for x in L:
                if it.compare_eq(x, args[1]):
                    return True
            return False
        if name == "reverse":
            L.reverse()
            return UNIT
        if name == "insert":
            L.insert(it.load(args[1]), args[2])
            return UNIT
        if name in ("remove", "swap_remove"):
            k = it.load(args[1])
            if not isinstance(k, int) or k >= len(L):
                raise PanicPath("remove out of bounds at %s" % it.where())
            x = L[k]
            if name == "swap_remove":
                L[k] = L[-1]
                L.pop()
            else:
                L.pop(k)
            return x
        if name == "swap":
            i, j = it.load(args[1]), it.load(args[2])
            L[i], L[j] = L[j], L[i]
            return UNIT
        if name in ("to_vec", "into_vec", "to_owned"):
            return clone(it, Seq(L))
        if name in ("as_slice", "as_mut_slice", "as_ref", "as_mut"):
            return args[0]
        if name == "into_boxed_slice":
            return BoxV(Cell(v))
        if name == "extend_from_slice":
            L.extend(clone(it, x) for x in it.load(args[1]).items)
            return UNIT
        if name == "append":
            o = it.load(args[1])
            L.extend(o.items)
            o.items = []
            return UNIT
        if name == "drain":
            if isinstance(args[1], Agg):
                a, b = self.range_bounds(it, args[1], v)
            xs = L[a:b]
            del L[a:b]
            return ListIt(xs)
        if name == "split_off":
            k = it.load(args[1])
            xs = L[k:]
            del L[k:]
            return Seq(xs)
        if name in ("split_first", "split_last"):
            if not L:
                return none()
            n = len(L)
            if name == "split_first":
                return some(tup(Ref(r.cell, r.path + (0,)), Ref(r.cell, r.path + (("sl", 1, n),))))
            return some(tup(Ref(r.cell, r.path + (n - 1,)), Ref(r.cell, r.path + (("sl", 0, n - 1),))))
        if name in ("sort", "sort_unstable"):
            ids = [it.load(x) for x in L]
            if len(ids) > 2 and all(isinstance(x, S) and x.sort == "node" or isinstance(x, int) and not isinstance(x, bool) for x in ids) \
                    and any(isinstance(x, S) for x in ids):
                # ids of unknown order: any order does, equal ones side by side
                keys = [it.ctx.canon(x.t) if isinstance(x, S) else x for x in ids]
                done = []
                for k in keys:
                    if k not in done:
                        done.append(k)
                L[:] = [x for k in done for x, y in zip(list(ids), keys) if y == k]
                return UNIT
            self.sort(it, L, lambda a, b: it.compare3(b, a, "lt"))
            return UNIT
        if name in ("sort_by", "sort_unstable_by"):
            self.sort(it, L, lambda a, b: it.force(it.call_value(args[1], [Ref(Cell(a)), Ref(Cell(b))])).variant == 2)
            return UNIT
        if name in ("sort_by_key", "sort_unstable_by_key"):
            self.sort(it, L, lambda a, b: it.compare3(it.call_value(args[1], [Ref(Cell(b))]), it.call_value(args[1], [Ref(Cell(a))]), "lt"))
            return UNIT
        if name == "dedup":
            out = []
            for x in L:
                if not out or not it.compare_eq(out[-1], x):
                    out.append(x)
            L[:] = out
            return UNIT
        if name == "retain":
            L[:] = [x for x in list(L) if truth(it, it.call_value(args[1], [Ref(Cell(x))]))]
            return UNIT
        if name in ("resize", "resize_with"):
            k = it.load(args[1])
            if not isinstance(k, int):
                raise Undecided("symbolic resize")
            while len(L) < k:
                L.append(clone(it, args[2]) if name == "resize" else it.call_value(args[2], []))
            del L[k:]
            return UNIT
        if name == "fill":
            for i in range(len(L)):
                L[i] = clone(it, args[1])
            return UNIT
        if name == "concat":
            xs = [it.load(x) for x in L]
            if all(isinstance(x, Seq) for x in xs):
                return Seq([clone(it, y) for x in xs for y in x.items])
            return concat(it, [to_string(it, x) for x in L])
        if name == "join":
            sep = to_string(it, args[1])
            ps = []
            for i, x in enumerate(L):
                if i:
                    ps.append(sep)
                ps.append(to_string(it, x))
            return concat(it, ps)
        if name in ("windows", "chunks"):
            k = it.load(args[1])
            if name == "windows":
                return ListIt([Ref(r.cell, r.path + (("sl", i, i + k),)) for i in range(0, len(L) - k + 1)])
            return ListIt([Ref(r.cell, r.path + (("sl", i, min(i + k, len(L))),)) for i in range(0, len(L), k)])
        if name == "into_iter":
            return ListIt(L)
        if name in ("split_at",):
            k = it.load(args[1])
            return tup(Ref(r.cell, r.path + (("sl", 0, k),)), Ref(r.cell, r.path + (("sl", k, len(L)),)))
        if name == "copy_from_slice" or name == "clone_from_slice":
            L[:] = [clone(it, x) for x in it.load(args[1]).items]
            return UNIT
        if name == "starts_with":
            o = it.load(args[1])
            return len(o.items) <= len(L) and all(it.compare_eq(a, b) for a, b in zip(L, o.items))
        if name == "repeat":
            return Seq([clone(it, x) for _ in range(it.load(args[1])) for x in L])
        return NotImplemented

    o_VecDeque = o_Vec

    def sort(self, it, L, gt):
        # insertion sort with analysed comparisons
        for i in range(1, len(L)):
            j = i
            while j > 0 and gt(L[j - 1], L[j]):
                L[j - 1], L[j] = L[j], L[j - 1]
                j -= 1

    def o_HashMap(self, it, name, args, dty, fr):
        if name in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
            return self.newmap(it, dty[1].endswith("Set"), "BTree" in dty[1])
        r, m = it.loadref(args[0])
        m = it.force(m) if isinstance(m, SymAdt) else m
        if not isinstance(m, MapV):
            raise Undecided("map method %s on %r at %s" % (name, m, it.where()))
        cv = it.call_value
        if name in ("get", "get_mut"):
            e = self.map_find(it, m, args[1])
            return none() if e is None else some(Ref(e[2]) if not m.isset else Ref(Cell(e[0])))
        if name in ("contains_key", "contains"):
            return self.map_find(it, m, args[1]) is not None
        if name == "insert":
            if m.isset:
                if m.sym is not None:
                    e = self.map_find(it, m, args[1])
                    self.map_insert(it, m, args[1], UNIT)
                    return e is None
                return self.map_insert(it, m, args[1], UNIT) is STOP
            if m.sym is not None and self.known(it, m, args[1]) is None:
                was = it.ctx.boolfacts.get(("hit", m.name, it.term(args[1])))
                self.map_insert(it, m, args[1], args[2])
                if was is False:
                    return none()
                return SymAdt(dty, it.ctx.fresh("old")) if dty and dty[0] == "adt" else none()
            old = self.map_insert(it, m, args[1], args[2])
            return none() if old is STOP else some(old)
        if name == "remove":
            e = self.map_find(it, m, args[1])
            it.ctx.event("remove", m.name, it.term(args[1]), it.where())
            if e is None:
                return False if m.isset else none()
            m.ents = [x for x in m.ents if x is not e]
            if m.sym is not None and hasattr(m.sym, "removed"):
                m.sym.removed(it, m, args[1])
            return True if m.isset else some(e[2].v)
        if name == "entry":
            return Agg("entry", 0, [Agg("mapentry", 0, [Ref(Cell(m)), args[1]])])
        if name == "len":
            return self.map_len(it, m)
        if name == "is_empty":
            return it.compare_eq(self.map_len(it, m), 0)
        if name == "clear":
            m.ents = []
            it.ctx.event("clear", m.name, it.where())
            if m.sym is not None and hasattr(m.sym, "cleared"):
                m.sym.cleared(it, m)
            return UNIT
        if name == "keys":
            return self.map_iter(it, m, "keys")
        if name == "values" or name == "values_mut":
            return self.map_iter(it, m, "values")
        if name in ("iter", "iter_mut", "drain"):
            i = self.map_iter(it, m)
            if name == "drain":
                m.ents = []
            return i
        if name in ("into_keys", "into_values"):
            self.arrange(it, m)
            return ListIt([e[0] if name == "into_keys" else e[2].v for e in m.ents])
        if name == "retain":
            if m.sym is not None:
                return m.sym.retain(it, m, args[1])
            out = []
            for e in m.ents:
                a = [Ref(Cell(e[0]))] + ([] if m.isset else [Ref(e[2])])
                if truth(it, cv(args[1], a)):
                    out.append(e)
            m.ents = out
            return UNIT
        if name == "reserve" or name == "shrink_to_fit":
            return UNIT
        if m.ordered and name in ("first", "last", "pop_first", "pop_last", "first_key_value", "last_key_value"):
            if m.sym is not None:
                return NotImplemented
            self.arrange(it, m)
            if not m.ents:
                return none()
            e = m.ents[0 if "first" in name else -1]
            if name.startswith("pop"):
                m.ents = [x for x in m.ents if x is not e]
                return some(e[0] if m.isset else tup(e[0], e[2].v))
            k = Ref(Cell(e[0]))
            return some(k if m.isset else tup(k, Ref(e[2])))
        return NotImplemented

    o_HashSet = o_BTreeMap = o_BTreeSet = o_HashMap

    def known(self, it, m, key):
        if len(m.ents) > 8:
            k = self.literal(it, key)
            d = self.indexed(it, m, k) if k is not None else None
            if d is not None:
                return d.get(k)
        for e in m.ents:
            if it.compare_eq(e[0], key):
                return e
        return None

    def o_Entry(self, it, name, args, dty, fr):
        e = args[0]
        m, key = it.load(e.fields[0].fields[0]), e.fields[0].fields[1]
        cv = it.call_value
        x = self.map_find(it, m, key)
        if name in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
            if x is None:
                if name == "or_insert":
                    nv = args[1]
                elif name == "or_insert_with":
                    nv = cv(args[1], [])
                elif name == "or_insert_with_key":
                    nv = cv(args[1], [Ref(Cell(key))])
                else:
                    nv = self.default(it, dty[1])
                self.map_insert(it, m, key, nv)
                x = self.known(it, m, key)
            return Ref(x[2])
        if name == "and_modify":
            if x is not None:
                cv(args[1], [Ref(x[2])])
            return e
        if name == "key":
            return Ref(Cell(key))
        if name == "insert_entry":
            self.map_insert(it, m, key, args[1])
            return e.fields[0]
        return NotImplemented

    def entry_discr(self, it, v):
        """Variant of a matched map entry."""
        m, key = it.load(v.fields[0].fields[0]), v.fields[0].fields[1]
        hit = self.map_find(it, m, key) is not None
        return int(hit) if m.ordered else int(not hit)

    def o_OccupiedEntry(self, it, name, args, dty, fr):
        e = it.load(args[0])
        m, key = it.load(e.fields[0]), e.fields[1]
        x = self.map_find(it, m, key)
        if x is None:
            raise Undecided("occupied entry without a value at %s" % it.where())
        if name in ("get", "get_mut", "into_mut"):
            return Ref(x[2])
        if name == "key":
            return Ref(Cell(key))
        if name == "insert":
            old = x[2].v
            self.map_insert(it, m, key, args[1])
            return old
        if name in ("remove", "remove_entry"):
            old = x[2].v
            self.o_HashMap(it, "remove", [e.fields[0], Ref(Cell(key))], None, fr)
            return old if name == "remove" else tup(key, old)
        return NotImplemented

    def o_VacantEntry(self, it, name, args, dty, fr):
        e = it.load(args[0])
        m, key = it.load(e.fields[0]), e.fields[1]
        if name in ("insert", "insert_entry"):
            self.map_insert(it, m, key, args[1])
            return Ref(self.known(it, m, key)[2]) if name == "insert" else e
        if name == "key":
            return Ref(Cell(key))
        if name == "into_key":
            return key
        return NotImplemented

    def o_str(self, it, name, args, dty, fr):
        if name == "from_utf8":
            return ok(self.bytes_str(it, it.load(args[0])))
        if name in ("from_utf8_unchecked", "from_utf8_lossy"):
            return self.bytes_str(it, it.load(args[0]))
        s = strv(it, args[0])
        if s is None:
            return NotImplemented
        r = it.loadref(args[0])[0] if isinstance(args[0], Ref) else None
        if name == "len":
            return self.seq_len(it, s)
        if name in ("as_bytes", "as_str", "as_ref", "into_bytes", "deref", "as_mut_str", "into_boxed_str", "to_owned", "into_string"):
            return s
        if name == "is_empty":
            if isinstance(s, str):
                return s == ""
            return it.ctx.bool_atom(("isempty", it.ctx.canon(s.t)))
        if name in ("starts_with", "ends_with", "contains"):
            a = strv(it, args[1])
            if isinstance(s, str) and isinstance(a, str):
                return {"starts_with": s.startswith, "ends_with": s.endswith, "contains": s.__contains__}[name](a)
            h = it.ctx.data.get("strtest")
            if h is not None:
                x = h(it, name, s, a)
                if x is not None:
                    return x
            return it.ctx.bool_atom((name, it.term(s), it.term(a)))
        if name in ("strip_prefix", "strip_suffix"):
            a = strv(it, args[1])
            if isinstance(s, str) and isinstance(a, str):
                if name == "strip_prefix":
                    return some(s[len(a):]) if s.startswith(a) else none()
                return some(s[:len(s) - len(a)]) if s.endswith(a) else none()
            h = it.ctx.data.get("strtest")
            if h is not None:
                x = h(it, name, s, a)
                if x is not None:
                    return x
        if name in ("split_whitespace", "split_ascii_whitespace"):
            h = it.ctx.data.get("tokens")
            if isinstance(s, str):
                return ListIt(s.split())
            if h is not None:
                return ListIt(h(it, s))
        if name == "parse":
            h = it.ctx.data.get("strtest")
            if h is not None:
                x = h(it, name, s, dty)
                if x is not None:
                    return x
            if isinstance(s, str):
                ty = dty[2][0] if dty[0] == "adt" and dty[2] else None
                if not ty or ty[0] != "int" or ty[1] not in INTW:
                    raise Undecided("parse to %r" % (ty,))
                if re.match(r"[+-]?[0-9]+$", s) and (s[0] != "-" or ty[1][0] == "i"):
                    w, v = INTW[ty[1]], int(s)
                    if ty[1][0] == "u" and 0 <= v < 1 << w or ty[1][0] == "i" and -(1 << (w - 1)) <= v < 1 << (w - 1):
                        return ok(v)
                return err(UNIT)
            b = it.ctx.bool_atom(("parses", it.ctx.canon(s.t)))
            return ok(S(("parse", it.ctx.canon(s.t)), "val")) if b else err(UNIT)
        if name == "trim":
            return s if not isinstance(s, str) else s.strip()
        if name in ("trim_start", "trim_end") and isinstance(s, str):
            return s.lstrip() if name == "trim_start" else s.rstrip()
        if name in ("trim_start_matches", "trim_end_matches", "trim_matches", "trim_left_matches", "trim_right_matches") and isinstance(s, str):
            a = it.load(args[1])
            if isinstance(a, str) and a:
                if name in ("trim_start_matches", "trim_left_matches", "trim_matches"):
                    while s.startswith(a):
                        s = s[len(a):]
                if name in ("trim_end_matches", "trim_right_matches", "trim_matches"):
                    while s.endswith(a):
                        s = s[:len(s) - len(a)]
                return s
        if name == "eq_ignore_ascii_case":
            a = strv(it, args[1])
            if isinstance(s, str) and isinstance(a, str):
                return s.lower() == a.lower()
        if name in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase") and isinstance(s, str):
            return s.lower() if name.endswith("lowercase") else s.upper()
        if name in ("find", "rfind") and isinstance(s, str) and isinstance(it.load(args[1]), str):
            i = (s.find if name == "find" else s.rfind)(it.load(args[1]))
            return some(len(s[:i].encode())) if i >= 0 else none()
        if name == "split_once" and isinstance(s, str) and isinstance(it.load(args[1]), str):
            a, m, b = s.partition(it.load(args[1]))
            return some(Agg("tuple", 0, [a, b])) if m else none()
        if name == "replace" and isinstance(s, str) and isinstance(it.load(args[1]), str) and strv(it, args[2]) is not None:
            return s.replace(it.load(args[1]), strv(it, args[2]))
        if name == "push_str":
            it.write(r.cell, r.path, concat(it, [s, strv(it, args[1])]))
            return UNIT
        if name == "push":
            it.write(r.cell, r.path, concat(it, [s, it.load(args[1])]))
            return UNIT
        if name == "chars" and isinstance(s, str):
            return ListIt(list(s))
        if name == "bytes" and isinstance(s, str):
            return ListIt(list(s.encode()))
        if name == "split" and isinstance(s, str) and isinstance(it.load(args[1]), str):
            return ListIt(s.split(it.load(args[1])))
        if name in ("to_string", "clone"):
            return s
        if name == "get" and isinstance(s, str):
            try:
                return some(self.str_index(it, s, args[1]))
            except PanicPath:
                return none()
        if name == "get":
            return some(self.str_index(it, s, args[1]))
        if name == "clear":
            it.write(r.cell, r.path, "")
            return UNIT
        return NotImplemented

    def o_String(self, it, name, args, dty, fr):
        if name in ("new", "with_capacity"):
            return ""
        if name in ("from_utf8",):
            return ok(self.bytes_str(it, it.load(args[0])))
        if name == "from_utf8_lossy":
            return self.bytes_str(it, it.load(args[0]))
        return self.o_str(it, name, args, dty, fr)

    def o_prim(self, it, name, args, dty, fr):
        return self.o_num(it, name, args, dty, fr, fr["pretty"])

    def o_num(self, it, name, args, dty, fr, pretty):
        import re
        m = re.search(r"<impl (\w+)>", pretty)
        ity = m.group(1) if m else "usize"
        a = it.load(args[0])
        b = it.load(args[1]) if len(args) > 1 else None
        w = INTW.get(ity, 64)
        op = name.split("_")[-1]
        if name in ("checked_sub", "saturating_sub", "checked_add", "checked_mul", "saturating_add", "saturating_mul",
                    "wrapping_add", "wrapping_sub", "wrapping_mul", "checked_div"):
            mode = name.split("_")[0]
            if isinstance(a, int) and isinstance(b, int):
                if op == "div":
                    return none() if b == 0 else some(a // b)
                v = {"add": a + b, "sub": a - b, "mul": a * b}[op]
                lo, hi = (0, (1 << w) - 1) if ity[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                if mode == "wrapping":
                    return it.wrap(v, ["int", ity])
                if mode == "saturating":
                    return max(lo, min(hi, v))
                return some(v) if lo <= v <= hi else none()
            if op == "sub" and ity[0] == "u" and mode != "wrapping":
                if it.compare3(a, b, "lt"):
                    return none() if mode == "checked" else 0
                v = it.arith("sub", a, b, ["int", ity])
                return some(v) if mode == "checked" else v
            v = it.arith(op, a, b, ["int", ity])
            return some(v) if mode == "checked" else v
        if name in ("pow",) and isinstance(a, int) and isinstance(b, int):
            return a ** b
        if name == "abs" and isinstance(a, (int, Fraction)):
            return abs(a)
        if name == "abs_diff":
            if it.compare3(a, b, "lt"):
                return it.arith("sub", b, a)
            return it.arith("sub", a, b)
        if name in ("trailing_zeros", "leading_zeros", "count_ones", "next_power_of_two", "is_power_of_two"):
            if isinstance(a, int):
                if name == "trailing_zeros":
                    return (a & -a).bit_length() - 1 if a else w
                if name == "count_ones":
                    return bin(a).count("1")
                if name == "is_power_of_two":
                    return a > 0 and a & (a - 1) == 0
                if name == "next_power_of_two":
                    return 1 << (a - 1).bit_length() if a > 1 else 1
                if name == "leading_zeros":
                    return w - a.bit_length()
            if name == "is_power_of_two":
                return it.ctx.bool_atom((name, it.term(a)))
            t = (name, it.term(a))
            if name != "next_power_of_two":
                # bit positions of a non-zero word
                it.ctx.order("int").add(t, "<", w)
            return S(t, "int")
        if name in ("min", "max"):
            return self.minmax(it, name, a, b)
        if name == "is_nan":
            return False
        if name in ("rotate_left", "rotate_right", "swap_bytes"):
            return S((name, it.term(a), it.term(b) if b is not None else None), "int")
        return NotImplemented

    # formatting
    def o_Argument(self, it, name, args, dty, fr):
        if name in ("new_display", "new_debug"):
            return to_string(it, args[0])
        if name == "none":
            return Seq([])
        return S(it.ctx.fresh("fmt"), "str")

    def o_Arguments(self, it, name, args, dty, fr):
        if name in ("from_str", "from_str_nonconst", "new_const"):
            v = it.load(args[0])
            if isinstance(v, Seq):
                return Agg("fmtargs", 0, [to_string(it, x) for x in v.items])
            return Agg("fmtargs", 0, [to_string(it, v)])
        if name in ("new", "new_v1"):
            t = it.load(args[0])
            a = it.load(args[1])
            if isinstance(t, Seq) and all(isinstance(x, int) for x in t.items):
                ps = parse_template(t.items)
                return Agg("fmtargs", 0, [p if isinstance(p, str) else a.items[p[1]] for p in ps])
        return NotImplemented

    def o_Formatter(self, it, name, args, dty, fr):
        return ok(UNIT)

    def o_BufWriter(self, it, name, args, dty, fr):
        if name == "new":
            return args[0]
        if name in ("into_inner",):
            return ok(args[0])
        if name in ("get_ref", "get_mut", "buffer"):
            return args[0]
        return NotImplemented

    o_LineWriter = o_BufWriter

    def o_Ordering(self, it, name, args, dty, fr):
        v = it.force(it.load(args[0]))
        k = v.variant
        if name == "reverse":
            return Agg(ORD, 2 - k, [])
        if name.startswith("is_"):
            return {"is_lt": k == 0, "is_le": k <= 1, "is_gt": k == 2, "is_ge": k >= 1, "is_eq": k == 1, "is_ne": k != 1}[name]
        if name == "then":
            return v if k != 1 else args[1]
        if name == "then_with":
            return v if k != 1 else it.call_value(args[1], [])
        return NotImplemented

    def o_bool(self, it, name, args, dty, fr):
        v = truth(it, args[0])
        if name == "then":
            return some(it.call_value(args[1], [])) if v else none()
        if name == "then_some":
            return some(args[1]) if v else none()
        return NotImplemented

    def o_Peekable(self, it, name, args, dty, fr):
        return self.iter_method(it, name, it.load(args[0]), args, dty, fr)

    def o_Iter(self, it, name, args, dty, fr):
        w = it.load(args[0])
        if name == "as_slice":
            return Ref(w.ref.cell, w.ref.path + (("sl", w.i, w.j),))
        return self.iter_method(it, name, w, args, dty, fr)


class Guard2(Guard):
    def __init__(self, g, ref):
        Guard.__init__(self, g.rc, g.mut, ref)


class BigFill:
    """vec![v; n] for a large constant n."""

    def __init__(self, v, n):
        self.v, self.n = v, n
        self.w = {}

    def length(self, it):
        return self.n

    def getitem(self, it, s):
        if isinstance(s, int):
            return self.w.get(s, self.v)
        raise Undecided("symbolic index into a table at %s" % it.where())

    def setitem(self, it, s, v):
        if isinstance(s, int):
            self.w[s] = v
        else:
            raise Undecided("symbolic index into a table at %s" % it.where())


class SymArr:
    """vec![v; n] with symbolic length n: explicit entries over a default."""

    def __init__(self, v, n):
        self.v, self.n = v, n
        self.ents = []        # [index value, Cell]

    def length(self, it):
        return self.n

    def find(self, it, s):
        for e in self.ents:
            if it.compare_eq(e[0], s):
                return e
        e = [s, Cell(clone(it, self.v))]
        self.ents.append(e)
        return e

    def getitem(self, it, s):
        return self.find(it, s)[1].v

    def setitem(self, it, s, v):
        self.find(it, s)[1].v = v

    def get_opt(self, it, r, ix):
        return some(Ref(r.cell, r.path + (it.load(ix),)))

    def iterate(self, it, r):
        d = table_domain(it, self.n)
        if d is None:
            raise Undecided("iteration over a table of symbolic length at %s" % it.where())
        return DomIt(d, lambda p: Ref(r.cell, r.path + (p,)))
