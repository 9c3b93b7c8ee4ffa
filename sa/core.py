"""Abstract values, decision facts and the MIR abstract interpreter.

Nothing here executes the analysed program: values are abstract (node ids are opaque
provenance terms classified by a finite set of kinds, level orders and id equalities), every
test on them is resolved by partitioning over the finitely many consistent outcomes, and
calls are replaced by contracts.  No solver is involved; consistency of a partition is a
transitive-closure computation over a handful of order facts.
"""
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The analysis met a construct it has no model for on this partition."""


class PanicPath(Exception):
    """The partition ends in a panic."""


class CutPath(Exception):
    """The partition is cut (bounded heap abstraction)."""


class Infeasible(Exception):
    pass


UNIT = ()


class S:
    __slots__ = ("t", "sort")

    def __init__(self, t, sort):
        self.t = t
        self.sort = sort

    def __repr__(self):
        return "S(%s:%s)" % (tstr(self.t), self.sort)


def tstr(t):
    if isinstance(t, tuple):
        if not t:
            return "()"
        h = t[0]
        if h == "n":
            return str(t[1])
        if h == "ch":
            return "%s.%s" % (tstr(t[1]), t[2])
        if h == "hdr":
            return "var(%s)" % tstr(t[1])
        if h == "op":
            return "%s(%s)" % (t[1], ",".join(tstr(x) for x in t[2:]))
        if h == "mk":
            return "node[%s](%s)" % (tstr(t[2]), ",".join(tstr(x) for x in t[3:]))
        if isinstance(h, str):
            return "%s(%s)" % (h, ",".join(tstr(x) for x in t[1:]))
        return "(" + ",".join(tstr(x) for x in t) + ")"
    return str(t)


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


class Agg:
    __slots__ = ("adt", "variant", "fields", "tag")

    def __init__(self, adt, variant, fields, tag=None):
        self.adt = adt
        self.variant = variant
        self.fields = fields
        self.tag = tag

    def __repr__(self):
        return "%s#%s%r" % (str(self.adt).split("::")[-1], self.variant, self.fields)


class Seq:
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="vec"):
        self.items = items
        self.kind = kind

    def __repr__(self):
        return "%s%r" % (self.kind, self.items)


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "&%r%s" % (type(self.cell.v).__name__, list(self.path) if self.path else "")


class BoxV:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return "Box(%r)" % (self.cell.v,)


class RcV:
    __slots__ = ("cell", "weak")

    def __init__(self, cell, weak=False):
        self.cell = cell
        self.weak = weak


class RefCellV:
    __slots__ = ("cell", "readers", "writer")

    def __init__(self, v):
        self.cell = Cell(v)
        self.readers = 0
        self.writer = 0


class Guard:
    __slots__ = ("rc", "mut", "ref", "live")

    def __init__(self, rc, mut, ref):
        self.rc = rc
        self.mut = mut
        self.ref = ref
        self.live = True


class Clo:
    __slots__ = ("key", "caps")

    def __init__(self, key, caps):
        self.key = key
        self.caps = caps


class FnItem:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SymAdt:
    """An opaque value of a local/std ADT type, expanded lazily."""
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return "SymAdt(%s)" % tstr(self.t)


class MapV:
    """A HashMap/BTreeMap created by the analysed code: entries are known."""
    __slots__ = ("ents", "isset", "name", "sym", "ordered", "idx")

    def __init__(self, isset=False, name=None, sym=None, ordered=False):
        self.ordered = ordered   # BTreeMap / BTreeSet: iterates in key order
        self.ents = []     # list of [keyvalue, keyterm, Cell]
        self.idx = None    # index of the entries while all keys are literal
        self.isset = isset
        self.name = name
        self.sym = sym     # SymTable behaviour for unknown keys, or None = empty map


OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"
CF = "core::ops::control_flow::ControlFlow"


def some(v):
    return Agg(OPT, 1, [v])


def none():
    return Agg(OPT, 0, [])


def ok(v):
    return Agg(RES, 0, [v])


def err(v):
    return Agg(RES, 1, [v])


def tup(*vs):
    return Agg("tuple", 0, list(vs))


def copyv(v):
    if isinstance(v, Agg):
        return Agg(v.adt, v.variant, [copyv(x) for x in v.fields], v.tag)
    if isinstance(v, Seq):
        return Seq([copyv(x) for x in v.items], v.kind)
    return v


# ---------------------------------------------------------------------------
# order facts
class Order:
    """Finite partial knowledge of a total preorder on terms (ints are ordered by value)."""

    def __init__(self):
        self.le = {}   # a -> {b: strict?}
        self.ne = set()
        self.consts = set()

    def _touch(self, a):
        if a not in self.le:
            self.le[a] = {}
            if isinstance(a, (int, Fraction)) and not isinstance(a, bool):
                for c in self.consts:
                    if c < a:
                        self.le[c][a] = True
                    elif a < c:
                        self.le[a][c] = True
                self.consts.add(a)

    def recanon(self, canon):
        le = {}
        old = self.le
        self.le = {}
        self.consts = set()
        for a in old:
            self._touch(canon(a))
        for a, es in old.items():
            ca = canon(a)
            for b, st in es.items():
                cb = canon(b)
                if ca == cb:
                    if st:
                        raise Infeasible()
                    continue
                self._touch(cb)
                if st or not self.le[ca].get(cb):
                    self.le[ca][cb] = st
        ne = set()
        for a, b in self.ne:
            a, b = canon(a), canon(b)
            if a == b:
                raise Infeasible()
            ne.add((a, b))
        self.ne = ne

    def reach(self, a, b):
        """None, 'le' or 'lt' if a<=b / a<b is implied."""
        if a == b:
            return "le"
        seen = {a: False}
        work = [a]
        while work:
            x = work.pop()
            sx = seen[x]
            for y, st in self.le.get(x, {}).items():
                ns = sx or st or (x, y) in self.ne or (y, x) in self.ne
                if y not in seen or (ns and not seen[y]):
                    seen[y] = ns
                    work.append(y)
        if b in seen:
            return "lt" if seen[b] or (a, b) in self.ne or (b, a) in self.ne else "le"
        return None

    def possible(self, a, b):
        self._touch(a)
        self._touch(b)
        if a == b:
            return {"="}
        ab, ba = self.reach(a, b), self.reach(b, a)
        out = set()
        if ba is None:
            out.add("<")
        if ab is None:
            out.add(">")
        if ab != "lt" and ba != "lt" and not self.differ(a, b):
            out.add("=")
        return out

    def differ(self, a, b):
        if (a, b) in self.ne or (b, a) in self.ne:
            return True
        for x, y in self.ne:
            if (self.same(x, a) and self.same(y, b)) or (self.same(x, b) and self.same(y, a)):
                return True
        return False

    def same(self, a, b):
        return a == b or (a in self.le and b in self.le and self.reach(a, b) is not None and self.reach(b, a) is not None)

    def add(self, a, rel, b):
        self._touch(a)
        self._touch(b)
        if rel == "<":
            self.le[a][b] = True
        elif rel == ">":
            self.le[b][a] = True
        elif rel == "=":
            self.le[a].setdefault(b, False)
            self.le[b].setdefault(a, False)
        elif rel == "!=":
            self.ne.add((a, b))


# ---------------------------------------------------------------------------
class Ctx:
    """One partition: a decision script plus the facts it implies."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.rep = {}
        self.kinds = {}
        self.neq = set()
        self.orders = {}
        self.events = []
        self.facts = []       # human readable
        self.eqfacts = []     # (a, b) node terms assumed to be the same diagram
        self.nefacts = []
        self.expanded = {}
        self.forests = {}
        self.fresh_n = 0
        self.data = {}
        self.boolfacts = {}
        self.relfacts = []    # (sort, a, rel, b)
        self.steps = 0

    def rel(self, sort, a, r, b):
        self.order(sort).add(a, r, b)
        self.relfacts.append((sort, a, r, b))
        if sort == "level":
            self.same_levels()
        elif sort == "hdr":
            # headers and levels correspond one to one
            if r == "=":
                x, y = (b, a) if isinstance(a, int) else (a, b)
                if not isinstance(x, int):
                    self.setrep(x, y)
            else:
                self.order("level").add(self.canon(("level", a)), "!=", self.canon(("level", b)))

    def same_levels(self):
        """Variables whose levels are known to coincide are the same variable."""
        for _ in range(20):
            o = self.order("level")
            lv = [x for x in o.le if isinstance(x, tuple) and x[0] == "level"]
            for i, x in enumerate(lv):
                y = next((y for y in lv[i + 1:] if o.same(x, y)), None)
                if y is not None:
                    break
            else:
                return
            a, b = self.canon(x[1]), self.canon(y[1])
            if isinstance(a, int):
                a, b = b, a
            if a == b or isinstance(a, int):
                return
            self.setrep(a, b)

    def choose(self, n, what=None):
        if n <= 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def fact(self, s):
        self.facts.append(s)

    def event(self, *e):
        self.events.append(e)

    def fresh(self, tag="x"):
        self.fresh_n += 1
        return ("fresh", tag, self.fresh_n)

    def order(self, sort):
        o = self.orders.get(sort)
        if o is None:
            o = self.orders[sort] = Order()
        return o

    # -- canonical terms
    def canon(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if self.rep:
            for _ in range(60):
                if t[0] not in ("n", "fresh"):
                    t = tuple(self.canon(x) if isinstance(x, tuple) else x for x in t)
                r = self.rep.get(t)
                if r is None:
                    return t
                t = r
                if not isinstance(t, tuple):
                    return t
            raise Undecided("cyclic identification of terms")
        return t

    def setrep(self, a, b):
        """a is from now on written b."""
        self.rep[a] = b
        # congruence: identifications recorded for terms built from a carry over
        for _ in range(40):
            todo = None
            for k, v in self.rep.items():
                if k[0] in ("n", "fresh"):
                    continue
                k2 = tuple(self.canon(x) if isinstance(x, tuple) else x for x in k)
                if k2 == k:
                    continue
                x, y = self.canon(k2), self.canon(v)
                if x != y:
                    todo = (x, y)
                    break
            if todo is None:
                break
            x, y = todo
            if isinstance(x, int):
                x, y = y, x
            if isinstance(x, int):
                raise Infeasible()
            if not isinstance(y, int) and tsize(y) > tsize(x):
                x, y = y, x
            self.rep[x] = y
        kinds = {}
        for k, v in self.kinds.items():
            k2 = self.canon(k)
            if isinstance(k2, int):
                f = self.forest_of(k)
                if f is not None and f.static_kind(k2) not in (None, v):
                    raise Infeasible()
                continue
            if kinds.setdefault(k2, v) != v:
                raise Infeasible()
        self.kinds = kinds
        nn = set()
        for x, y in self.neq:
            x, y = self.canon(x), self.canon(y)
            if x == y:
                raise Infeasible()
            nn.add((x, y))
        self.neq = nn
        for o in self.orders.values():
            o.recanon(self.canon)

    def bool_atom(self, atom, what=None):
        """A boolean unknown, decided once per partition."""
        if atom in self.boolfacts:
            return self.boolfacts[atom]
        if self.rep:
            atom = self.canon(atom)
            seen = {v for a, v in self.boolfacts.items() if a == atom or self.canon(a) == atom}
            if len(seen) == 2:
                raise Infeasible()
            if seen:
                return seen.pop()
        r = self.choose(2) == 0
        self.boolfacts[atom] = r
        self.fact("%s%s" % ("" if r else "not ", what or tstr(atom)))
        return r

    def compare(self, sort, a, b, hint=None):
        """Relation of two terms of an ordered sort: '<', '=' or '>'."""
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return "<" if a < b else ("=" if a == b else ">")
        if a == b:
            return "="
        o = self.order(sort)
        opts = [r for r in "<=>" if r in o.possible(a, b)]
        if hint:
            opts = [r for r in opts if r in hint]
        if not opts:
            raise Infeasible()
        r = opts[self.choose(len(opts))]
        self.rel(sort, a, r, b)
        if len(opts) > 1:
            self.fact("%s %s %s" % (tstr(a), r, tstr(b)))
        return r

    def test_eq(self, sort, a, b):
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, (int, Fraction, str)) and isinstance(b, (int, Fraction, str)):
            return a == b
        if a == b:
            return True
        o = self.order(sort)
        p = o.possible(a, b)
        if sort == "hdr" and not (isinstance(a, int) and isinstance(b, int)):
            p = p & self.order("level").possible(self.canon(("level", a)), self.canon(("level", b))) or p
            p = {"="} if p == {"="} else p
        if p == {"="}:
            return True
        if "=" not in p:
            return False
        r = self.choose(2) == 0
        if r:
            self.rel(sort, a, "=", b)
            self.fact("%s = %s" % (tstr(a), tstr(b)))
        else:
            self.rel(sort, a, "!=", b)
            self.fact("%s != %s" % (tstr(a), tstr(b)))
        return r

    def test_lt(self, sort, a, b):
        """a < b, split two ways only."""
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            return a < b
        if a == b:
            return False
        o = self.order(sort)
        p = o.possible(a, b)
        if p == {"<"}:
            return True
        if "<" not in p:
            return False
        r = self.choose(2) == 0
        if r:
            self.rel(sort, a, "<", b)
            self.fact("%s < %s" % (tstr(a), tstr(b)))
        else:
            o._touch(b)
            o._touch(a)
            if not o.le[b].get(a):
                o.le[b][a] = False
            self.relfacts.append((sort, a, ">=", b))
            if sort == "level":
                self.same_levels()
            self.fact("%s >= %s" % (tstr(a), tstr(b)))
        return r

    # -- node identity
    def forest_name(self, t):
        while isinstance(t, tuple) and t:
            h = t[0]
            if t in self.forests:
                return self.forests[t]
            if h == "n":
                return t[2]
            if h == "ch":
                t = t[1]
            elif h == "op":
                return t[1].split(".")[0]
            elif h in ("mk", "const"):
                return t[1]
            elif h == "rec":
                return t[2]
            elif h == "ctr" and self.data.get("ctrforest"):
                f = self.data["ctrforest"].get(t[1])
                if f is not None:
                    return f
                t = t[2]
            else:
                return None
        return None

    def forest_of(self, t):
        return self.data.get("forests", {}).get(self.forest_name(t))

    def definite(self, t):
        """A completely known reduced diagram (nothing symbolic in it)."""
        if isinstance(t, int):
            return True
        if t[0] == "const":
            return isinstance(t[2], int)
        if t[0] != "mk" or t[1] not in ("bdd", "mdd", "mtmdd", "zdd", "zmdd") or not isinstance(t[2], int):
            return False
        cs = [self.canon(c) for c in t[3:]]
        if t[1] in ("zdd", "zmdd"):
            f = self.data.get("forests", {}).get(t[1])
            return f is not None and any(c != f.id_of("Zero" if t[1] == "zdd" else "Undet") for c in cs[1:]) and all(self.definite(c) for c in cs)
        return len(set(cs)) > 1 and all(self.definite(c) for c in cs)

    def node_eq(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        if (a, b) in self.neq or (b, a) in self.neq:
            return False
        for x, y in ((a, b), (b, a)):
            # a node never equals its own descendant
            z = x
            while isinstance(z, tuple) and z and z[0] == "ch":
                z = self.canon(z[1])
                if z == y:
                    return False
        if self.definite(a) and self.definite(b):
            return False      # fully known diagrams are the same node only if they are the same term
        f = self.forest_of(a) or self.forest_of(b)
        ka, kb = self.kind_known(a, f), self.kind_known(b, f)
        if ka and kb and ka != kb:
            return False
        if ka == kb and ka in ("Zero", "One", "Undet"):
            return True
        if ka == "Terminal" and kb == "Terminal":
            va, vb = self.tval(a), self.tval(b)
            if not self.test_eq("val", va, vb):
                return False
            self.identify(a, b)     # value terminals are unique per value
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if f is not None:
                    kx = f.static_kind(x)
                    if kx is not None and kx not in f.allowed(self, y):
                        return False
                    if kx is None:
                        raise Undecided("comparison of a node with the literal id %d" % x)
        if ka == "NonTerminal" and kb == "NonTerminal":
            p = self.order("level").possible(self.canon(("level", ("hdr", a))), self.canon(("level", ("hdr", b))))
            if "=" not in p:
                return False
        hook = self.data.get("eqhook")
        if hook is not None:
            nb = hook(self, a, b)
            if nb is None:
                return False
            if nb is True:
                self.identify(a, b)
                return True
        r = self.choose(2) == 0
        if r:
            self.identify(a, b)
            if hook is not None:
                c = self.canon(a)
                if not isinstance(c, int):
                    self.data.setdefault("bounds", {})[c] = nb
            self.fact("%s == %s" % (tstr(a), tstr(b)))
        else:
            self.neq.add((a, b))
            self.nefacts.append((a, b))
            self.fact("%s != %s" % (tstr(a), tstr(b)))
        return r

    def identify(self, a, b):
        self.eqfacts.append((a, b))
        if isinstance(a, int):
            a, b = b, a
        # a becomes b (prefer structurally simple representative)
        if not isinstance(b, int) and tsize(b) > tsize(a):
            a, b = b, a
        ka = self.kinds.get(a)
        if not isinstance(b, int):
            if ka and b not in self.kinds:
                self.kinds[b] = ka
            if a in self.forests and b not in self.forests:
                self.forests[b] = self.forests[a]
        else:
            f = self.forest_of(a)
            if f is not None and f.static_kind(b):
                self.kinds[a] = f.static_kind(b)
        self.setrep(a, b)

    def distinct_values(self, t):
        """Value terminals are unique per value, so two different ones hold different values."""
        for x, y in list(self.neq):
            if t in (x, y):
                z = y if t == x else x
                if not isinstance(z, int) and self.kind_known(z) == "Terminal":
                    self.rel("val", self.tval(t), "!=", self.tval(z))

    def kind_known(self, t, f=None):
        t = self.canon(t)
        if isinstance(t, int):
            return f.static_kind(t) if f else None
        if isinstance(t, tuple) and t and t[0] == "const":
            return "Terminal"
        if isinstance(t, tuple) and t and t[0] == "k":
            return t[2]
        return self.kinds.get(t)

    def tval(self, t):
        t = self.canon(t)
        if isinstance(t, tuple) and t[0] == "const":
            return t[2]
        return ("tval", t)


def tsize(t):
    if isinstance(t, tuple):
        return 1 + sum(tsize(x) for x in t)
    return 1


DEADLINE = [None]


def explore(fn, limit=20000):
    """Run `fn(ctx)` once per partition.  Yields (ctx, outcome, value)."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        ctx = Ctx(prefix)
        n += 1
        if n > limit:
            yield ctx, "undecided", "partition limit %d reached" % limit
            return
        if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
            yield ctx, "undecided", "time budget used up"
            return
        try:
            v = fn(ctx)
            out = ("ret", v)
        except PanicPath as e:
            out = ("panic", str(e))
        except CutPath as e:
            out = ("cut", str(e))
        except Infeasible:
            out = ("infeasible", None)
        except Undecided as e:
            out = ("undecided", str(e))
        except RecursionError:
            out = ("undecided", "recursion too deep")
        for i in range(len(prefix), len(ctx.taken)):
            c, m = ctx.taken[i]
            base = [x for x, _ in ctx.taken[:i]]
            for alt in range(m - 1, 0, -1):
                work.append(base + [alt])
        if out[0] == "infeasible":
            continue
        yield ctx, out[0], out[1]
