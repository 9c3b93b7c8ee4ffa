"""The Graphviz rendering of a handle, followed through every small diagram: the text is read back
and compared with the nodes and edges of the diagram."""
import re
from .core import *
from .lab import *
from .g_diag import Side, root
from .g_walk import mkside, S3, split
from .report import Group

# terminals that carry no information: left out, with the edges into them, unless they are the root
OMIT = {"bdd": {"Undet"}, "zdd": {"Zero", "Undet"}, "mdd": {"Undet"}, "mtmdd": {"Undet"}, "zmdd": {"Undet"}}
MARK = {"bdd": {"Zero": "0", "One": "1"}, "zdd": {"Zero": "0", "One": "1"}, "mdd": {"Zero": "F", "One": "T"}, "mtmdd": {}, "zmdd": {}}


def pieces(it, v):
    """A rendered text with a placeholder for every symbolic piece."""
    v = it.load(v)
    if isinstance(v, Seq):
        ps = [x[1] if isinstance(x, tuple) and x[0] == "str" else x for x in v.items]
    else:
        ps = [v]
    syms, out = [], ""
    for p in ps:
        p = it.load(p)
        if isinstance(p, str):
            out += p
            continue
        if not isinstance(p, S):
            raise Undecided("rendered text %r" % (p,))
        t = it.ctx.canon(p.t)
        for x in (t[1:] if isinstance(t, tuple) and t and t[0] == "cat" else [t]):
            if isinstance(x, str):
                out += x
            else:
                if not (isinstance(x, tuple) and x and x[0] in ("disp", "label")):
                    raise Undecided("rendered piece %s" % (x,))
                out += "\x00%d\x00" % len(syms)
                syms.append(x)
    return out, syms


QUOTED = re.compile(r'"([^"]*)"')


def statements(it, text, syms):
    """(node statements, edge statements, everything else) of a Graphviz text."""
    ctx = it.ctx

    def atom(s):
        """The value shown by a piece of text."""
        m = re.fullmatch(r"\x00(\d+)\x00", s)
        if m:
            t = ctx.canon(syms[int(m.group(1))])
            return ctx.canon(t[1]) if isinstance(t, tuple) and t[0] == "disp" else t
        if "\x00" in s:
            raise Undecided("rendered text %r" % s)
        return s

    def ident(s):
        m = re.fullmatch(r"([^\x00\d]*)(\x00\d+\x00|\d+)", s)
        if not m:
            raise Undecided("name %r" % s)
        a = atom(m.group(2))
        return m.group(1), int(a) if isinstance(a, str) else a
    nodes, edges, rest = [], [], []
    for ln in re.split(r"[;\n]", text):
        ln = ln.strip()
        head, _, attrs = ln.partition("[")
        ids = QUOTED.findall(head)
        if not ids or QUOTED.sub("", head).strip() not in ("", "->"):
            if ln:
                rest.append(ln)
            continue
        m = re.search(r'label\s*=\s*"([^"]*)"', attrs)
        lab = atom(m.group(1)) if m else None
        if "->" in QUOTED.sub("", head):
            edges.append((ident(ids[0]), ident(ids[1]), lab))
        else:
            nodes.append((ident(ids[0]), lab))
    return nodes, edges, rest


def shown(x):
    return x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == "obj" else x


def dot(world, arg, tier):
    forest, shape = split(arg)
    g = Group("dot:" + arg, "dot() draws every node of the diagram once, named and labelled, and every edge with its index, and nothing else")

    def run(H, excl, shape, reverse=False):
        sd = mkside(world, forest, H, excl, reverse)
        sd.shape = shape
        body = sd.body("dot")

        def entry(lab, it):
            h = sd.handle(lab, it)
            v = it.run(body, [Ref(Cell(h))])
            f = it.ctx.canon(root("f", forest))
            ns = sd.nodes(lab, it, f)
            return v, ns

        def check(lab, it, ctx, r):
            v, ns = r
            f = ctx.canon(root("f", forest))
            text, syms = pieces(it, v)
            nodes, edges, rest = statements(it, text, syms)
            pre = {n[0][0] for n in nodes} | {e[0][0] for e in edges} | {e[1][0] for e in edges}
            if len(pre) > 1:
                return "nodes are named in two ways: %s" % sorted(pre)
            if not rest or not re.search(r"\bdigraph\b[^{]*\{", rest[0]) or rest[-1] != "}":
                return "the text is not one closed graph"
            wn, we = {}, []
            for n in {ctx.canon(n) for n in ns}:
                k = sd.kind(it, n)
                if k in OMIT[forest] and n != f:
                    continue
                if k == "NonTerminal":
                    wn[n] = lab.label(sd.hdr(ctx, n))
                    for i, c in enumerate(sd.kids(lab, it, n)):
                        c = ctx.canon(c)
                        if sd.kind(it, c) not in OMIT[forest]:
                            we.append((n, c, i))
                elif k == "Terminal":
                    wn[n] = ctx.tval(n)
                    wn[n] = ctx.canon(wn[n]) if isinstance(wn[n], tuple) else wn[n]
                else:
                    wn[n] = MARK[forest].get(k)
            got = {}
            for (_, n), lb in nodes:
                n = ctx.canon(n) if isinstance(n, tuple) else n
                if n in got:
                    return "%s is drawn twice" % tstr(n)
                got[n] = lb
            for n, lb in wn.items():
                if n not in got:
                    return "%s is not drawn" % tstr(n)
                x = got[n]
                if isinstance(x, tuple) and isinstance(lb, tuple):
                    x, lb = ctx.canon(x), ctx.canon(lb)
                if lb is not None and x != lb and str(x) != str(lb):
                    return "%s is labelled %s instead of %s" % (tstr(n), x, lb)
            for n in got:
                if n not in wn:
                    return "%s is drawn" % tstr(n)
            ge = []
            for (_, a), (_, b), lb in edges:
                if not (isinstance(lb, str) and lb.isdigit()):
                    raise Undecided("edge label %r" % (lb,))
                ge.append((ctx.canon(a) if isinstance(a, tuple) else a, ctx.canon(b) if isinstance(b, tuple) else b, int(lb)))
            if sorted(ge, key=repr) != sorted(we, key=repr):
                extra = [e for e in ge if e not in we]
                miss = [e for e in we if e not in ge]
                return "edges: %s%s%s" % ("extra %s " % (extra[:2],) if extra else "", "missing %s " % (miss[:2],) if miss else "",
                                          "drawn %d times" % len(ge) if not extra and not miss else "")
            return None
        r = LabRun(g, sd.lab, entry, check, [], body, limit=60000)
        r.rules = "the drawing shows exactly the diagram"
        r.go()
    if forest in ("bdd", "zdd"):
        if shape:
            run(H4, {forest: {"Undet"}}, shape)
        else:
            run(H2, {}, None)
            run(H3, {forest: {"Undet"}}, None)
    elif shape:
        run(H3 if shape == "fork" else S3, {forest: {"Undet"}}, shape)
    else:
        run(M1, {}, None)
        run(M22, {}, None)
        run(M2, {forest: {"Undet"}}, None)
    g.need(mkside(world, forest, H2, {}).body("dot").where(), 8)
    return g
