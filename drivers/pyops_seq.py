"""Sequence views (C20)."""
import clingo
from clingo import ast
from clingo.control import Control

LOC = ast.Location(ast.Position("<x>", 1, 1), ast.Position("<x>", 1, 1))


def mk(kind, v):
    return ast.Variable(LOC, "V%d" % v) if kind == "ast" else "s%d" % v


def un(kind, x):
    return int(x.name[1:]) if kind == "ast" else int(x[1:])


def node(kind, items):
    if kind == "ast":
        return ast.Function(LOC, "f", [mk(kind, v) for v in items], 0)
    return ast.TheoryFunction(LOC, "f", []) if False else ast.TheoryUnparsedTermElement([mk(kind, v) for v in items], ast.Variable(LOC, "X"))


def attr(kind, n):
    return n.arguments if kind == "ast" else n.operators


def slc(s):
    f = [None if x == 99 else x for x in s]
    return slice(*f)


def reads(seq, items, case, n):
    """items: the underlying elements in order, without duplicates"""
    v = seq
    for s in case:
        v = v[slc(s)]
    pos = lambda x: items.index(x)

    def get(i):
        try:
            return pos(v[i])
        except IndexError:
            return -1

    def idx(x):
        try:
            return v.index(x)
        except ValueError:
            return -1
    r = {"len": len(v), "iter": [pos(x) for x in v], "rev": [pos(x) for x in reversed(v)], "get": [get(i) for i in range(-n - 1, n + 2)],
         "inn": [x in v for x in items], "cnt": [v.count(x) for x in items], "idx": [idx(x) for x in items]}
    if case and str(v) != str(list(v)):
        raise RuntimeError("str")
    return r


class Prop:
    def __init__(self, kind, n, cases):
        self.kind, self.n, self.cases, self.out = kind, n, cases, None
        self.size = None

    def init(self, init):
        self.size = len(init.assignment)

    def check(self, ctl):
        a = ctl.assignment
        s = a if self.kind == "assignment" else a.trail
        items = [s[i] for i in range(len(s))]
        if len(items) != self.n:
            self.out = len(items)
            return
        self.out = [reads(s, items, c, self.n) for c in self.cases]


def op_reads(self, st):
    kind, n, cases = st["kind"], st["n"], st["cases"]
    if kind in ("ast", "str"):
        items = [mk(kind, i) for i in range(n)]
        s = attr(kind, node(kind, range(n)))
        return [reads(s, items, c, n) for c in cases]
    if kind == "symbols":
        ctl = Control(["1"])
        ctl.add("".join("#show %d.\n" % i for i in range(n)))
        ctl.ground()
        out = []

        def om(m):
            s = m.symbols(terms=True)
            items = [s[i] for i in range(len(s))]
            assert len(set(items)) == len(items) == n
            out.extend(reads(s, items, c, n) for c in cases)
        ctl.solve(on_model=om)
        return out
    # an assignment (or trail) of the wanted size
    k = max(0, n - 1)
    for _ in range(3):
        if k < 0:
            return "skip"
        ctl = Control(["1", "--heuristic=None"])
        p = Prop(kind, n, cases)
        ctl.register_propagator(p)
        ctl.add("".join("{a%d}.\n" % i for i in range(k)))
        ctl.ground()
        ctl.solve()
        if isinstance(p.out, list):
            return p.out
        if p.out is None:
            return "skip"
        k += n - p.out
    return "skip"


def op_mseq(self, st):
    self.kind = st["kind"]
    self.node = node(self.kind, st["items"])
    self.seq = attr(self.kind, self.node)
    self.views = []
    return mstate(self)


def mstate(self):
    f = lambda s: [un(self.kind, x) for x in s]
    base = f(self.seq)
    assert len(self.seq) == len(base)
    r = {"base": base, "again": f(attr(self.kind, self.node)), "views": [f(v) for v in self.views]}
    for v in self.views:
        if [v[i] for i in range(len(v))] != list(v):
            raise RuntimeError("view")
    return r


def op_mview(self, st):
    self.views.append(self.seq[slc(st["s"])])
    return mstate(self)


def op_mop(self, st):
    o = st["o"]
    kind = self.kind
    t = self.seq if st["t"] == 0 else self.views[st["t"] - 1]
    k, i, v, vs = o["k"], o["i"], mk(kind, o["v"]), [mk(kind, x) for x in o["vs"]]
    r = "ok"
    try:
        if k == "set":
            t[i] = v
        elif k == "del":
            del t[i]
        elif k == "pop":
            r = un(kind, t.pop(i))
        elif k == "pop0":
            r = un(kind, t.pop())
        elif k == "insert":
            t.insert(i, v)
        elif k == "append":
            t.append(v)
        elif k == "remove":
            t.remove(v)
        elif k == "reverse":
            t.reverse()
        elif k == "extend":
            t.extend(vs)
        elif k == "iadd":
            t += vs
        elif k == "clear":
            t.clear()
        elif k == "assign":
            if kind == "ast":
                self.node.arguments = tuple(vs) if o["i"] % 2 else vs
            else:
                self.node.operators = iter(vs) if o["i"] % 2 else vs
        elif k == "self":
            if o["i"] % 2 == 0:
                t.extend(t)
            elif kind == "ast":
                self.node.arguments = self.node.arguments[::-1]
            else:
                self.node.operators = self.node.operators[::-1]
    except IndexError:
        r = "IndexError"
    except ValueError:
        r = "ValueError"
    return {"r": r, "st": mstate(self)}
