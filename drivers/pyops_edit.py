"""Mutable syntax trees, their sequences, copies and aliases (C13)."""
import copy
from clingo import ast
from clingo.ast import ASTSequence, StrSequence
from pyops_ast import NOLOC, dump, enum, mkloc, mknode, value


def _val(self, k, d, how="list"):
    if k == "n":
        return self.hh[d - 1]
    if k == "o":
        return self.hh[d[0] - 1] if d else None
    if k == "N":
        d = [self.hh[i - 1] for i in d]
    if k in "NS":
        return list(d) if how == "list" else tuple(d) if how == "tuple" else (x for x in d)
    return value(k, d)


def _content(v):
    r = [x if isinstance(x, str) else dump(x) for x in v]
    assert len(v) == len(r) and str(v) == str(list(v)) and repr(v) == repr(list(v))
    return r


def _obs(self, r):
    d = ["gone" if x is None else dump(x) for x in self.hh]
    for x, t in zip(self.hh, d):
        for y, u in zip(self.hh, d):
            if x is not None and y is not None:
                assert (x == y) == (t == u) and (t != u or hash(x) == hash(y)), (t, u)
    return {"r": r, "d": d, "l": [0 if x is None or x.ast_type.name in NOLOC else x.location.begin.line for x in self.hh],
            "v": ["gone" if v is None else _content(v) for v in self.hv]}


def _rel(a, b):
    r = [a == b, a < b, a > b]
    assert (a != b) == (not r[0]) and (a <= b) == (r[0] or r[1]) and (a >= b) == (r[0] or r[2])
    assert not r[0] or hash(a) == hash(b)
    return r


def op_t_init(self, s):
    self.hh = [mknode(["Variable", "a"]), mknode(["SymbolicTerm", "7"])]
    self.hv = []


def op_t_build(self, s):
    from pyops_ast import SCHEMA
    args = [_val(self, k, d, ("list", "tuple")[len(self.hh) % 2]) for (_, k), d in zip(SCHEMA[s["t"]], s["args"])]
    if s["t"] not in NOLOC:
        args.insert(0, mkloc())
    self.hh.append(getattr(ast, s["t"])(*args))
    return _obs(self, "ok")


def op_t_get(self, s):
    v = getattr(self.hh[s["h"] - 1], s["attr"])
    if v is not None:
        self.hh.append(v)
    return _obs(self, "none" if v is None else "node")


def op_t_set(self, s):
    setattr(self.hh[s["h"] - 1], s["attr"], _val(self, s["kind"], s["val"], s["how"]))
    return _obs(self, "ok")


def op_t_setview(self, s):
    setattr(self.hh[s["h"] - 1], s["attr"], self.hv[s["v"] - 1])
    return _obs(self, "ok")


def op_t_setself(self, s):
    x = self.hh[s["h"] - 1]
    v = getattr(x, s["src"])
    setattr(x, s["attr"], v if s["how"] == "view" else reversed(v) if s["how"] == "rev" else (y for y in v))
    return _obs(self, "ok")


def op_t_bad(self, s):
    x, n = self.hh[s["h"] - 1], 0
    try:
        getattr(x, s["attr"])
    except AttributeError:
        n += 1
    for v in (1, "x", None, []):
        try:
            setattr(x, s["attr"], v)
        except AttributeError:
            n += 1
    assert not hasattr(x, s["attr"])
    return _obs(self, "error" if n == 5 else "ok")


def op_t_copy(self, s):
    self.hh.append(copy.copy(self.hh[s["h"] - 1]))
    return _obs(self, "ok")


def op_t_deep(self, s):
    self.hh.append(copy.deepcopy(self.hh[s["h"] - 1]))
    return _obs(self, "ok")


def op_t_update(self, s):
    x = self.hh[s["h"] - 1]
    y = x.update(**{u[0]: _val(self, u[1], u[2]) for u in s["upd"] if u})
    self.hh.append(y)
    return _obs(self, "same" if y is x else "new")


def op_t_drop(self, s):
    self.hh[s["h"] - 1] = None
    return _obs(self, "ok")


def op_t_cmp(self, s):
    return _obs(self, _rel(self.hh[s["a"] - 1], self.hh[s["b"] - 1]))


def op_t_loc(self, s):
    x = self.hh[s["h"] - 1]
    l = mkloc(["f%d" % s["n"], [s["n"], 2], [s["n"] + 1, 3]])
    x.location = l
    assert x.location == l
    return _obs(self, "ok")


def op_v_new(self, s):
    v = getattr(self.hh[s["h"] - 1], s["attr"])
    assert isinstance(v, ASTSequence if s["kind"] == "N" else StrSequence)
    self.hv.append(v)
    return _obs(self, "ok")


def op_v_drop(self, s):
    self.hv[s["v"] - 1] = None
    return _obs(self, "ok")


def op_v_cmp(self, s):
    return _obs(self, _rel(self.hv[s["v"] - 1], self.hv[s["w"] - 1])[:2])


def _out(x):
    return x if isinstance(x, (str, int)) else dump(x)


def op_v_op(self, s):
    v, f, i, n = self.hv[s["v"] - 1], s["f"], s["i"], len(self.hv[s["v"] - 1])
    x = _val(self, "n" if s["kind"] == "N" else "s", s["x"])
    how = ("list", "tuple", "iter")[s["i"] % 3]
    sl = slice(None if i == n + 2 else i, None if s["j"] == 99 else s["j"])

    def run():
        nonlocal v
        if f == "get":
            return _out(v[i])
        if f == "set":
            v[i] = x
        elif f == "ins":
            v.insert(i, x)
        elif f == "del":
            del v[i]
        elif f == "app":
            v.append(x)
        elif f == "ext":
            v.extend(_val(self, s["kind"], s["xs"], how))
        elif f == "iadd":
            v += _val(self, s["kind"], s["xs"], how)
        elif f == "extv":
            v.extend(self.hv[s["w"] - 1])
        elif f == "pop":
            return _out(v.pop())
        elif f == "popi":
            return _out(v.pop(i))
        elif f == "rev":
            v.reverse()
        elif f == "clr":
            v.clear()
        elif f == "rem":
            v.remove(x)
        elif f == "idx":
            return v.index(x)
        elif f == "has":
            return x in v
        elif f == "cnt":
            return v.count(x)
        elif f == "len":
            return len(v)
        elif f == "iter":
            r = [_out(y) for y in v]
            assert r == list(reversed([_out(y) for y in reversed(v)]))
            return r
        elif f == "slice":
            r = v[sl]
            assert len(r) == len(list(r))
            return [_out(y) for y in r]
        elif f == "setslice":
            v[sl] = [x]
        elif f == "delslice":
            del v[sl]
        elif f == "sset":
            v[sl][0] = x
        else:
            del v[sl][0]
        return "ok"
    try:
        r = run()
    except (IndexError, ValueError, TypeError) as e:
        r = type(e).__name__
    return _obs(self, r)


# -- transformers (C14)
def number(a, base):
    """Number the locations of a tree in preorder."""
    n = base - 1

    def rec(x):
        nonlocal n
        n += 1
        if x.ast_type.name not in NOLOC:
            x.location = mkloc(["<loc>", [n, 1], [n, 1]])
        for k in x.child_keys:
            v = getattr(x, k)
            for y in [] if v is None else [v] if isinstance(v, ast.AST) else v:
                rec(y)
    rec(a)


def lines(a):
    r = [0 if a.ast_type.name in NOLOC else a.location.begin.line]
    for k in a.child_keys:
        v = getattr(a, k)
        for y in [] if v is None else [v] if isinstance(v, ast.AST) else v:
            r += lines(y)
    return r


def mktransformer(rules, log):
    def handler(t, k):
        def f(self, node, d, tag):
            assert node.ast_type.name == t
            log.append([t, d, tag])
            if k == "keep":
                return node
            if k == "new":
                return mknode(["Variable", "Zz"])
            if k == "copy":
                return copy.copy(node)
            if k == "ren":
                return node.update(name="nm") if getattr(node, "name", "nm") != "nm" else node
            return node.update(**self.visit_children(node, d + 1, tag=tag + "x"))
        return f
    return type("T", (ast.Transformer,), {"visit_" + t: handler(t, k) for t, k in rules})()


def op_ast_trans(self, s):
    a, log = mknode(s["tree"]), []
    number(a, 100)
    t = mktransformer(s["rules"], log)
    r = t(a, s["d"], tag=s["tag"]) if s["form"] == "call" else t.visit(a, s["d"], tag=s["tag"])
    tree = dump(r)
    assert dump(a) == s["tree"], "original changed"
    number(a, 200)
    return {"same": r is a, "tree": tree, "lines": lines(r), "log": log}


def op_ast_trans_seq(self, s):
    a, log = mknode(s["tree"]), []
    number(a, 100)
    v = getattr(a, s["attr"])
    r = mktransformer(s["rules"], log).visit_sequence(v, s["d"], tag=s["tag"])
    tree = [dump(x) for x in r]
    assert dump(a) == s["tree"], "original changed"
    number(a, 200)
    return {"same": r is v, "tree": tree, "lines": [y for x in r for y in lines(x)], "log": log}


def op_ast_visit(self, s):
    log = []

    class V(ast.Transformer):
        def visit(self, node):
            log.append(node.ast_type.name)
            return node if node.ast_type.name in s["stop"] else super().visit(node)
    a = mknode(s["tree"])
    assert V()(a) is a and dump(a) == s["tree"]
    return log
