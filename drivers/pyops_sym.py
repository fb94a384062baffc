"""Symbols (C09)."""
import clingo
from clingo import Function, Infimum, Number, String, Supremum, SymbolType, Tuple_, parse_term


def fix(s):
    return s.replace("~", "\u00e4\u20ac")


def mk(r, alt=0):
    t = r["t"]
    if t == "inf":
        return Infimum
    if t == "sup":
        return Supremum
    if t == "num":
        return Number(r["v"])
    if t == "str":
        return String(fix(r["v"]))
    a = [mk(x, alt) for x in r["a"]]
    if r["n"] == "" and alt:
        return Tuple_(a)
    if r["p"] and alt:
        return Function(r["n"], a) if a else Function(r["n"])
    return Function(r["n"], a, r["p"])


def acc(s):
    t = s.type
    if t == SymbolType.Infimum:
        return {"t": "inf"}
    if t == SymbolType.Supremum:
        return {"t": "sup"}
    if t == SymbolType.Number:
        return {"t": "num", "v": s.number}
    if t == SymbolType.String:
        return {"t": "str", "v": s.string.replace("\u00e4\u20ac", "~")}
    assert s.positive != s.negative
    assert s.match(s.name, len(s.arguments), s.positive)
    assert not s.match(s.name, len(s.arguments), not s.positive)
    assert not s.match(s.name, len(s.arguments) + 1, s.positive)
    assert not s.match(s.name + "y", len(s.arguments), s.positive)
    return {"t": "fun", "n": s.name, "a": [acc(x) for x in s.arguments], "p": s.positive}


def op_syms(self, st):
    a = [mk(r) for r in st["syms"]]
    b = [mk(r, 1) for r in st["syms"]]
    bad = []
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            got = (x < y, x <= y, x == y, x != y, x > y, x >= y)
            if got != (i < j, i <= j, i == j, i != j, i > j, i >= j):
                bad.append(["cmp", str(x), str(y), got])
        y = b[i]
        if hash(x) != hash(y) or len({x, y}) != 1:
            bad.append(["hash", str(x)])
        if parse_term(str(x)) != x:
            bad.append(["parse", str(x)])
        if eval(repr(x)) != x:
            bad.append(["repr", str(x)])
        if x == str(x) or x.__lt__(3) is not NotImplemented:
            bad.append(["foreign", str(x)])
        k = x.type
        for name, ok in (("number", k == SymbolType.Number), ("string", k == SymbolType.String), ("name", k == SymbolType.Function),
                         ("arguments", k == SymbolType.Function), ("positive", k == SymbolType.Function), ("negative", k == SymbolType.Function)):
            try:
                getattr(x, name)
                if not ok:
                    bad.append(["wrong accessor", str(x), name])
            except RuntimeError:
                if ok:
                    bad.append(["accessor", str(x), name])
    if sorted(reversed(b)) != a or (a and (max(b) != a[-1] or min(b) != a[0])):
        bad.append(["sorted"])
    return {"bad": bad[:5], "text": [str(x).replace("\u00e4\u20ac", "~") for x in a], "acc": [acc(x) for x in a]}
