"""Functions called from programs (C19)."""
import sys

import clingo
from clingo import Control, Function, Number, String, Tuple_
from clingo.script import Script, register_script

OPS = {}
MAIN = sys.modules["__main__"]
EXEC, CALLS = [], []
FNS = {}


def returned(kind, args, k=[0]):
    k[0] += 1
    a = list(args)
    if kind in ("first", "last"):
        return [] if not a else a[0 if kind == "first" else -1]
    if kind == "all":
        return (a, tuple(a), (x for x in a), dict.fromkeys(a))[k[0] % 4]
    if kind == "rev":
        return (a[::-1], reversed(a), frozenset(a))[k[0] % 3]
    if kind == "none":
        return ([], (), iter([]), set())[k[0] % 4]
    if kind == "tup":
        return Tuple_(a) if k[0] % 2 else [Function("", a)]
    if kind == "wrap":
        return Function("r", a)
    if kind == "cnt":
        return Number(len(a))
    if kind == "cst":
        return String("a b") if k[0] % 2 else (String("a b"),)
    return a[:1] * 2 + [Number(7)]


def called(kind, name, args):
    CALLS.append("%s(%s)" % (name, ",".join(map(str, args))))
    return returned(kind, args)


class Lang(Script):
    def __init__(self, name):
        self.name = name

    def execute(self, location, code):
        x, f, kind = code.split()
        EXEC.append(int(x))
        FNS[self.name, f] = kind

    def call(self, location, name, arguments):
        return called(FNS[self.name, name], name, arguments)

    def callable(self, name):
        return (self.name, name) in FNS


def op_x_new(self, s):
    if not hasattr(MAIN, "_vf_exec"):
        # Python is enabled by pyops_raise: once per process
        register_script("va", Lang("va"))
        register_script("vb", Lang("vb"))
        MAIN._vf_exec, MAIN._vf_called = EXEC.append, called
    FNS.clear()
    for f in ("f", "g", "hh", "f_1"):
        MAIN.__dict__.pop(f, None)
    self.c = Control([], logger=lambda a, b: None)
    self.c.add("base", [], "".join("d(%s)." % x for x in s["dom"]))
    self.c.ground([("base", [])])


def arg(x):
    k = x["k"]
    return x["s"] if k == "c" else "X" if k == "X" else "t" if k == "t" else "(%s;%s)" % tuple(x["e"]) if k == "p" else "@%s(%s)" % (x["f"], x["s"])


def rule(r):
    call = "@%s(%s)" % (r["f"], ",".join(map(arg, r["args"])))
    body = ["d(X)"] if any(x["k"] == "X" for x in r["args"]) else []
    if r["body"] == "head":
        return "%s(%s)%s." % (r["h"], call, " :- " + ", ".join(body) if body else "")
    return "%s(Y) :- %s." % (r["h"], ", ".join(body + ["Y = " + call]))


def script(x):
    if x["lang"] == "python":
        return "#script (python)\n_vf_exec(%d)\ndef %s(*args):\n    return _vf_called('%s', '%s', args)\n#end." % (x["id"], x["f"], x["kind"], x["f"])
    return "#script (%s) %d %s %s #end." % (x["lang"], x["id"], x["f"], x["kind"])


def op_x_add(self, s):
    EXEC.clear()
    t = []
    for i in range(len(s["rules"]) + 1):
        t.extend(script(x) for x in s["scripts"] if x["at"] == i)
        if i < len(s["rules"]):
            t.append(rule(s["rules"][i]))
    self.c.add(s["part"], ["t"] if s["par"] else [], "\n".join(t))
    return list(EXEC)


class Context:
    def __init__(self, m):
        self.m = m

    def __getattr__(self, name):
        if name not in self.m:
            raise AttributeError(name)
        return lambda *args: called(self.m[name], name, args)


class Falsy(Context):
    def __len__(self):
        return 0


def op_x_ground(self, s):
    CALLS.clear()
    parts = [(p["name"], [clingo.parse_term(a) for a in p["args"]]) for p in s["parts"]]
    if s["ctx"]["use"]:
        self.c.ground(parts, context=(Falsy if s["ctx"]["style"] == "falsy" else Context)(s["ctx"]["map"]))
    else:
        self.c.ground(parts)
    return sorted(set(CALLS))


def op_x_solve(self, s):
    r = []
    self.c.solve(on_model=lambda m: r.extend(str(x) for x in m.symbols(atoms=True) if x.name[0] == "p"))
    return {"bag": r}
