"""Solve handles and events (C05)."""
from clingo import Control, Function, Number
from pyops_api import shim

OPS = {}
E = Function("e")
A1 = Function("a", [Number(1)])


def fl(r):
    s = "S" if r.satisfiable else "U" if r.unsatisfiable else "?"
    assert r.unknown == (s == "?") and (r.satisfiable is None) == r.unknown and (r.unsatisfiable is None) == r.unknown
    if not r.unknown:
        assert r.satisfiable is not r.unsatisfiable
    assert str(r) == {"S": "SAT", "U": "UNSAT", "?": "UNKNOWN"}[s] and isinstance(repr(r), str)
    return s + ("e" if r.exhausted else "") + ("i" if r.interrupted else "")


def op_h_new(self, s):
    shim().reset()
    self.c = c = Control([str(s["lim"])], logger=lambda c, m: None)
    c.add("base", [], ("1{a(1..%d)}1. #external e. :- e." % s["k"]) if s["k"] else "a :- not a. #external e.")
    c.ground([("base", [])])
    self.k = s["k"]


def op_h_limit(self, s):
    self.c.configuration.solve.models = s["i"]
    return "ok"


class Seen:
    def __init__(self):
        self.d, self.ok = {}, True

    def add(self, m):
        t = (str(m), tuple(sorted(str(x) for x in m.symbols(atoms=True))))
        if self.d.setdefault(m.number, t) != t or sum(1 for x in self.d.values() if x == t) != 1:
            self.ok = False
        return m.number


def _core(self, c):
    names = {}
    e, a = self.c.symbolic_atoms[E], self.c.symbolic_atoms[A1]
    if e:
        names[e.literal] = "e"
    if a:
        names[-a.literal] = "-a1"
    return {"bag": [names.get(x, str(x)) for x in c]}


def _closes():
    n = sum(1 for x in shim().log() if x["f"] == "solve_handle_close")
    shim().record(False)
    shim().clear()
    return n


def op_h_solve(self, s):
    self.log = log = []
    self.seen = seen = Seen()
    self.it = None

    def on_model(m):
        log.append("M%d" % seen.add(m))
        if m.number == s["stop"]:
            return False
        return True if s["goon"] == "true" else None
    kw = {}
    if "model" in s["on"]:
        kw["on_model"] = on_model
    if "finish" in s["on"]:
        kw["on_finish"] = lambda r: log.append("F" + fl(r))
    if "statistics" in s["on"]:
        kw["on_statistics"] = lambda a, b: log.append("S")
    if "unsat" in s["on"]:
        kw["on_unsat"] = lambda b: log.append("U" + ",".join(str(x) for x in b))
    if s["ass"]:
        kw["assumptions"] = [(E, True) if x == "e" else (A1, False) for x in s["ass"]]
    if s["bounds"]:
        shim().script({"f": "control_solve", "events": [{"unsat": [{"num": y} for y in x.split(",") if y]} for x in s["bounds"]]})
    shim().record(True)
    if s["mode"] == "sync":
        core = []
        if s["core"]:
            kw["on_core"] = core.append
        r = self.c.solve(**kw)
        n = _closes()
        return {"result": fl(r), "log": log, "closes": n, "same": seen.ok,
                "core": _core(self, core[0]) if len(core) == 1 else "none" if not core else "several"}
    self.cm = self.c.solve(yield_="y" in s["mode"], async_="a" in s["mode"], **kw)
    self.hd = self.cm.__enter__()
    return "ok"


def op_h_get(self, s):
    return fl(self.hd.get())


def op_h_model(self, s):
    m = self.hd.model()
    return self.seen.add(m) if m is not None else 0


def op_h_next(self, s):
    self.it = self.it or iter(self.hd)
    m = next(self.it, None)
    return self.seen.add(m) if m is not None else 0


def op_h_resume(self, s):
    self.hd.resume()
    return "ok"


def op_h_wait(self, s):
    return self.hd.wait() if s["t"] == "none" else self.hd.wait(int(s["t"]))


def op_h_poll(self, s):
    return self.hd.wait(0)


def op_h_cancel(self, s):
    self.hd.cancel()
    return "ok"


def op_h_core(self, s):
    return _core(self, self.hd.core())


def op_h_rest(self, s):
    r = []
    for m in self.hd:
        r.append(self.seen.add(m))
        if len(r) == s["brk"]:
            break
    return r


def op_h_leave(self, s):
    how = "normal"
    try:
        if s["how"] == "raise":
            try:
                raise KeyError("leave")
            except KeyError as e:
                import sys
                if not self.cm.__exit__(*sys.exc_info()):
                    raise
        else:
            self.cm.__exit__(None, None, None)
    except KeyError as e:
        how = "raise" if e.args == ("leave",) else "other"
    self.cm = self.hd = self.it = None
    return {"log": self.log, "closes": _closes(), "same": self.seen.ok, "how": how}
