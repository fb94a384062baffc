"""Callbacks that raise (C06)."""
import clingo
from clingo import Control, Number, Observer
from clingo.ast import Transformer, parse_string
from clingo.backend import HeuristicType
from clingo.script import enable_python

enable_python()
OPS = {}


class E1(Exception):
    pass


KINDS = {"E1": E1, "ValueError": ValueError, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
         "ZeroDivisionError": ZeroDivisionError, "OSError": OSError}


class Armed:
    def __init__(self):
        self.set({})

    def set(self, s):
        self.arm = s.get("arm", "")
        self.s = s

    def hit(self, name):
        if self.arm != name:
            return
        self.arm = ""
        k = self.s["kind"]
        if k == "nested":
            if self.s["swallow"]:
                try:
                    clingo.parse_term("f(", logger=lambda c, m: None)
                except RuntimeError:
                    pass
                return
            clingo.parse_term("f(", logger=lambda c, m: None)
        raise KINDS[k](self.s["msg"])


class Obs(Observer):
    def __init__(self, a):
        self.a = a


for name in ("rule", "output_atom", "begin_step", "end_step", "external", "minimize", "weight_rule", "project", "assume", "heuristic", "acyc_edge"):
    setattr(Obs, name, (lambda n: lambda self, *args: self.a.hit(n))(name))


class Prop:
    def __init__(self, a):
        self.a = a

    def init(self, init):
        for x in init.symbolic_atoms:
            init.add_watch(init.solver_literal(x.literal))
            init.add_watch(-init.solver_literal(x.literal))
        self.a.hit("init")

    def propagate(self, ctl, changes):
        self.a.hit("propagate")

    def check(self, ctl):
        self.a.hit("check")

    def decide(self, tid, ass, fallback):
        self.a.hit("decide")
        return fallback


class Ctx:
    def __init__(self, a):
        self.a = a

    def f(self, x):
        self.a.hit("f")
        return x


class Trans(Transformer):
    def __init__(self, e):
        self.e = e

    def visit_Variable(self, x):
        raise self.e


def op_r_new(self, s):
    self.armed = Armed()
    self.ctl = c = Control(["0"], logger=lambda c, m: None)
    self.keep = (Obs(self.armed), Prop(self.armed), Ctx(self.armed))
    c.register_observer(self.keep[0])
    c.register_propagator(self.keep[1])
    c.add("base", [], "{a;b}. c:-a. #external e. d(@f(1)).")
    c.add("q", ["t"], "{x(@f(t));y(t)}.")


def armed(f):
    def g(self, s):
        self.armed.set(s)
        try:
            f(self, s)
        finally:
            self.armed.set({})
        return "ok"
    return g


@armed
def op_r_ground(self, s):
    self.ctl.ground([(s["part"], [] if s["part"] == "base" else [Number(s["i"])])], self.keep[2])


@armed
def op_r_backend(self, s):
    with self.ctl.backend() as b:
        x, y = b.add_atom(), b.add_atom()
        b.add_rule([x], [y])
        b.add_external(y)
        b.add_minimize(0, [(x, 0)])


def op_r_bseq(self, s):
    a, r = self.armed, []
    with self.ctl.backend() as b:
        x, y = b.add_atom(), b.add_atom()
        do = {"rule": lambda: b.add_rule([x], [y]), "external": lambda: b.add_external(y), "minimize": lambda: b.add_minimize(0, [(x, 0)]),
              "weight_rule": lambda: b.add_weight_rule([x], 1, [(y, 1)]), "project": lambda: b.add_project([x]),
              "assume": lambda: b.add_assume([-x]), "heuristic": lambda: b.add_heuristic(x, HeuristicType.Sign, 1, 1, [y]),
              "acyc_edge": lambda: b.add_acyc_edge(1, 2, [x])}
        for i in s["items"]:
            a.set(dict(i, arm=i["f"]) if i["on"] else {})
            try:
                do[i["f"]]()
                r.append({"exc": "ok", "msg": ""})
            except Exception as e:
                r.append({"exc": type(e).__name__, "msg": str(e)})
            a.set({})
    return r


@armed
def op_r_external(self, s):
    self.ctl.assign_external(clingo.Function("e"), s["v"])


@armed
def op_r_solve(self, s):
    a, md = self.armed, s["mode"]

    def on_model(m):
        a.hit("on_model")

    if md == "sync":
        assert self.ctl.solve(on_model=on_model).satisfiable
        return

    def use(h):
        if md == "yield":
            for _ in h:
                pass
        elif md == "ayield":
            while True:
                h.resume()
                h.wait()
                if h.model() is None:
                    break
        assert h.get().satisfiable
    err = None
    with self.ctl.solve(on_model=on_model, yield_=md in ("yield", "ayield"), async_=md in ("async", "ayield")) as h:
        if s["catch"] == "in":
            try:
                use(h)
            except BaseException as e:
                err = e
        else:
            use(h)
    if err is not None:
        raise err


@armed
def op_r_parse(self, s):
    seen = []

    def cb(x):
        if len(seen) == s["i"]:
            self.armed.hit("statement")
        seen.append(x)
    parse_string("a. b(X) :- c(X). d :- e.", cb)
    assert len(seen) == 4


def op_r_bad(self, s):
    w = s["what"]
    if w == "add":
        Control(logger=lambda c, m: None).add("base", [], "a :- ")
    elif w == "parse":
        clingo.parse_term("f(,", logger=lambda c, m: None)
    elif w == "load":
        Control(logger=lambda c, m: None).load("/does/not/exist.lp")
    else:
        clingo.Control(["--no-such-option"], logger=lambda c, m: None)


def op_r_script(self, s):
    c = Control(logger=lambda c, m: None)
    import __main__
    __main__.vf_exc = KINDS[s["kind"]](s["msg"])
    c.add("base", [], "#script(python)\ndef vf_fun(x):\n    raise vf_exc\n#end.\na(@vf_fun(%d))." % s["i"])
    c.ground([("base", [])])


def op_r_transform(self, s):
    ts = []
    parse_string("a(X) :- b(Y,f(X)).", ts.append)
    for t in ts:
        Trans(KINDS[s["kind"]](s["msg"])).visit(t)
