"""Backends and observers (C10)."""
import clingo
from clingo import parse_term
from clingo.backend import HeuristicType, Observer, TheorySequenceType
from clingo.core import TruthValue

TV = {"t": TruthValue.True_, "f": TruthValue.False_, "u": TruthValue.Free, "r": TruthValue.Release}
VT = {v: k for k, v in TV.items()}
HEU = {"level": HeuristicType.Level, "sign": HeuristicType.Sign, "factor": HeuristicType.Factor,
       "init": HeuristicType.Init, "true": HeuristicType.True_, "false": HeuristicType.False_}
UEH = {v: k for k, v in HEU.items()}
SEQ = {"tuple": TheorySequenceType.Tuple, "set": TheorySequenceType.Set, "list": TheorySequenceType.List}
ALL = ("init_program begin_step end_step rule weight_rule minimize project output_atom output_term external assume heuristic acyc_edge "
       "theory_term_number theory_term_string theory_term_compound theory_element theory_atom theory_atom_with_guard").split()


def recorder(log, has):
    ns = {}

    def mk(n):
        def f(self, *a):
            # copy: the data must not change after the call
            log.append((n,) + tuple(list(x) if isinstance(x, (list, tuple)) else x for x in a))
        return f
    for n in ALL:
        if n in has or (n.startswith("theory") and "theory" in has):
            ns[n] = mk(n)
    return type("Rec", (Observer,), ns)()


def op_observe(self, s):
    if not hasattr(self, "recs"):
        self.recs = []
    log = []
    o = recorder(log, s["has"])
    if s["replace"]:
        self.ctl.register_observer(o, True) if s["id"] % 2 else self.ctl.register_observer(observer=o, replace=True)
    else:
        self.ctl.register_observer(o)
    self.recs.append([s["id"], log])


def h_term(self, b, t):
    k = t["t"]
    if k == "num":
        return b.add_theory_term_number(t["v"])
    if k == "str":
        return b.add_theory_term_string(t["v"])
    if k == "sym":
        return b.add_theory_term_symbol(parse_term(t["v"]))
    a = [self.h_term(b, x) for x in t["args"]]
    if k == "fun":
        return b.add_theory_term_function(t["v"], a)
    return b.add_theory_term_sequence(SEQ[t["v"]], a)


def op_state(self, s):
    with self.ctl.backend() as b:
        def at(a):
            if a not in self.aux:
                self.aux[a] = b.add_atom() if a.startswith("_") else b.add_atom(parse_term(a))
            return self.aux[a]

        def lit(l):
            return -at(l[1:]) if l[0] == "~" else at(l)

        def lits(b):
            return [lit(l) for l in b]

        def wlits(b):
            return [(lit(l), w) for l, w in b]
        for st in s["stmts"]:
            k = st["k"]
            if k == "rule":
                h, bd = [at(a) for a in st["head"]], lits(st["body"])
                if st["ch"]:
                    b.add_rule(h, bd, True)
                elif bd:
                    b.add_rule(h, bd)
                else:
                    b.add_rule(h)
            elif k == "weight_rule":
                h = [at(a) for a in st["head"]]
                if st["ch"]:
                    b.add_weight_rule(h, st["lo"], wlits(st["body"]), True)
                else:
                    b.add_weight_rule(h, st["lo"], wlits(st["body"]))
            elif k == "minimize":
                b.add_minimize(st["p"], wlits(st["body"]))
            elif k == "project":
                b.add_project([at(a) for a in st["atoms"]])
            elif k == "external":
                if st["v"] == "f" and st["dflt"]:
                    b.add_external(at(st["a"]))
                else:
                    b.add_external(at(st["a"]), TV[st["v"]])
            elif k == "assume":
                b.add_assume(lits(st["body"]))
            elif k == "heuristic":
                b.add_heuristic(at(st["a"]), HEU[st["t"]], st["bias"], st["prio"], lits(st["body"]))
            elif k == "edge":
                b.add_acyc_edge(st["u"], st["v"], lits(st["body"]))
            elif k == "atom":
                l = at(st["a"])
                if not st["a"].startswith("_") and b.add_atom(parse_term(st["a"])) != l:
                    raise RuntimeError("atom")
            else:
                name = self.h_term(b, st["name"])
                els = [b.add_theory_element([self.h_term(b, t) for t in e["terms"]], lits(e["cond"])) for e in st["el"]]
                a = at(st["at"]) if st["at"] else 0
                if st["op"]:
                    b.add_theory_atom_with_guard(name, els, st["op"], self.h_term(b, st["rhs"]), a)
                else:
                    b.add_theory_atom(name, els, a)


def op_text(self, s):
    p = "t%d" % s["n"]
    if s["n"] == 1:
        self.ctl.add("base", [], "#theory t { x {}; &ta/1 : x, {<=}, x, head }.")
        self.ctl.ground([("base", [])])
    self.ctl.add(p, [], s["text"])
    self.ctl.ground([(p, [])])


def raw(x):
    if isinstance(x, clingo.Symbol):
        return str(x)
    if isinstance(x, HeuristicType):
        return UEH[x]
    if isinstance(x, TruthValue):
        return VT[x]
    if isinstance(x, (list, tuple)):
        return [raw(y) for y in x]
    return x


def op_stepend(self, s):
    names = [[v, k] for k, v in self.aux.items()] + [[x.literal, str(x.symbol)] for x in self.ctl.symbolic_atoms]
    res = self.ctl.solve()
    logs = [{"id": i, "log": raw(l)} for i, l in self.recs]
    for _, l in self.recs:
        del l[:]
    return {"names": names, "logs": logs, "cut": str(res) == "UNKNOWN"}
