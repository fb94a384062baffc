"""Replays behaviours of the specifications through the Python API.

usage: py_driver.py IN OUT    (one JSON behaviour per line, one JSON result per line)
"""
import json
import sys

import clingo
from clingo import Control, Function, Number, String, Infimum, Supremum, parse_term
from clingo.backend import HeuristicType, TheorySequenceType
from clingo.core import TruthValue

TRUTH = {"t": True, "f": False, "u": None}
TV = {"t": TruthValue.True_, "f": TruthValue.False_, "u": TruthValue.Free, "r": TruthValue.Release}
HEU = {"level": HeuristicType.Level, "sign": HeuristicType.Sign, "factor": HeuristicType.Factor,
       "init": HeuristicType.Init, "true": HeuristicType.True_, "false": HeuristicType.False_}
MT = {clingo.ModelType.StableModel: "stable", clingo.ModelType.BraveConsequences: "brave",
      clingo.ModelType.CautiousConsequences: "cautious"}


def sym(t):
    return parse_term(t)


def strs(syms):
    return {"bag": [str(s) for s in syms]}


class Stop(Exception):
    pass


class Session:
    def __init__(self):
        self.ctl = None
        self.aux = {}       # names of backend atoms -> literal
        self.log = []

    def close(self):
        self.ctl = None

    # -- helpers
    def lit(self, a):
        """The program literal of an atom given by its text (or its auxiliary name)."""
        if a in self.aux:
            return self.aux[a]
        at = self.ctl.symbolic_atoms[sym(a)]
        return None if at is None else at.literal

    def ref(self, a, by):
        if a in self.aux and a.startswith("_"):
            return self.aux[a]
        if by == "lit":
            l = self.lit(a)
            if l is not None:
                return l
        return sym(a)

    def assumption(self, l, by):
        r = self.ref(l["a"], by)
        if isinstance(r, int):
            return r if l["s"] else -r
        return (r, l["s"])

    def result(self, r):
        return {"sat": r.satisfiable, "unsat": r.unsatisfiable, "unknown": r.unknown, "exh": r.exhausted, "int": r.interrupted, "str": str(r)}

    def model(self, m, want):
        r = {}
        for w in want:
            if w == "atoms":
                r[w] = strs(m.symbols(atoms=True))
            elif w == "shown":
                r[w] = strs(m.symbols(shown=True))
            elif w == "terms":
                r[w] = strs(m.symbols(terms=True))
            elif w == "theory":
                r[w] = strs(m.symbols(theory=True))
            elif w == "catoms":
                r[w] = strs(m.symbols(atoms=True, complement=True))
            elif w == "cterms":
                r[w] = strs(m.symbols(terms=True, complement=True))
            elif w == "cshown":
                r[w] = strs(m.symbols(shown=True, complement=True))
            elif w == "atomsterms":
                r[w] = strs(m.symbols(atoms=True, terms=True))
            elif w == "shownterms":
                r[w] = strs(m.symbols(shown=True, terms=True))
            elif w == "every":
                r[w] = strs(m.symbols(atoms=True, terms=True, theory=True))
            elif w == "none":
                r[w] = strs(m.symbols())
            elif w == "str":
                r[w] = {"bag": str(m).split()}
            elif w == "cost":
                r[w] = m.cost
            elif w == "proven":
                r[w] = m.optimality_proven
            elif w == "type":
                r[w] = MT[m.type]
            elif w == "number":
                r[w] = m.number
            elif w == "thread":
                r[w] = m.thread_id
        return r

    # -- operations
    def op_new(self, s):
        self.ctl = None
        self.aux = {}
        self.args = s["args"]
        self.ctl = Control(s["args"])

    def op_add(self, s):
        if s.get("form", "").startswith("ast"):
            self.op_add_ast(s)
        elif s.get("form") == "short" and s["part"] == "base" and not s["params"]:
            self.ctl.add(s["text"])
        else:
            self.ctl.add(s["part"], s["params"], s["text"])

    def op_ground(self, s):
        parts = [(p["name"], [sym(a) for a in p["args"]]) for p in s["parts"]]
        if s.get("form", "").startswith("ast"):
            self.op_add_ast(s)
        elif s.get("form") == "short" and parts == [("base", [])]:
            self.ctl.ground()
        else:
            self.ctl.ground(parts)

    def op_assign(self, s):
        self.ctl.assign_external(self.ref(s["a"], s["by"]), TRUTH[s["v"]])

    def op_release(self, s):
        self.ctl.release_external(self.ref(s["a"], s["by"]))

    def op_cleanup(self, s):
        self.ctl.cleanup()

    def blits(self, b, f):
        r = []
        for x in b:
            l = f(x["a"])
            if x["s"] == 3:
                continue
            l = -l if x["s"] == 1 else l
            r.append((l, x["w"]) if "w" in x else l)
        return r

    def op_backend(self, s):
        with self.ctl.backend() as b:
            def at(a):
                if a not in self.aux:
                    self.aux[a] = b.add_atom() if a.startswith("_") else b.add_atom(sym(a))
                return self.aux[a]
            for st in s["stmts"]:
                k = st["k"]
                if k == "rule":
                    r = st["r"]
                    head = [at(a) for a in r["h"]]
                    ch = r["t"] == "choice"
                    if r["k"] >= 0:
                        w = self.blits(r["w"], at)
                        if ch:
                            b.add_weight_rule(head, r["k"], w, True)
                        else:
                            b.add_weight_rule(head, r["k"], w)
                    else:
                        body = self.blits(r["b"], at)
                        if ch:
                            b.add_rule(head, body, True)
                        elif body:
                            b.add_rule(head, body)
                        else:
                            b.add_rule(head)
                elif k == "atom":
                    at(st["a"])
                elif k == "minimize":
                    b.add_minimize(st["p"], self.blits(st["w"], at))
                elif k == "project":
                    b.add_project([at(a) for a in st["atoms"]])
                elif k == "external":
                    if st["v"] == "f" and st.get("dflt"):
                        b.add_external(at(st["a"]))
                    else:
                        b.add_external(at(st["a"]), TV[st["v"]])
                elif k == "assume":
                    b.add_assume(self.blits(st["b"], at))
                elif k == "heuristic":
                    b.add_heuristic(at(st["a"]), HEU[st["t"]], st["bias"], st["prio"], self.blits(st["b"], at))
                elif k == "edge":
                    b.add_acyc_edge(st["u"], st["v"], self.blits(st["b"], at))
                else:
                    raise Stop("unknown statement " + k)

    def op_solve(self, s):
        ass = [self.assumption(l, s.get("by")) for l in s.get("ass", [])]
        want = s.get("want", ["atoms"])
        mode = s.get("mode", "cb")
        models = []
        ctl = self.ctl

        def on_model(m):
            models.append(self.model(m, want))

        if mode == "cb":
            r = ctl.solve(assumptions=ass, on_model=on_model) if ass else ctl.solve(on_model=on_model)
        elif mode == "ontrue":
            def om(m):
                models.append(self.model(m, want))
                return True
            r = ctl.solve(ass, om)
        elif mode == "yield":
            with ctl.solve(ass, yield_=True) as h:
                for m in h:
                    models.append(self.model(m, want))
                r = h.get()
        elif mode == "yieldloop":
            with ctl.solve(assumptions=ass, yield_=True) as h:
                while True:
                    m = h.model()
                    if m is None:
                        break
                    models.append(self.model(m, want))
                    h.resume()
                r = h.get()
        elif mode == "async":
            fin = []
            with ctl.solve(ass, on_model=on_model, on_finish=fin.append, async_=True) as h:
                while not h.wait(1.0):
                    pass
                r = h.get()
            assert len(fin) == 1 and self.result(fin[0]) == self.result(r), "finish"
        elif mode == "ayield":
            with ctl.solve(ass, yield_=True, async_=True) as h:
                while True:
                    h.resume()
                    h.wait()
                    m = h.model()
                    if m is None:
                        break
                    models.append(self.model(m, want))
                r = h.get()
        elif mode == "yieldcb":
            seen = []
            with ctl.solve(ass, on_model=lambda m: seen.append(self.model(m, want)), yield_=True) as h:
                for m in h:
                    models.append(self.model(m, want))
                r = h.get()
            assert seen == models, "yieldcb"
        else:
            raise Stop("unknown mode " + mode)
        res = self.result(r)
        res["models"] = models
        return res

    def op_end(self, s):
        return None


def load(name):
    try:
        m = __import__("py_" + name)
    except ModuleNotFoundError as e:
        if e.name != "py_" + name:
            raise
        return None
    return m


def describe(e):
    return {"exc": type(e).__name__, "msg": str(e)}


def main():
    fi, fo = sys.argv[1:3]
    import glob
    import os
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(glob.glob(os.path.join(d, "pyops_*.py"))):
        m = __import__(os.path.basename(f)[:-3])
        for k, v in vars(m).items():
            if k.startswith("op_") or k.startswith("h_"):
                setattr(Session, k, v)
    with open(fo, "w") as out:
        for line in open(fi):
            beh = json.loads(line)
            ses = Session()
            obs = []
            for st in beh["steps"]:
                try:
                    o = getattr(ses, "op_" + st["op"])(st)
                except Stop:
                    raise
                except AttributeError as e:
                    if "op_" + st["op"] in str(e):
                        raise
                    o = describe(e)
                except BaseException as e:
                    o = describe(e)
                obs.append(o)
            ses.close()
            del ses
            out.write(json.dumps({"id": beh["id"], "obs": obs}) + "\n")
            out.flush()


main()
