"""Ownership of engine objects (C21)."""
import copy
import ctypes
import gc
import json as _json

from clingo import Control, Function, Number, ast
from clingo.ast import ASTSequence, ProgramBuilder, Transformer
from pyops_api import shim

PRG = "a(1). {b(1..2)}. #external e."
TXT = "p(1..2). q(X) :- p(X). :- r. s(1;2)."


class OwnErr(Exception):
    pass


def _lib():
    l = shim().l
    l.vf_own.restype = ctypes.c_char_p
    return l


def _stmt(i):
    r = []
    ast.parse_string("x%d." % i, r.append)
    return r[1]


LOC = ast.Location(ast.Position("<o>", 1, 1), ast.Position("<o>", 1, 1))


class Own:
    """Runs the operations; nothing but the slots may keep objects alive between them."""

    def __init__(self, slots):
        self.sl = {}
        self.n = 0

    def fault(self, f):
        shim().script({"f": f, "fault": {"code": 1, "msg": "injected"}})

    def ow_ctl(self, s):
        c = Control(["0"], logger=lambda c, m: None)
        c.add("base", [], PRG)
        c.ground([("base", [])])
        self.sl[s["s"]] = c

    def ow_bad(self, s):
        Control(["--no-such-option"], logger=lambda c, m: None)

    def ow_borrow(self, s):
        self.sl[s["to"]] = Control(self.sl[s["s"]]._rep)

    def make(self, c, k):
        if k in ("handle", "async"):
            return c.solve(yield_=True, async_=k == "async")
        if k == "backend":
            return c.backend()
        if k == "builder":
            return ProgramBuilder(c)
        if k == "conf":
            return c.configuration
        if k == "sub":
            return c.configuration.solve
        if k == "atoms":
            return c.symbolic_atoms
        if k == "arr":
            return c.configuration.solver[0]
        if k == "iter":
            return iter(c.symbolic_atoms)
        if k == "atom":
            return next(iter(c.symbolic_atoms.by_signature("a", 1)))
        raise KeyError(k)

    def ow_open(self, s):
        o = self.make(self.sl[s["s"]], s["k"])
        if s["k"] in ("backend", "builder"):
            o.__enter__()
        self.sl[s["to"]] = o

    def ow_use(self, s):
        o = self.sl[s["s"]]
        n = type(o).__name__
        if n == "Control":
            len(o.symbolic_atoms)
        elif n == "SolveHandle":
            o.resume()
            o.wait()
            o.model()
        elif n == "Backend":
            o.add_atom(Function("z"))
            o.add_rule([o.add_atom()])
        elif n == "ProgramBuilder":
            self.n += 1
            o.add(_stmt(self.n))
        elif n == "Configuration":
            len(o)
            list(o.keys)
            str(o.models if "models" in o.keys else o.heuristic if "heuristic" in o.keys else o.solve.models)
        elif n == "SymbolicAtoms":
            [x.symbol for x in o]
        elif n == "SymbolicAtom":
            o.symbol, o.is_fact, o.literal
        elif n == "AST":
            str(o)
        elif n == "ASTSequence":
            list(o)
        elif n == "StrSequence":
            o.append("<=")
            del o[len(o) - 1]
            if list(o) != ["=", "<"] or o[1] != "<" or len(o) != 2:
                raise KeyError(list(o))
        elif n == "generator":
            x = next(o, None)
            x is None or x.symbol
        else:
            raise KeyError(n)

    def ow_close(self, s):
        o = self.sl[s["s"]]
        if s["fault"]:
            n = type(o).__name__
            self.fault({"SolveHandle": "solve_handle_close", "Backend": "backend_end", "ProgramBuilder": "program_builder_end"}[n])
        o.__exit__(None, None, None)

    def ow_scope(self, s):
        c = self.sl[s["s"]]
        with self.make(c, s["k"]) as o:
            if s["how"] == "raise":
                raise OwnErr("scope")
            if s["k"] == "handle":
                for m in o:
                    pass

    def ow_solve(self, s):
        c, how = self.sl[s["s"]], s["how"]

        def om(m):
            raise OwnErr("model")
        if how == "plain":
            c.solve()
        elif how == "raise":
            c.solve(on_model=om)
        elif how == "get":
            self.fault("solve_handle_get")
            c.solve()
        elif how == "resume":
            with c.solve(yield_=True) as h:
                h.resume()
        elif how == "break":
            with c.solve(yield_=True) as h:
                for m in h:
                    break
        elif how == "yraise":
            with c.solve(yield_=True) as h:
                for m in h:
                    raise OwnErr("loop")
        elif how == "async":
            with c.solve(async_=True) as h:
                h.cancel()
        elif how == "araise":
            with c.solve(async_=True, on_model=om) as h:
                h.get()

    def ow_fault(self, s):
        self.fault(s["f"])
        if s["f"] == "control_new":
            Control([], logger=lambda c, m: None)
        c = self.sl[s["s"]]
        if s["f"] == "control_solve":
            c.solve(yield_=True)
        elif s["f"] in ("control_backend", "backend_begin"):
            with c.backend() as b:
                raise KeyError("entered")
        else:
            with ProgramBuilder(c) as b:
                raise KeyError("entered")

    def ow_alias(self, s):
        self.sl[s["to"]] = self.sl[s["s"]]

    def ow_move(self, s):
        self.sl[s["to"]] = self.sl.pop(s["s"])

    def ow_swap(self, s):
        self.sl[s["s"]], self.sl[s["to"]] = self.sl[s["to"]], self.sl[s["s"]]

    def ow_drop(self, s):
        del self.sl[s["s"]]

    # -- syntax trees
    def ow_build(self, s):
        c, q = [self.sl[i] for i in s["c"]], [self.sl[i] for i in s["q"]]
        if s["fault"]:
            self.fault("ast_build")
        t = s["t"]
        self.n += 1
        if t == "leaf":
            r = ast.SymbolicTerm(LOC, Number(self.n))
        elif t == "fun":
            r = ast.Function(LOC, "f", q, 0)
        elif t == "un":
            r = ast.UnaryOperation(LOC, ast.UnaryOperator.Minus, c[0])
        elif t == "thg":
            r = ast.TheoryGuardDefinition(["=", "<"], "k")
        else:
            r = ast.TheoryAtom(LOC, c[0], [], self.sl[s["o"]] if s["o"] else None)
        self.sl[s["to"]] = r

    def seq(self, i):
        o = self.sl[i]
        return o if isinstance(o, ASTSequence) else o.arguments

    def attr(self, o, w):
        return "guard" if w == "opt" else "term" if o.ast_type == ast.ASTType.TheoryAtom else "argument"

    def ow_child(self, s):
        if s["w"] == "seq":
            self.sl[s["to"]] = self.seq(s["s"])[s["i"] - 1]
        else:
            o = self.sl[s["s"]]
            self.sl[s["to"]] = getattr(o, self.attr(o, s["w"]))

    def ow_set(self, s):
        v = self.sl[s["v"]]
        if s["w"] == "seq":
            self.seq(s["s"])[s["i"] - 1] = v
        else:
            o = self.sl[s["s"]]
            if s["fault"]:
                self.fault("ast_attribute_set_ast" if s["w"] == "arg" else "ast_attribute_set_optional_ast")
            setattr(o, self.attr(o, s["w"]), v)

    def ow_unset(self, s):
        self.sl[s["s"]].guard = None

    def ow_seq(self, s):
        o = self.sl[s["s"]]
        self.sl[s["to"]] = o.operators if o.ast_type == ast.ASTType.TheoryGuardDefinition else o.arguments

    def ow_ins(self, s):
        q, v = self.seq(s["s"]), self.sl[s["v"]]
        if s["fault"]:
            self.fault("ast_attribute_insert_ast_at")
        q.insert(s["i"] - 1, v)

    def ow_del(self, s):
        del self.seq(s["s"])[s["i"] - 1]

    def ow_copy(self, s):
        o = self.sl[s["s"]]
        if s["fault"]:
            self.fault("ast_deep_copy" if s["deep"] else "ast_copy")
        self.sl[s["to"]] = copy.deepcopy(o) if s["deep"] else copy.copy(o)

    def ow_parse(self, s):
        seen, keep = [0], []

        def cb(x):
            seen[0] += 1
            if seen[0] - 1 == s["keep"] and s["keep"]:
                if s["fault"] == "raise":
                    raise OwnErr("callback")
                keep.append(x)
        ast.parse_string(TXT + (" p(" if s["fault"] == "syntax" else ""), cb, logger=lambda c, m: None)
        if keep:
            self.sl[s["to"]] = keep[0]

    def ow_walk(self, s):
        o, w = self.sl[s["s"]], s["w"]
        if w == "visit":
            T = type("T", (Transformer,), {"visit_SymbolicTerm": lambda self, x: x})
            T().visit(o)
        elif w == "transform":
            T = type("T", (Transformer,), {"visit_SymbolicTerm": lambda self, x: x.update(symbol=Number(0))})
            T().visit(o)
        elif w == "repr":
            repr(o), str(o)
        elif w == "compare":
            o == copy.copy(o), o < copy.deepcopy(o)
        elif w == "hash":
            hash(o), {o: 1}[o]
        elif w == "values":
            [x for x in o.values()], list(o.items()), o.child_keys
        elif w == "unpool":
            o.unpool()

    def ow_add(self, s):
        self.sl[s["s"]].add(self.sl[s["v"]] if s["v"] else _stmt(0))

    def ow_end(self, s):
        for i in s["close"]:
            self.sl[i].__exit__(None, None, None)
        s["close"] = []
        for i in s["order"]:
            self.sl.pop(i, None)


def _run(o, s):
    try:
        getattr(o, s["op"])(s)
        return "ok"
    except (AttributeError, KeyError, IndexError, OwnErr) as e:
        return "exc" if isinstance(e, OwnErr) else "bug: " + repr(e)
    except Exception as e:
        return "exc"


def op_own_any(self, s):
    if s["op"] == "ow_new":
        gc.collect()
        shim().reset()
        self.own = Own(4)
        _lib().vf_own_reset(1)
        shim().record(True)
        return None
    r = _run(self.own, s)
    gc.collect()
    own = _json.loads(_lib().vf_own().decode())
    if s["op"] == "ow_end":
        shim().record(False)
        _lib().vf_own_reset(0)
        self.own = None
    return {"r": r, "own": own}


for _k in [k for k in dir(Own) if k.startswith("ow_")] + ["ow_new"]:
    globals()["op_" + _k] = op_own_any
