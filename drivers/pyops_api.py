"""Operations of the interface, through the interposer (C24, C06)."""
import ctypes
import json
import os

import clingo
from clingo import Control, Function, parse_term
from clingo.backend import HeuristicType, Observer, TheorySequenceType
from clingo.control import BackendType
from clingo.core import TruthValue
from clingo.propagator import PropagatorCheckMode, PropagatorUndoMode
from clingo.solving import ModelType

OPS = {}


class Shim:
    def __init__(self):
        l = ctypes.CDLL(os.environ["VF_SHIM"])
        l.vf_log.restype = ctypes.c_char_p
        l.vf_add_script.argtypes = [ctypes.c_char_p]
        self.l = l

    def record(self, on):
        self.l.vf_record(1 if on else 0)

    def clear(self):
        self.l.vf_clear()
        self.l.vf_drop_scripts()

    def reset(self):
        self.record(False)
        self.l.vf_reset()

    def script(self, s):
        self.l.vf_add_script(json.dumps(s).encode())

    def log(self):
        return json.loads(self.l.vf_log().decode(errors="replace"))


_shim = None


def shim():
    global _shim
    if _shim is None:
        _shim = Shim()
    return _shim


def op(f):
    OPS[f.__name__[3:]] = f
    return f


N = "null"


def sym(t):
    return parse_term(t) if isinstance(t, str) else t.s if isinstance(t, RawStr) else t


class RawStr:
    """A string given as a string where a symbol is expected."""

    def __init__(self, s):
        self.s = s


def raw(x, symbolic):
    """Arguments of types the JSON of the behaviours cannot express or the operation does not expect (C26)."""
    if isinstance(x, dict) and "raw" in x:
        if x["raw"] == "num":
            return float(x["v"]) if set(x["v"]) & set(".e") else int(x["v"])
        if x["raw"] == "str":
            return RawStr(x["v"]) if symbolic else x["v"]
        return object()
    return [raw(y, symbolic) for y in x] if isinstance(x, list) else x


def syms(ts):
    return [sym(t) for t in ts] if isinstance(ts, list) else ts.s if isinstance(ts, RawStr) else ts


TRUTH = {"t": True, "f": False, "u": None}
EXT = {"t": TruthValue.True_, "f": TruthValue.False_, "u": TruthValue.Free, "r": TruthValue.Release}
HEU = {"level": HeuristicType.Level, "sign": HeuristicType.Sign, "factor": HeuristicType.Factor,
       "init": HeuristicType.Init, "true": HeuristicType.True_, "false": HeuristicType.False_}
SEQ = {"tuple": TheorySequenceType.Tuple, "set": TheorySequenceType.Set, "list": TheorySequenceType.List}
BT = {"reify": BackendType.Reify, "aspif": BackendType.Aspif, "smodels": BackendType.Smodels}
MT = {ModelType.StableModel: "stable", ModelType.BraveConsequences: "brave", ModelType.CautiousConsequences: "cautious"}
CM = {"none": PropagatorCheckMode.Off, "total": PropagatorCheckMode.Total, "fixpoint": PropagatorCheckMode.Fixpoint, "both": PropagatorCheckMode.Both}
UM = {"default": PropagatorUndoMode.Default, "always": PropagatorUndoMode.Always}
WCT = {"equivalence": 0, "right": 1, "left": -1}


def kw(**a):
    return {k: v for k, v in a.items() if not (isinstance(v, str) and v == N)}


def wl(ws):
    return [tuple(x) if isinstance(x, list) else x for x in ws] if isinstance(ws, list) else ws


def ref(x):
    return sym(x) if isinstance(x, str) else x


def res(r):
    n = lambda v: "null" if v is None else v
    return {"sat": n(r.satisfiable), "unsat": n(r.unsatisfiable), "unknown": r.unknown, "exh": r.exhausted, "int": r.interrupted}


def inv(d, v):
    return [k for k, x in d.items() if x == v][0]


BACKEND = {
    "add_rule": lambda b, a: b.add_rule(a[1], **kw(body=a[2], choice=a[0])),
    "add_weight_rule": lambda b, a: b.add_weight_rule(a[1], a[2], wl(a[3]), **kw(choice=a[0])),
    "add_minimize": lambda b, a: b.add_minimize(a[0], wl(a[1])),
    "add_external": lambda b, a: b.add_external(a[0], **({} if a[1] == N else {"value": EXT[a[1]]})),
    "add_atom": lambda b, a: b.add_atom() if a[0] == N else b.add_atom(sym(a[0])),
    "add_project": lambda b, a: b.add_project(a[0]),
    "add_assume": lambda b, a: b.add_assume(a[0]),
    "add_heuristic": lambda b, a: b.add_heuristic(a[0], HEU[a[1]], a[2], a[3], a[4]),
    "add_acyc_edge": lambda b, a: b.add_acyc_edge(*a),
    "add_theory_term_number": lambda b, a: b.add_theory_term_number(*a),
    "add_theory_term_string": lambda b, a: b.add_theory_term_string(*a),
    "add_theory_term_sequence": lambda b, a: b.add_theory_term_sequence(SEQ[a[0]], a[1]),
    "add_theory_term_function": lambda b, a: b.add_theory_term_function(*a),
    "add_theory_term_symbol": lambda b, a: b.add_theory_term_symbol(sym(a[0])),
    "add_theory_element": lambda b, a: b.add_theory_element(*a),
    "add_theory_atom": lambda b, a: b.add_theory_atom(a[0], a[1], **kw(atom_id_or_zero=a[2])),
    "add_theory_atom_with_guard": lambda b, a: b.add_theory_atom_with_guard(a[0], a[1], a[2], a[3], **kw(atom_id_or_zero=a[4])),
}


class Obs(Observer):
    pass


class Context:
    def f(self):
        return []


def solve(c, a, **k):
    if a[0] != N:
        k["assumptions"] = a[0]
    return c.solve(**k)


def solve_yield(c, a, **k):
    with solve(c, a, yield_=True, **k) as h:
        for _ in h:
            pass
        return res(h.get())


def solve_async(c, a):
    with solve(c, a, async_=True) as h:
        h.wait()
        return res(h.get())


def setter(name):
    return lambda c, a: setattr(c, name, a[0])


def getter(name):
    return lambda c, a: getattr(c, name)


def ground(c, a):
    parts = [(p[0], syms(p[1])) for p in a[0]]
    return c.ground(parts, Context()) if a[1] else c.ground(parts)


CONTROL = {
    "add": lambda c, a: c.add(a[0], a[1], a[2]),
    "add1": lambda c, a: c.add(a[0]),
    "load": lambda c, a: c.load(a[0]),
    "load_aspif": lambda c, a: c.load_aspif(a[0]),
    "ground": ground,
    "ground_default": lambda c, a: c.ground(),
    "cleanup": lambda c, a: c.cleanup(),
    "assign_external": lambda c, a: c.assign_external(ref(a[0]), TRUTH[a[1]]),
    "release_external": lambda c, a: c.release_external(ref(a[0])),
    "remove_minimize": lambda c, a: c.remove_minimize(),
    "add_project": lambda c, a: c.add_project([ref(x) for x in a[0]]),
    "replace_project": lambda c, a: c.replace_project([ref(x) for x in a[0]]),
    "remove_project": lambda c, a: c.remove_project(),
    "is_conflicting": getter("is_conflicting"),
    "get_enumeration_assumption": getter("enable_enumeration_assumption"),
    "get_cleanup": getter("enable_cleanup"),
    "set_enumeration_assumption": setter("enable_enumeration_assumption"),
    "set_cleanup": setter("enable_cleanup"),
    "interrupt": lambda c, a: c.interrupt(),
    "get_const": lambda c, a: str(c.get_const(a[0])),
    "register_observer": lambda c, a: c.register_observer(Obs(), **kw(replace=a[0])),
    "register_backend": lambda c, a: c.register_backend(BT[a[0]], a[1], **kw(replace=a[2], reify_sccs=a[3], reify_steps=a[4])),
    "solve": lambda c, a: res(solve(c, a)),
    "solve_cb": lambda c, a: res(solve(c, a, on_model=lambda m: None)),
    "solve_yield": solve_yield,
    "solve_async": solve_async,
    "solve_async_yield": lambda c, a: solve_yield(c, a, async_=True),
}


def symbols(m, a):
    return [str(s) for s in m.symbols(atoms=a[0], terms=a[1], shown=a[2], theory=a[3], complement=a[4])]


MODEL = {
    "number": getter("number"), "thread_id": getter("thread_id"), "optimality_proven": getter("optimality_proven"),
    "type": lambda m, a: MT[m.type],
    "contains": lambda m, a: m.contains(sym(a[0])),
    "is_true": lambda m, a: m.is_true(a[0]),
    "is_consequence": lambda m, a: m.is_consequence(a[0]),
    "extend": lambda m, a: m.extend(syms(a[0])),
    "cost": getter("cost"), "priority": getter("priority"),
    "symbols": symbols,
}
MCTL = {
    "add_clause": lambda c, a: c.add_clause(a[0]),
    "add_nogood": lambda c, a: c.add_nogood(a[0]),
}
HANDLE = {
    "get": lambda h, a: res(h.get()),
    "resume": lambda h, a: h.resume(),
    "cancel": lambda h, a: h.cancel(),
    "core": lambda h, a: h.core(),
    "wait": lambda h, a: h.wait() if a[0] == N else h.wait(a[0]),
    "model": lambda h, a: h.model(),
    "last": lambda h, a: h.last(),
    "last_number": lambda h, a: h.last().number,
    "model_number": lambda h, a: h.model().number,
}


def weight(i, a):
    k = {}
    if a[3] != N:
        k["type_"] = WCT[a[3]]
    if a[4] != N:
        k["compare_equal"] = a[4]
    return i.add_weight_constraint(a[0], wl(a[1]), a[2], **k)


def set_check_mode(i, a):
    i.check_mode = CM[a[0]]


def set_undo_mode(i, a):
    i.undo_mode = UM[a[0]]


INIT = {
    "solver_literal": lambda i, a: i.solver_literal(a[0]),
    "add_watch": lambda i, a: i.add_watch(a[0], **kw(thread_id=a[1])),
    "remove_watch": lambda i, a: i.remove_watch(a[0], **kw(thread_id=a[1])),
    "freeze_literal": lambda i, a: i.freeze_literal(a[0]),
    "number_of_threads": getter("number_of_threads"),
    "set_check_mode": set_check_mode, "get_check_mode": lambda i, a: inv(CM, i.check_mode),
    "set_undo_mode": set_undo_mode, "get_undo_mode": lambda i, a: inv(UM, i.undo_mode),
    "add_literal": lambda i, a: i.add_literal(**kw(freeze=a[0])),
    "add_clause": lambda i, a: i.add_clause(a[0]),
    "add_weight_constraint": weight,
    "add_minimize": lambda i, a: i.add_minimize(a[0], a[1], **kw(priority=a[2])),
    "propagate": lambda i, a: i.propagate(),
}
PCTL = {
    "thread_id": getter("thread_id"),
    "add_literal": lambda c, a: c.add_literal(),
    "add_watch": lambda c, a: c.add_watch(a[0]),
    "has_watch": lambda c, a: c.has_watch(a[0]),
    "remove_watch": lambda c, a: c.remove_watch(a[0]),
    "add_clause": lambda c, a: c.add_clause(a[0], **kw(tag=a[1], lock=a[2])),
    "add_nogood": lambda c, a: c.add_nogood(a[0], **kw(tag=a[1], lock=a[2])),
    "propagate": lambda c, a: c.propagate(),
}
TVI = {True: "t", False: "f", None: "u"}
ASS = {
    "level": lambda s, a: s.level(a[0]), "decision": lambda s, a: s.decision(a[0]), "is_fixed": lambda s, a: s.is_fixed(a[0]),
    "is_true": lambda s, a: s.is_true(a[0]), "is_false": lambda s, a: s.is_false(a[0]), "is_free": lambda s, a: s.is_free(a[0]),
    "value": lambda s, a: TVI[s.value(a[0])], "has_literal": lambda s, a: s.has_literal(a[0]),
    "has_conflict": getter("has_conflict"), "decision_level": getter("decision_level"), "root_level": getter("root_level"),
    "is_total": getter("is_total"), "size": lambda s, a: len(s), "trail_size": lambda s, a: len(s.trail),
    "trail_begin": lambda s, a: s.trail.begin(a[0]), "trail_end": lambda s, a: s.trail.end(a[0]),
    "at": lambda s, a: s[a[0]], "trail_at": lambda s, a: s.trail[a[0]], "iter": lambda s, a: list(s), "trail_iter": lambda s, a: list(s.trail),
}


def make_returned(c, v):
    c.add("base", [], "p(@f()).")

    class Ctx:
        def f(self):
            return v
    c.ground([("base", [])], Ctx())
    return str(next(iter(c.symbolic_atoms)).symbol)


def make_decided(c, v):
    class P:
        def decide(self, tid, ass, fallback):
            return v
    c.add("base", [], "{a;b}.")
    c.ground([("base", [])])
    c.register_propagator(P())
    c.solve()


def make_signature(c, name, arity):
    c.add("base", [], "a(1..3). a.")
    c.ground([("base", [])])
    return len(list(c.symbolic_atoms.by_signature(name, arity)))


MAKE = {
    "decided": lambda _, a: make_decided(Control(["0"]), a[0]), "signature": lambda _, a: make_signature(Control(["0"]), *a),
    "number": lambda _, a: str(clingo.Number(a[0])), "string": lambda _, a: str(clingo.String(a[0])),
    "function": lambda _, a: str(clingo.Function(a[0], syms(a[1]), a[2])), "tuple": lambda _, a: str(clingo.Tuple_(syms(a[0]))),
    "control": lambda _, a: Control(a[0]) and None, "limit": lambda _, a: Control([], message_limit=a[0]) and None,
    "parse_term": lambda _, a: str(parse_term(a[0])),
    "returned": lambda _, a: make_returned(Control(["0"]), sym(a[0])), "returned_list": lambda _, a: make_returned(Control(["0"]), syms(a[0])),
}
SYMBOLIC = {"add_atom", "add_theory_term_symbol", "contains", "extend", "ground", "tuple", "function", "returned", "returned_list"}


def run_items(table, obj, items, names):
    out = []
    for it in items:
        sh = shim()
        sh.clear()
        it["a"] = raw(it["a"], it["m"] in SYMBOLIC)
        for s in it["script"]:
            sh.script(s)
        sh.record(True)
        try:
            r = table[it["m"]](obj, it["a"])
            if r is None:
                r = "null"
        except MemoryError as e:
            r = {"exc": "MemoryError", "msg": str(e)}
        except RuntimeError as e:
            r = {"exc": "RuntimeError", "msg": str(e)}
        except Exception as e:  # pylint: disable=broad-except
            r = {"exc": type(e).__name__, "msg": str(e)}
        finally:
            sh.record(False)
        calls = [{"f": c["f"], "a": c["a"]} for c in sh.log() if c["f"] in it["watch"]]
        for c in calls:
            for k, v in c["a"].items():
                if v is None:
                    c["a"][k] = "null"
            if c["f"] in ("control_assign_external", "control_release_external") and isinstance(it["a"][0], str):
                c["a"]["literal"] = {"atom": names.get(c["a"]["literal"], c["a"]["literal"])}
            if c["f"] == "control_update_project" and it["a"] and it["a"][0] and isinstance(it["a"][0], list) and isinstance(it["a"][0][0], str):
                c["a"]["atoms"] = {"atoms": [names.get(x, x) for x in c["a"]["atoms"]]}
        sh.clear()
        out.append({"calls": calls, "res": r})
    return out


class Prop:
    def __init__(self, where, go):
        self.where, self.go = where, go

    def init(self, init):
        if self.where == "init":
            self.go(init)

    def check(self, ctl):
        if self.where == "pctl":
            self.go(ctl)
        elif self.where == "ass":
            self.go(ctl.assignment)


@op
def op_scene(d, s):
    sh = shim()
    sh.reset()
    sc, items, out = s["scene"], s["items"], []
    ctl = Control(["1"])
    ctl.add("base", [], "{a(1..3)}. b. #external e.")
    ctl.ground([("base", [])])
    names = {x.literal: str(x.symbol) for x in ctl.symbolic_atoms}
    done = []

    def go(table):
        def f(obj):
            if not done:
                done.append(1)
                out.extend(run_items(table, obj, items, names))
        return f
    if sc == "backend":
        with ctl.backend() as b:
            go(BACKEND)(b)
    elif sc == "control":
        go(CONTROL)(ctl)
    elif sc == "make":
        go(MAKE)(None)
    elif sc == "model":
        ctl.solve(on_model=go(MODEL))
    elif sc == "mctl":
        ctl.solve(on_model=lambda m: go(MCTL)(m.context))
    elif sc == "handle":
        with ctl.solve(yield_=True) as h:
            go(HANDLE)(h)
    else:
        ctl.register_propagator(Prop(sc, go({"init": INIT, "pctl": PCTL, "ass": ASS}[sc])))
        ctl.solve()
    ctl = None
    return {"items": out}
