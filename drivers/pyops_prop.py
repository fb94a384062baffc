"""Propagators: stated constraints (C08) and the trail they see (C07)."""
import threading
from clingo import Control, Function, Propagator, PropagatorCheckMode

MODES = {"total": PropagatorCheckMode.Total, "fixpoint": PropagatorCheckMode.Fixpoint, "both": PropagatorCheckMode.Both, "off": PropagatorCheckMode.Off}


class Prop(Propagator):
    def __init__(self, conf):
        self.conf = conf
        self.fresh = {}
        self.k = 0
        self.todo = None
        self.conflict = False

    def lit(self, l):
        x = self.fresh.get(l[0]) or self.map[l[0]]
        return x if l[1] else -x

    def lits(self, ls):
        return [self.lit(l) for l in ls]

    def init(self, init):
        s = self.todo
        # atoms that became false at the top level are dropped from later programs
        atoms = {n: init.symbolic_atoms[Function(n)] for n in s["atoms"]}
        self.map = {n: -1 if a is None else init.solver_literal(a.literal) for n, a in atoms.items()}
        init.check_mode = MODES[self.conf["mode"]]
        assert init.check_mode == MODES[self.conf["mode"]]
        self.conflict = False
        for a in s["acts"]:
            if not self.act(init, a):
                self.conflict = True
                return
        for i, l in enumerate(s["lazy"]):
            if l["when"] == "prop":
                for x in self.lits(l["lits"]):
                    if l["k"] == "clause":
                        x = -x
                    if i % 2 == 0:
                        init.add_watch(x)
                    else:
                        for t in range(init.number_of_threads):
                            init.add_watch(x, t)

    def act(self, init, a):
        k = a["k"]
        if k == "clause":
            return init.add_clause(self.lits(a["lits"]))
        if k == "wc":
            wl = [(self.lit(x[:2]), x[2]) for x in a["wl"]]
            if not a["eq"] and a["type"] == 0:
                return init.add_weight_constraint(self.lit(a["lit"]), wl, a["bound"])
            return init.add_weight_constraint(self.lit(a["lit"]), wl, a["bound"], a["type"], a["eq"])
        if k == "prop":
            return init.propagate()
        if k == "freeze":
            init.freeze_literal(self.lit(a["lit"]))
        elif k == "min":
            if a["p"] == 0:
                init.add_minimize(self.lit(a["lit"]), a["w"])
            else:
                init.add_minimize(self.lit(a["lit"]), a["w"], a["p"])
        else:
            x = init.add_literal(a["freeze"])
            self.fresh[a["name"]] = x
            ls = self.lits(a["lits"])
            return all(init.add_clause([-x, y]) for y in ls) and init.add_clause([x] + [-y for y in ls])
        return True

    def enforce(self, control, when):
        a = control.assignment
        for i, l in enumerate(self.todo["lazy"]):
            ls = self.lits(l["lits"])
            # no notice is given of literals that were true before they are watched
            if l["when"] != when and not (when == "check" and all(a.is_fixed(x) for x in ls)):
                continue
            if l["k"] == "clause":
                if all(a.is_false(x) for x in ls):
                    if not control.add_clause(ls, tag=l["tag"], lock=l["lock"]) or (i % 2 == 0 and not control.propagate()):
                        return
            elif all(a.is_true(x) for x in ls):
                if not control.add_nogood(ls, l["tag"], l["lock"]) or (i % 2 == 0 and not control.propagate()):
                    return

    def propagate(self, control, changes):
        self.enforce(control, "prop")

    def check(self, control):
        self.enforce(control, "check")

    def decide(self, thread_id, assignment, fallback):
        if self.conf["decide"]:
            self.k += 1
            for i, x in enumerate(sorted(self.map.values())):
                if assignment.is_free(x) and (i + self.k) % 3 == 0:
                    return x if self.k % 2 else -x
        return fallback if self.k % 2 == 0 else 0


class Passive(Propagator):
    def init(self, init):
        for x in init.symbolic_atoms:
            init.add_watch(init.solver_literal(x.literal))


def op_p_new(self, s):
    args = ["0"] + (["--opt-mode=optN"] if s["opt"] == "optN" else [])
    if s["threads"] > 1:
        args.append("-t%d" % s["threads"])
    self.ctl = Control(args)
    self.prop = Prop(s)
    if s["other"]:
        self.ctl.register_propagator(Passive())
    self.ctl.register_propagator(self.prop)
    self.optn = s["opt"] == "optN"


def op_p_solve(self, s):
    if s["text"]:
        part = "s%d" % s["n"]
        self.ctl.add(part, [], s["text"])
        self.ctl.ground([(part, [])])
    self.prop.todo = s
    models, cost = [], []
    with self.ctl.solve(yield_=True) as h:
        for m in h:
            if not self.optn or m.optimality_proven:
                models.append(sorted(str(x) for x in m.symbols(atoms=True)))
                cost = list(m.cost)
        r = h.get()
    return {"models": models, "cost": [c for c in cost if c] if self.optn else [], "sat": r.satisfiable, "ok": not (self.prop.conflict and r.satisfiable)}
