"""Interrupting searches (C25)."""
import os
import threading
from clingo import Control, Function, PropagatorCheckMode

PIGEONS = ("{hard}. 1{p(X,Y):Y=1..12}1 :- X=1..13, hard. :- p(X,Y),p(X2,Y),X<X2.\n"
           "#program g(s). #external g(@intr(s)).")


def alarm():
    t = threading.Timer(20, lambda: os._exit(77))
    t.daemon = True
    t.start()
    return t


def fl(r):
    s = "S" if r.satisfiable else "U" if r.unsatisfiable else "?"
    assert str(r) == {"S": "SAT", "U": "UNSAT", "?": "UNKNOWN"}[s] and isinstance(repr(r), str)
    return s + ("e" if r.exhausted else "") + ("i" if r.interrupted else "")


class Pr:
    def __init__(self):
        self.pt = None

    def begin(self, pt, k, f, hard=False):
        self.pt, self.k, self.f, self.n, self.hard = pt, k, f, {}, hard

    def at(self, ev):
        self.n[ev] = self.n.get(ev, 0) + 1
        if self.pt == ev and self.n[ev] == self.k:
            self.f()

    def init(self, init):
        init.check_mode = PropagatorCheckMode.Total
        for a in init.symbolic_atoms:
            l = init.solver_literal(a.literal)
            init.add_watch(l)
            init.add_watch(-l)
        self.at("init")

    def propagate(self, control, changes):
        self.at("prop")

    def check(self, control):
        self.at("check")

    def undo(self, thread_id, assignment, changes):
        self.at("undo")


class G:
    def __init__(self, f):
        self.f = f

    def intr(self, x):
        self.f()
        return x


def op_in_new(self, s):
    self.ctl = Control(["0"] + (["-t%d" % s["t"]] if s["t"] > 1 else []), message_limit=0)
    self.ctl.add("base", [], "{a(1..%d)}." % s["n"] + PIGEONS)
    self.ctl.add("g", ["s"], "#external g(@intr(s)).")
    self.ctl.ground([("base", [])])
    self.pr = Pr()
    self.ctl.register_propagator(self.pr)
    self.gi = 0
    return "ok"


def op_in_int(self, s):
    if s["via"] == "main":
        self.ctl.interrupt()
    elif s["via"] == "thread":
        t = threading.Thread(target=self.ctl.interrupt)
        t.start()
        t.join()
    else:
        from clingo import Number
        self.gi += 1
        self.ctl.ground([("g", [Number(self.gi)])], G(self.ctl.interrupt))
    return "ok"


def op_in_solve(self, s):
    guard = alarm()
    ctl, pt, k, how = self.ctl, s["pt"], s["k"], s["how"]
    ctl.configuration.solve.models = s["lim"]
    log, seen, fin, y = [], set(), [], 0
    self.pr.begin(pt, k, ctl.interrupt)

    def on_model(m):
        log.append("M")
        seen.add(str(sorted(m.symbols(atoms=True))))
        if pt == "model" and len(log) == k:
            ctl.interrupt()
        if pt == "stop" and len(log) == k:
            return False
        return None

    def on_statistics(a, b):
        log.append("S")
        if pt == "stat":
            ctl.interrupt()

    def on_finish(r):
        log.append("F")
        fin.append(fl(r))
        if pt == "finish":
            ctl.interrupt()
    kw = dict(assumptions=[(Function("hard"), False)], on_model=on_model, on_statistics=on_statistics, on_finish=on_finish)
    if how == "sync":
        r = ctl.solve(**kw)
    elif how == "a":
        with ctl.solve(async_=True, **kw) as h:
            if pt == "after":
                h.wait()
                ctl.interrupt()
            r = h.get()
    else:
        with ctl.solve(yield_=True, async_=how == "ya", **kw) as h:
            for m in h:
                y += 1
                if pt == "cancel" and y == k:
                    h.cancel()
                    break
                if pt == "iy" and y == k:
                    ctl.interrupt()
            r = h.get()
            if pt == "after":
                ctl.interrupt()
    guard.cancel()
    n = log.count("M")
    return {"m": n, "log": ("M" if n else "") + "".join(log[n:]) if "M" not in log[n:] else "".join(log), "res": fl(r), "y": y,
            "over": fin == [fl(r)] and len(seen) == n}


def op_in_hard(self, s):
    guard = alarm()
    ctl, how, via = self.ctl, s["how"], s["via"]
    log, fin = [], []
    self.pr.begin("prop", 1, ctl.interrupt if via == "prop" else lambda: None)

    def on_finish(r):
        log.append("F")
        fin.append(fl(r))
    kw = dict(assumptions=[(Function("hard"), True)], on_model=lambda m: log.append("M"), on_statistics=lambda a, b: log.append("S"), on_finish=on_finish)
    early, res, ok = False, None, True
    timer = None
    if via == "thread":
        timer = threading.Timer(s["d"] / 1000, ctl.interrupt)
    if how == "sync":
        if timer:
            timer.start()
        res = fl(ctl.solve(**kw))
    else:
        with ctl.solve(async_=True, yield_=how == "ya", **kw) as h:
            early = h.wait(s["d"] / 1000)
            if timer:
                timer.start()
            if via == "main":
                ctl.interrupt()
            if via == "cancel":
                h.cancel()
                ok = h.wait(0)
            if via != "leave":
                ok = h.wait(15) and ok
                res = fl(h.get())
    if via == "leave":
        res = fin[0]
    if timer:
        timer.join()
    guard.cancel()
    return {"log": "".join(log), "res": res, "over": ok and fin == [res], "early": early}
