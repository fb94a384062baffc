"""Recording what propagators see (C07)."""
import threading
from clingo import Control, Function
from clingo.propagator import Propagator
from pyops_prop import MODES


def snap(a, full):
    t = a.trail
    dl = a.decision_level
    s = {"dl": dl, "root": a.root_level, "conf": a.has_conflict, "total": a.is_total, "size": len(a),
         "trail": list(t), "index": [t[i] for i in range(len(t))], "begin": [t.begin(l) for l in range(dl + 1)], "end": [t.end(l) for l in range(dl + 1)],
         "dec": [a.decision(l) for l in range(dl + 1)]}
    lits = list(a)
    s["lits"] = lits
    s["vals"] = [[x, "t" if a.value(x) is True else "f" if a.value(x) is False else "u", a.is_true(x), a.is_false(x), a.is_free(x), a.is_fixed(x),
                  0 if a.value(x) is None else a.level(x), a.has_literal(x)] for x in lits + [-x for x in lits]]
    s["beyond"] = [a.has_literal(len(a) + 1), a.has_literal(-len(a) - 1)]
    s["seg"] = [list(t[t.begin(l):t.end(l)]) for l in range(dl + 1)]
    s["rev"] = list(t[::-1])
    s["alits"] = [a[i] for i in range(len(a))]
    return s


class Rec:
    def __init__(self, name, s, log, lock, limit):
        self.name, self.conf, self.log, self.lock, self.limit, self.k = name, s, log, lock, limit, 0
        self.full = False

    def rec(self, e, a=None, **kw):
        with self.lock:
            if len(self.log) >= self.limit:
                self.full = True
                return
            d = {"ev": e}
            d.update(kw)
            if a is not None:
                d["s"] = snap(a, True)
            self.log.append(d)

    def lit(self, l):
        return self.map[l[0]] if l[1] else -self.map[l[0]]

    def init(self, init):
        s = self.todo
        self.map = {}
        for i in list("a%d" % j for j in range(1, self.conf["n"] + 1)) + ["b1", "b2", "c", "d"]:
            a = init.symbolic_atoms[Function(i)]
            self.map[i] = -1 if a is None else init.solver_literal(a.literal)
        init.check_mode = MODES[self.conf["mode"]]
        n = init.number_of_threads
        watch = [[] for _ in range(n)]
        unwatch = [[] for _ in range(n)]
        w = s["watch"]
        for j, x in enumerate(sorted(set(self.map.values()))):
            for y in (x, -x):
                if w == "all" or (w == "pos" and y == x) or (w == "neg" and y != x) or (w == "some" and (j + (y != x)) % 2 == 0):
                    init.add_watch(y)
                    for t in range(n):
                        watch[t].append(y)
                elif w == "thread":
                    t = (j + (y != x)) % n
                    init.add_watch(y, t)
                    watch[t].append(y)
                    if n == 1 and j % 3 == 0:
                        init.remove_watch(y)
                        watch[0].remove(y)
                        unwatch[0].append(y)
        self.rec("init", init.assignment, watch=watch, unwatch=unwatch, mode=self.conf["mode"], thr=n, upset=any(l["when"] == "check" for l in s["lazy"]), threads=self.conf["threads"])

    def interfere(self, ctl, when):
        a = ctl.assignment
        for i, l in enumerate(self.todo["lazy"]):
            if l["when"] != when:
                continue
            ls = [self.lit(x) for x in l["lits"]]
            if l["k"] == "clause":
                if all(a.is_false(x) for x in ls):
                    if not ctl.add_clause(ls, l["tag"], l["lock"]) or not ctl.propagate():
                        return
            elif all(a.is_true(x) for x in ls):
                if not ctl.add_nogood(ls, l["tag"], l["lock"]) or not ctl.propagate():
                    return

    def propagate(self, ctl, changes):
        t = ctl.thread_id
        ch = list(changes)
        self.rec("propagate", ctl.assignment, tid=t, ch=ch, idx=[changes[i] for i in range(len(changes))], half=list(changes[: len(ch) // 2]))
        if self.todo["dyn"] == 1:
            x = self.map["a1"]
            x = x if self.k % 2 else -x
            if not ctl.has_watch(x):
                ctl.add_watch(x)
                self.rec("watch", tid=t, lit=x, has=ctl.has_watch(x), on=True, val=ctl.assignment.is_true(x))
        self.interfere(ctl, "prop")

    def undo(self, thread_id, assignment, changes):
        self.rec("undo", assignment, tid=thread_id, ch=list(changes))

    def check(self, ctl):
        t = ctl.thread_id
        self.rec("check", ctl.assignment, tid=t)
        self.k += 1
        if self.todo["dyn"] == 2:
            x = self.map["a2"]
            x = x if self.k % 2 else -x
            on = not ctl.has_watch(x)
            (ctl.add_watch if on else ctl.remove_watch)(x)
            self.rec("watch", tid=t, lit=x, has=ctl.has_watch(x), on=on, val=ctl.assignment.is_true(x))
        self.interfere(ctl, "check")


class RecH(Rec):
    def decide(self, thread_id, assignment, fallback):
        r = 0
        p = self.conf["decide"]
        self.k += 1
        if p == 2:
            r = fallback
        elif p == 3:
            for i, x in enumerate(sorted(set(self.map.values()))):
                if assignment.is_free(x) and (i + self.k) % 2 == 0:
                    r = x if self.k % 3 else -x
                    break
        self.rec("decide", assignment, tid=thread_id, fb=fallback, res=r)
        return r


def op_tr_new(self, s):
    args = ["0"] + ([s["conf"]] if s["conf"] else []) + (["-t%d" % s["threads"]] if s["threads"] > 1 else [])
    self.ctl = Control(args, message_limit=0)
    self.ctl.add("base", [], s["text"])
    self.ctl.ground([("base", [])])
    lock = threading.RLock()
    self.recs = [(RecH if s["decide"] else Rec)("x", s, [], lock, s["events"])]
    if s["other"]:
        self.recs.append(Rec("y", s, [], lock, s["events"]))
    for r in self.recs:
        self.ctl.register_propagator(r)


def op_tr_solve(self, s):
    for i, r in enumerate(self.recs):
        r.todo = s if i == 0 else dict(s, lazy=[], dyn=0, watch="all")
    self.ctl.configuration.solve.models = s["models"]
    ass = [(Function(a), v == 1) for a, v in s["assume"]]
    n = 0
    if s["how"] == "yield":
        with self.ctl.solve(ass, yield_=True) as h:
            for m in h:
                n += 1
            h.get()
    else:
        def count(m):
            nonlocal n
            n += 1
        self.ctl.solve(ass, on_model=count)
    return {"n": n}


def op_tr_get(self, s):
    return [{"full": r.full, "ev": r.log} for r in self.recs]


def op_sub_run(self, s):
    c = Control(["0"])
    c.add("base", [], "{a;b}.")
    c.ground([("base", [])])
    called = []
    for p in s["props"]:
        seen = set()

        def method(m, p=p, seen=seen):
            def f(self, *args):
                seen.add(m)
                if m == "init" and p["watch"]:
                    for x in args[0].symbolic_atoms:
                        args[0].add_watch(args[0].solver_literal(x.literal))
                        args[0].add_watch(-args[0].solver_literal(x.literal))
                return 0 if m == "decide" else None
            return f
        c.register_propagator(type("P", (Propagator,) if p["base"] else (), {m: method(m) for m in p["has"]})())
        called.append(seen)
    models = []
    for _ in range(s["runs"]):
        n = []
        c.solve(on_model=lambda m: n.append(1) and None)
        models.append(len(n))
    return {"models": models, "called": [sorted(x) for x in called]}
