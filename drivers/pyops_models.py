"""Model objects, optimisation, clauses during enumeration (C02, C03, C04)."""
from clingo import parse_term
from clingo.solving import SolveControl

sym = parse_term


def h_run(self, mode, ass, see):
    """Run a solve call in the given way; see(m) is called for each model."""
    ctl = self.ctl
    if mode == "cb":
        return ctl.solve(assumptions=ass, on_model=see) if ass else ctl.solve(on_model=see)
    if mode == "ontrue":
        def om(m):
            see(m)
            return True
        return ctl.solve(ass, om)
    if mode == "yield":
        with ctl.solve(ass, yield_=True) as h:
            for m in h:
                see(m)
            return h.get()
    if mode == "yieldloop":
        with ctl.solve(assumptions=ass, yield_=True) as h:
            while True:
                m = h.model()
                if m is None:
                    break
                see(m)
                h.resume()
            return h.get()
    if mode == "async":
        fin = []
        with ctl.solve(ass, on_model=see, on_finish=fin.append, async_=True) as h:
            while not h.wait(1.0):
                pass
            r = h.get()
        assert len(fin) == 1 and self.result(fin[0]) == self.result(r), "finish"
        return r
    if mode == "ayield":
        with ctl.solve(ass, yield_=True, async_=True) as h:
            while True:
                h.resume()
                h.wait()
                m = h.model()
                if m is None:
                    break
                see(m)
            return h.get()
    if mode == "yieldcb":
        seen = []
        with ctl.solve(ass, on_model=see, yield_=True) as h:
            for m in h:
                seen.append(1)
            return h.get()
    raise RuntimeError(mode)


def h_more(self, m, s, r):
    want = s["want"]
    if "contains" in want:
        r["contains"] = {"bag": [a for a in s["univ"] if m.contains(sym(a))]}
        dom = [(str(a.symbol), a.literal) for a in m.context.symbolic_atoms if a.literal]
        r["istrue"] = {"bag": [a for a, l in dom if m.is_true(l)]}
        r["isfalse"] = all(m.is_true(-l) != m.is_true(l) for a, l in dom)
    if "threadok" in want:
        n = 2 if any(a.startswith("-t") for a in self.args) else 1
        r["threadok"] = 0 <= m.thread_id < n


def h_policy(self, m, s):
    pol = s.get("policy")
    if pol is None:
        return
    con = m.context

    def lit(a, v):
        if s["by"] == "lit":
            at = con.symbolic_atoms[sym(a)]
            if at is not None:
                return at.literal if v else -at.literal
        return (sym(a), v)
    if pol == "block":
        con.add_clause([lit(a, not m.contains(sym(a))) for a in s["over"]])
    elif not self.done:
        self.done = True
        c = [lit(l["a"], l["s"]) for l in s["clause"]]
        if pol == "fixed":
            con.add_clause(c)
        else:
            con.add_nogood(c)


def op_models(self, s):
    models, numbers = [], []
    self.done = False

    def see(m):
        if s["extend"]:
            m.extend([sym(t) for t in s["extend"]])
        r = self.model(m, s["want"])
        self.h_more(m, s, r)
        models.append(r)
        numbers.append(m.number)
        self.h_policy(m, s)
    r = self.result(self.h_run(s["mode"], [], see))
    r["models"] = models
    r["numbers"] = numbers
    return r
