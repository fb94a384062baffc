"""Symbolic-atom views (C11)."""
from clingo import parse_term
from clingo.solving import Model


def row(a):
    return {"a": str(a.symbol), "fact": a.is_fact, "ext": a.is_external}


def op_satoms(self, st):
    sa = self.ctl.symbolic_atoms
    r = {"all": {"bag": [row(x) for x in sa]}, "len": len(sa), "sigs": {"bag": []}}
    sg = list(sa.signatures)
    if len(set(sg)) != len(sg):
        raise RuntimeError("duplicate signature")
    have = {(x.symbol.name, len(x.symbol.arguments), x.symbol.positive) for x in sa}
    r["sigs"] = {"bag": [list(x) for x in sg if x in have]}
    by = []
    for n, a, p in st["by"]:
        xs = list(sa.by_signature(n, a) if p else sa.by_signature(n, a, False))
        if any(not x.match(n, a, p) or x.match(n, a, not p) or x.match(n, a + 1, p) or x.match(n + "z", a, p) for x in xs):
            raise RuntimeError("match")
        by.append({"s": [n, a, p], "rows": {"bag": [row(x) for x in xs]}})
    r["by"] = by
    find = []
    for t in st["find"]:
        s = parse_term(t)
        at = sa[s]
        if (s in sa) != (at is not None):
            raise RuntimeError("membership")
        find.append({"a": t, "in": s in sa} if at is None else {"a": t, "in": s in sa, "row": row(at)})
    r["find"] = find
    lits = [x.literal for x in sa if not x.is_fact]
    r["litsok"] = len(set(lits)) == len(lits) and 0 not in lits and all(sa[x.symbol].literal == x.literal for x in sa)
    return r


def op_agree(self, st):
    """Every literal of the view is true in exactly the models containing the atom."""
    bad = []

    def om(m: Model):
        atoms = set(m.symbols(atoms=True))
        sa = m.context.symbolic_atoms
        for x in sa:
            if (x.symbol in atoms) != m.is_true(x.literal) or m.contains(x.symbol) != (x.symbol in atoms):
                bad.append(str(x.symbol))
            if x.is_fact and x.symbol not in atoms:
                bad.append("fact " + str(x.symbol))
        if not atoms <= {x.symbol for x in sa}:
            bad.append("missing")
    r = self.ctl.solve(on_model=om)
    return {"sat": r.satisfiable, "bad": bad[:4]}


def op_autoclean(self, st):
    w = self.ctl.enable_cleanup
    self.ctl.enable_cleanup = st["v"]
    return {"was": w, "now": self.ctl.enable_cleanup}
