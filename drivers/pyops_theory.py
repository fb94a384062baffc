"""Theory data (C12)."""
import re
from clingo.theory_atoms import TheoryTermType
from clingo.symbol import parse_term


def tobs(t):
    k = t.type
    r = {"type": k.name, "str": str(t)}
    if k == TheoryTermType.Number:
        r["number"] = t.number
    elif k == TheoryTermType.Symbol:
        r["name"] = t.name
    else:
        if k == TheoryTermType.Function:
            r["name"] = t.name
        r["args"] = [tobs(a) for a in t.arguments]
    return r


def aobs(a, names):
    def nm(l):
        return ("~" if l < 0 else "") + names.get(abs(l), "?%d" % l)
    els = []
    es = []
    for e in a.elements:
        ts = ",".join(str(t) for t in e.terms)
        cs = [("" if l > 0 else "not ") + names.get(abs(l), "?") for l in e.condition]
        s = re.sub(r"#aux\((\d+)\)", lambda m: names.get(int(m.group(1)), "?"), str(e))
        ok = s == ts + (": " if e.condition or not e.terms else "") + ",".join(cs)
        ok = ok or (len(cs) > 1 and s.startswith(ts + ": ") and sorted(s[len(ts) + 2:]) == sorted(",".join(cs)))
        els.append({"terms": [tobs(t) for t in e.terms], "cond": {"bag": [nm(l) for l in e.condition]}, "strok": ok})
        es.append(str(e))
        # a condition without literals is the true one
        if (len(e.condition) == 0) != (e.condition_id == 0) and len(e.condition) < 1:
            raise RuntimeError("condition id")
        if len(e.condition) == 1 and e.condition_id != e.condition[0]:
            raise RuntimeError("condition id")
    g = a.guard
    s = "&" + str(a.term) + "{" + ";".join(es) + "}" + ("" if g is None else g[0] + str(g[1]))
    return {"term": tobs(a.term), "el": {"bag": els}, "guard": [] if g is None else [g[0], tobs(g[1])],
            "dir": a.literal == 0, "strok": s == str(a)}


def related(xs, key):
    """Identity, order and hashes of objects agree with what they denote (None: every object denotes something of its own)."""
    ks = [key(i, x) for i, x in enumerate(xs)]
    for i, x in enumerate(xs):
        for j, y in enumerate(xs):
            e = ks[i] == ks[j]
            if (x == y) != e or (x != y) == e or (e and hash(x) != hash(y)) or [x < y, e, x > y].count(True) != 1:
                return False
            if (x <= y) != (x < y or e) or (x >= y) != (x > y or e):
                return False
    s = sorted(xs)
    return all(x <= y for x, y in zip(s, s[1:])) and len(set(xs)) == len({str(k) for k in ks})


def subterms(t):
    return [t] + [y for x in (t.arguments if t.type not in (TheoryTermType.Number, TheoryTermType.Symbol) else []) for y in subterms(x)]


def identity(ats):
    """Terms are shared, that is, equal if and only if they have the same structure; so are elements, up to their conditions."""
    ts = [t for a in ats for t in subterms(a.term) + ([] if a.guard is None else subterms(a.guard[1]))
          + [t for e in a.elements for x in e.terms for t in subterms(x)]]
    es = [e for a in ats for e in a.elements]
    assert all(isinstance(repr(x), str) for x in ts[:5] + es[:5] + ats[:5])
    # the condition of an element with several literals is named by an atom of its own
    return (related(ats, lambda i, x: i) and related(ts[:24], lambda i, x: str(tobs(x)))
            and related(es[:16], lambda i, x: ([str(tobs(t)) for t in x.terms], x.condition_id)))


def h_tterm(self, b, t):
    k = t["t"]
    if k == "num":
        return b.add_theory_term_number(t["n"])
    if k == "sym":
        return b.add_theory_term_string(t["s"])
    if k == "str":
        return b.add_theory_term_string('"' + t["s"] + '"')
    return b.add_theory_term_function(t["s"], [self.h_tterm(b, x) for x in t["args"]])


class Prop:
    def init(self, init):
        self.atoms = [str(a) for a in init.theory_atoms]
        self.lits = {}
        for a in init.theory_atoms:
            self.lits[str(a)] = init.solver_literal(a.literal) if a.literal else None
        self.conds = []
        for a in init.theory_atoms:
            for e in a.elements:
                self.conds.append((init.solver_literal(e.condition_id) if e.condition_id else 1, [init.solver_literal(l) for l in e.condition]))
        init.check_mode = init.check_mode.Total

    def check(self, ctl):
        a = ctl.assignment
        for c, ls in self.conds:
            if a.is_true(c) != all(a.is_true(l) for l in ls):
                self.bad.append("condition")


def op_theory(self, s):
    ctl = self.ctl
    if s["grammar"]:
        ctl.add("base", [], s["grammar"])
        ctl.ground([("base", [])])
        self.prop = Prop()
        self.prop.bad = []
        ctl.register_propagator(self.prop)
    k = s["k"]
    ctl.add("s" + k, [], s["text"])
    ctl.ground([("s" + k, [])])
    sa = ctl.symbolic_atoms

    def lit(l):
        x = sa[parse_term(l["a"])].literal
        return x if l["s"] else -x
    if s["bk"]:
        with ctl.backend() as b:
            for x in s["bk"]:
                a = b.add_atom() if x["kind"] == "bk" else 0
                name = b.add_theory_term_function("k", [self.h_tterm(b, t) for t in x["args"]])
                els = [b.add_theory_element([self.h_tterm(b, t) for t in e["tup"]], [lit(l) for l in e["cond"]]) for e in x["el"]]
                if x["op"]:
                    b.add_theory_atom_with_guard(name, els, x["op"], self.h_tterm(b, x["rhs"]), a)
                else:
                    b.add_theory_atom(name, els, a)
                if a:
                    b.add_rule([a], [lit(l) for l in x["body"]])
    names = {x.literal: str(x.symbol) for x in sa}
    ats = list(ctl.theory_atoms)
    read = [aobs(a, names) for a in ats]
    strs = [str(a) for a in ats]
    idx = [int(str(a.term.arguments[0])) for a in ats]
    lits = [a.literal for a in ats]
    same = [aobs(a, names) for a in ctl.theory_atoms] == read and len(set(ats)) == len(ats) and sorted(ats)[0] == ats[0] and identity(ats) if ats else True
    self.prop.bad = bad = []
    models = []
    # the truth of everything of earlier steps is irrelevant here
    pre = ("p(%s," % k, "q(%s)" % k, "i(%s," % k)

    def om(m):
        at = [str(x) for x in m.symbols(atoms=True)]
        models.append(({"atoms": {"bag": [x for x in at if x.startswith(pre)]},
                        "holds": {"bag": [i for i, l in zip(idx, lits) if l and m.is_true(l)]}}))
        for st, l in zip(strs, lits):
            sl = self.prop.lits.get(st, 0)
            if sl is not None and l and (sl == 0 or not m.context):
                bad.append("propagator misses " + st)
    ctl.solve([(parse_term(x), v) for x, v in self.__dict__.get("fix", [])] + [l for l in self.__dict__.get("fixl", [])], on_model=om)
    if sorted(self.prop.atoms) != sorted(strs):
        bad.append("propagator reads different atoms")
    # pin down what this step left open
    fix = self.__dict__.setdefault("fix", [])
    for x in sa:
        if str(x.symbol).startswith(pre[:2]):
            fix.append((str(x.symbol), False))
    self.__dict__.setdefault("fixl", []).extend(-l for x, l in zip(ats, lits) if l and strs[lits.index(l)][1] in "ba")
    return {"read": {"bag": read}, "same": same, "models": {"bag": models}, "bad": bad[:3]}
