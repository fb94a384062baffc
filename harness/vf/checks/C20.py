"""Sequence views index, slice and iterate like the list they stand for."""
LEVEL = "model_checking"
NOTE = ("All slices (bounds in a small range or absent, several steps) of all sequences up to a small length are enumerated by TLC with what every "
        "way of reading them yields, and replayed on model symbols, assignments, trails, syntax-tree child and string sequences in Python; slices of "
        "slices and mutation directly and through live views are random behaviours. Longer sequences are sampled only.")


def run(c):
    e = c.enumerate("SlicesEx", constants={"N": c.pick(3, 5), "Bound": c.pick(4, 6), "MaxStep": 3}, invariants=["Sane"])
    r = c.generate("SlicesRnd", c.pick(60, 2000), 12, procs=2, constants={"Kind": "read", "Depth": 8})
    a = c.generate("SlicesRnd", c.pick(250, 8000), 60, procs=3, constants={"Kind": "ast", "Depth": 25})
    s = c.generate("SlicesRnd", c.pick(250, 8000), 60, procs=3, constants={"Kind": "str", "Depth": 25})
    for b in (e, r, a, s):
        c.replay("py", b)
