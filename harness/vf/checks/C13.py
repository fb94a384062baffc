"""Mutable syntax trees: attributes, sequences, aliases, copies and comparisons."""
LEVEL = "model_checking"
NOTE = ("The specification keeps a heap of nodes referred to by handles and sequence views; TLC generates random histories of constructing, reading, "
        "setting, viewing, editing sequences, copying, updating and comparing, and gives the content of every handle and view after every step. "
        "Structural order is computed by the specification from the declared attribute, type and symbol order. Deep copies of the installed engine "
        "share optional children (fixed in the sources of the repository, which are not built here).")

# what a deep copy has to look like, which the installed engine gets wrong
FINDING = [[{"op": "t_init", "name": "deep copy of an optional child"},
            {"op": "t_build", "t": "Aggregate", "args": [[1], [], []]},
            {"op": "t_deep", "h": 3},
            {"op": "t_set", "h": 1, "attr": "name", "kind": "s", "val": "b", "how": "list",
             "exp": {"r": "ok", "d": [["Variable", "b"], ["SymbolicTerm", "7"], ["Aggregate", [["Variable", "b"]], [], []], ["Aggregate", [["Variable", "a"]], [], []]],
                     "l": [1, 1, 1, 1], "v": []}}]]


def run(c):
    for lang in ("py", "cc"):
        b = c.generate("AstEdit", c.pick(600, 20000), 90, procs=8, constants={"Lang": lang, "Depth": 30, "OptShared": True},
                       seed=c.seed + 50 * (lang == "cc"))
        c.replay(lang, b)
        c.replay(lang, FINDING)
