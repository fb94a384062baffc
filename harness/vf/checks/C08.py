"""C08: constraints stated by propagators."""
LEVEL = "model_checking"
NOTE = "spec/Prop.tla: TLC computes the stable models of a growing program under the clauses, weight constraints, minimize terms and fresh literals a propagator states when it is initialised and the lazy clauses and nogoods it adds while searching (volatile or kept, checked at fixpoints or at total assignments, with own decisions, one or two threads); the same histories are run with real propagators in Python, C++ and Lua. Weight constraints are stated where the installed solver treats them as documented."


def run(c):
    n = c.pick(700, 8000)
    for lang in ("py", "cc", "lua"):
        behs = c.generate("Prop", n, 7, procs=4, constants={"Lang": lang, "Solves": 3})
        c.replay(lang, behs)
