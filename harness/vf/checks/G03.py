"""Grounding preserves the stable models of programs."""
LEVEL = "model_checking"
NOTE = ("Grounding.tla gives non-ground programs their meaning without a grounder: instances of every statement over all values (terms with arithmetic, intervals, pools, tuples, classical negation, external "
        "functions; comparisons, conditional literals, aggregates, projection), and stable models by the definition (reduct and minimality, with facts and possible atoms as bounds of the search). Ground.tla "
        "generates random programs (up to twelve statements, recursion through everything, choices, disjunctions, weak constraints, show, external and edge statements) with an optional part that is "
        "grounded with parameter values in up to three steps; what an earlier step settled stays settled. Every program is parsed, grounded step by step by the grounder of /repo (built from the working tree; "
        "shims stand in for the empty submodules), its ground statements are given to the installed solver and all models, shown symbols and costs are compared. Programs whose possible atoms exceed 40 or "
        "whose undecided atoms exceed 7 are skipped.")


def run(c):
    b = c.generate("Ground", c.pick(700, 20000), 8, procs=c.pick(4, 8), constants={"Lang": "gringo", "Depth": 6})
    c.replay("gringo", b)
