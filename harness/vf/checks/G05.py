"""Exactly the unbound variables of a statement are reported, and statements without any are accepted."""
from .. import build
LEVEL = "model_checking"
NOTE = ("Safety.tla computes the bound variables of a statement as a least fixed point: positive atoms bind what they can match (linear terms are inverted, functions and tuples matched, other arithmetic is needed), "
        "equations bind either side, intervals and aggregates bind what they are assigned to, linear inequalities bind what they bound from both sides; elements of conditional literals and aggregates have local "
        "variables and see global ones. Random statements of all kinds (rules, choices, conditional disjunctions, head aggregates, show, weak constraints, externals, edges, heuristics, projection; pools) are "
        "given to the grounder of /repo: the variables it reports must be those not bound, and a statement without any must be accepted and grounded. Where inequalities may contradict each other, only the "
        "variables outside of them are settled.")


def run(c):
    build.gringo_driver()
    b = c.generate("Safety", c.pick(400, 8000), 14, procs=c.pick(4, 8), constants={"Lang": "gringo", "Depth": 12})
    c.replay("gringo", [[s] for x in b for s in x])
