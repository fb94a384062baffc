"""Reification: the facts describe the statements."""
from .. import build
LEVEL = "model_checking"
NOTE = ("Reify.tla says which facts describe a program given as a sequence of steps of statements (rules of both kinds of heads and bodies, minimize, project, output, external, assume, heuristic, edge, theory terms, "
        "elements and atoms): tuples of atoms, literals, weighted literals, theory terms and elements are compared as sets (their numbers may be chosen freely but must be shared consistently), strongly connected "
        "components are computed from the definition, and steps are numbered when asked for. Random programs of up to four statements per step and several steps are given to the reifier of /repo directly, through "
        "the factory of the grounder's backends, and through the grounder's output.")


def run(c):
    build.gringo_driver()
    b = c.generate("Reify", c.pick(2500, 60000), 8, procs=c.pick(4, 8), constants={"Lang": "g", "Depth": 4})
    c.replay("gringo", b)
