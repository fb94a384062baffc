"""Terms evaluate to what arithmetic and the order of symbols say."""
from .. import build
LEVEL = "model_checking"
NOTE = ("TermEval.tla evaluates ground terms by integer arithmetic in the range of 32 bits (division and modulo round towards zero, powers, bit operations, absolute values; classical negation of symbols; everything "
        "else is undefined; a term with a part out of range is left unspecified but must not crash), compares values by the order of symbols, enumerates intervals and solves linear equations. Random terms up to depth "
        "three over extreme and ordinary numbers, with leaves written in place or supplied by variables, with and without redundant parentheses (precedences), as head arguments, in comparisons of all kinds, as "
        "constants, as interval bounds and as patterns to match, are grounded by the grounder of /repo (facts and the report of undefined operations are compared), and parsed by its parser for ground terms.")


def run(c):
    build.gringo_driver()
    b = c.generate("TermEval", c.pick(600, 12000), 14, procs=c.pick(4, 8), constants={"Lang": "gringo", "Depth": 12})
    c.replay("gringo", [[s] for x in b for s in x])
