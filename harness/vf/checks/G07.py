"""Syntax trees of the repository's own library mean the programs they were built from."""
from .. import build
LEVEL = "model_checking"
NOTE = ("The library behind the syntax-tree functions (building, printing, parsing, copying, unpooling) is compiled from /repo's working tree next to its grounder. AstParse.tla generates trees of all statements "
        "with their texts: parsing yields exactly these trees with locations, printing the text, copies are equal and parsing what has been printed gives the same tree. Ground.tla generates programs, histories of "
        "grounding and their stable models, Safety.tla statements and their unbound variables; the programs reach the grounder by way of trees (added as they are, printed and parsed again, deeply copied, unpooled), "
        "which must change nothing about models, costs, shown symbols and unsafe variables.")


def run(c):
    build.gringo_driver()
    b = c.generate("AstParse", c.pick(200, 8000), 60, procs=c.pick(4, 8), constants={"Lang": "gringo"})
    c.replay("gringo", [[s] for x in b for s in x if s["op"] == "ast_parse"])
    b = c.generate("Ground", c.pick(400, 12000), 8, procs=c.pick(4, 8), constants={"Lang": "tree", "Depth": 6})
    c.replay("gringo", b)
    b = c.generate("Safety", c.pick(150, 4000), 14, procs=c.pick(4, 8), constants={"Lang": "tree", "Depth": 12})
    c.replay("gringo", [[s] for x in b for s in x])
