"""Dependency analysis: components, in dependency order."""
LEVEL = "model_checking"
NOTE = ("Digraph.tla: classes of mutually reachable nodes by transitive closure. Exhaustive: every directed graph over three (thorough: four) nodes with loops, analysed twice. Random histories: "
        "graphs with up to eight nodes and multiple edges that grow between analyses. Replayed into the header of /repo.")


def run(c):
    b = c.enumerate("Digraph", constants={"Lang": "g", "Depth": 3, "N": c.pick(3, 4), "Ex": True}, invariants=["Sound"])
    c.replay("g", b)
    b = c.generate("Digraph", c.pick(1500, 40000), 14, procs=c.pick(3, 8), constants={"Lang": "g", "Depth": 8, "N": 6, "Ex": False})
    c.replay("g", b)
