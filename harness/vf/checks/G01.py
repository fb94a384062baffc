"""Interval sets are sets of points."""
LEVEL = "model_checking"
NOTE = ("IvSet.tla: sets of points (bounds and what is between them), described by their maximal intervals. Exhaustive: every set over three (thorough: four) bounds, with every interval added or removed, "
        "and every pair of sets intersected and subtracted, followed by all membership and intersection questions. Random histories over six bounds with two sets that are copied, moved, cleared, "
        "listed and combined. Replayed into the header of /repo.")


def run(c):
    b = c.enumerate("IvSet", constants={"Lang": "g", "Depth": 3, "B": c.pick(3, 4), "Ex": True}, invariants=["Round"])
    c.replay("g", b)
    b = c.generate("IvSet", c.pick(1500, 40000), 25, procs=c.pick(3, 8), constants={"Lang": "g", "Depth": 16, "B": 6, "Ex": False})
    c.replay("g", b)
