"""Theory data read back is the theory data stated."""
LEVEL = "model_checking"
NOTE = ("Theory.tla: random programs with theory atoms (head, body, any, directive; elements with conditions, facts and underivable atoms in them; guards; "
        "nested terms) and atoms stated through the backend, over two steps; the expected read-back and the expected models with the truth of every theory atom "
        "are computed by the specification; replayed in Python, C++ and Lua. Sequences stated through the backend are excluded (the installed engine numbers "
        "them differently from this tree's header). Condition literals are also checked against the conditions inside a propagator.")


def run(c):
    b = c.generate("Theory", c.pick(150, 4000), 10, procs=c.pick(6, 8), constants={"Steps": 2, "Backend": True})
    c.replay("py", b)
    c.replay("cc", b)
    b = c.generate("Theory", c.pick(100, 3000), 10, procs=c.pick(6, 8), constants={"Steps": 2, "Backend": False}, seed=c.seed + 1)
    c.replay("lua", b)
