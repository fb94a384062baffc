"""Backend statements reach observers and the solver unaltered and in order."""
from .. import post

LEVEL = "model_checking"
NOTE = ("TLC generates random histories of registering observers (with every subset of handlers of a family, replacing or not), backend blocks with every "
        "kind of statement and theory term, text blocks and solving; what each observer was told in each step is compared with the specification, "
        "statements exactly and in order. Python and C++ cover all statements, Lua those its backend offers. Sampled, not exhaustive. "
        "Sequence terms stated through the backend are limited to sets and lists (the 5.6 engine gives tuples an ambiguous number).")


def run(c):
    b = c.generate("Backend", c.pick(150, 4000), 60, procs=c.pick(7, 8), invariants=["Sane"], constants={"Depth": 16, "Lang": "full"})
    l = c.generate("Backend", c.pick(70, 2000), 60, procs=c.pick(4, 8), invariants=["Sane"], constants={"Depth": 16, "Lang": "lua"})
    c.replay("py", b, post=post.backend)
    c.replay("cc", b, post=post.backend)
    c.replay("lua", l, post=post.backend)
