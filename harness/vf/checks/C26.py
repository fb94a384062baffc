"""Values an operation cannot take are rejected, and nothing else is."""

from vf import post

LEVEL = "model_checking"
NOTE = ("Reject.tla (on top of Api.tla): every operation of the Python and Lua bindings that takes numbers, literals, atoms, ids, symbols, strings, pairs or "
        "sequences of them, with a value that the engine's type cannot hold (beyond 32 bits, negative, fractional), of another type, or a sequence with such an "
        "element: an error is raised in the calling language and the engine is not called; the operations before and after it, with values up to the extremes, "
        "are as Api.tla says.  Replayed against the interposer between bindings and engine.")


def run(c):
    for lang in ("py", "lua"):
        b = c.generate("Reject", c.pick(200, 6000), 60, procs=c.pick(4, 8), constants={"Lang": lang, "Faults": 0, "Depth": 4}, next_="NextR")
        c.replay(lang, b, engine="shim", post=post.api)
