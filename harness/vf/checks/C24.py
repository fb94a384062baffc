"""Requests reach the engine, and its answers the user, unchanged."""
from vf import post

LEVEL = "model_checking"
NOTE = ("Api.tla: for every operation of the bindings the engine function it has to call, the arguments that function has to get and what the user has to get for "
        "every answer; random operations, arguments and answers at the places where the operations are available; replayed in Python, C++ and Lua against an "
        "interposer that stands between bindings and engine, records the calls and gives the answers (so functions the installed engine lacks are covered too).")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Api", c.pick(120, 4000), 60, procs=c.pick(4, 8), constants={"Lang": lang, "Faults": 0, "Depth": 4})
        c.replay(lang, b, engine="shim", post=post.api)
