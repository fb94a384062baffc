"""Every engine object is released exactly once and never used afterwards."""

LEVEL = "model_checking"
NOTE = ("Own.tla: slots holding controls, borrowed controls, views, solve handles, backends, program builders and syntax tree nodes; every creation, copy, move, "
        "swap, assignment, use, close, drop and failing operation; the engine objects alive or open after each step have to be exactly those reachable from the "
        "slots and nothing may be released twice or used after its release, as recorded by the interposer between bindings and engine. All short histories and "
        "random long ones, in Python, C++ and Lua.")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.enumerate("Own", constants={"Lang": lang, "Depth": c.pick(4, 5), "Ex": True, "S": 2})
        c.replay(lang, b, engine="shim")
        b = c.generate("Own", c.pick(160, 4000), c.pick(44, 64), procs=c.pick(4, 8),
                       constants={"Lang": lang, "Depth": c.pick(40, 60), "Ex": False, "S": c.pick(5, 6)})
        c.replay(lang, b, engine="shim")
