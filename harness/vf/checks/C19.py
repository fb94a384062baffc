"""Functions called from programs get the arguments and return the symbols given."""
LEVEL = "model_checking"
NOTE = ("External.tla: parts with calls of five functions over constants, joined variables, part parameters, pools and nested calls (up to 30 arguments), scripts between the rules "
        "(Python, two registered languages, Lua) that define and redefine functions, contexts given to single ground calls, ten computations with all shapes of return values. "
        "Random histories are replayed in Python, C++ and Lua: script execution order, the exact set of calls with their arguments, and the atoms of the ground program are compared.")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("External", c.pick(250, 8000), 25, procs=c.pick(3, 8), constants={"Lang": lang, "Depth": 16})
        c.replay(lang, b)
