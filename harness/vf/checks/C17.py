"""User statistics are stored, merged and reported as written."""
LEVEL = "model_checking"
NOTE = ("Stat.tla is a pair of trees with merge semantics (numbers and functions of the old number, arrays updated in place and grown, maps merged, misfits rejected) that live as long "
        "as the control. Random histories of writes at any path (assignment, update, append, extend, in-place addition, with itself, copies of other parts), live reads on two routes, "
        "rejected accesses, several searches in three modes, and reads before, between and after searches are replayed in Python and C++ and the complete trees compared; "
        "Lua has no writes and is checked on the engine's own figures (search number, models, optima, costs).")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Stat", c.pick(300, 8000), 65, procs=c.pick(3, 8), constants={"Lang": lang, "Depth": 60})
        c.replay(lang, b)
