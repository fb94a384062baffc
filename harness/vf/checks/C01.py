"""Multi-shot solving reports exactly the stable models of the history."""
LEVEL = "model_checking"
NOTE = ("Every history of up to 4 (thorough 7) operations of a fixed family, and random longer histories over random small programs, "
        "are replayed through the Python, C++ and Lua interfaces; expected answer sets come from the specification's own stable-model "
        "semantics (Asp.tla, itself checked against the textbook definition). Solving is done by the installed engine (libclingo 5.6.2), which is trusted.")
OPTS = {"--seed=1", "--seed=7", "-t2", "--configuration=jumpy", "--sat-prepro=2", "--heuristic=Vmtf"}


def run(c):
    c.check("AspCheck", constants={"N": c.pick(2, 3)}, invariants=["Agree", "Simp"])
    e = c.enumerate("MultiShotEx", constants={"Depth": c.pick(4, 7)})
    n = c.pick(240, 6000)
    modes = {"cb", "ontrue", "yield", "yieldloop", "async", "ayield", "yieldcb"}
    b = c.generate("MultiShot", n, 300, procs=c.pick(6, 8), constants={"Depth": c.pick(14, 18), "Modes": modes, "Opts": OPTS})
    for lang in ("py", "cc", "lua"):
        c.replay(lang, e)
        c.replay(lang, b)
