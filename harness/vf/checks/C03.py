"""Optimisation and reasoning modes."""
LEVEL = "model_checking"
NOTE = ("Random small programs with show statements, minimize statements, projection and clauses added from models are generated by TLC "
        "together with the answer the specification requires, and replayed through Python, C++ and Lua on the installed engine (trusted); "
        "sampled, not exhaustive.")
OPTS = {"--seed=1", "--seed=7", "-t2", "--configuration=jumpy", "--sat-prepro=2"}


def run(c):
    c.check("AspCheck", constants={"N": c.pick(2, 3)}, invariants=["Agree", "Simp"])
    n = c.pick(300, 8000)
    modes = {"cb", "ontrue", "yield", "yieldloop", "async", "ayield", "yieldcb"}
    b = c.generate("Models", n, 60, procs=c.pick(6, 8), constants={"Focus": "C03", "Modes": modes, "Opts": OPTS})
    for lang in ("py", "cc", "lua"):
        c.replay(lang, b)
