"""Symbolic-atom views match the ground program."""
LEVEL = "model_checking"
NOTE = ("TLC generates random histories of grounding, external handling, backend atoms, solving and cleanup with the atom base the "
        "specification requires after each step; every view (iteration, by signature, lookup, length, signatures, flags, literals) is compared "
        "in Python, C++ and Lua. Cleanup is specified for atoms decided by propagation in a fixed program family; sampled, not exhaustive.")


def run(c):
    b = c.generate("SymAtoms", c.pick(110, 4000), 60, procs=c.pick(7, 8), invariants=["Sane"],
                   constants={"Depth": 24, "Opts": {"--seed=1", "-t2", "--configuration=jumpy", "--eq=0"}})
    for lang in ("py", "cc", "lua"):
        c.replay(lang, b)
