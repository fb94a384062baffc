"""Solve handles follow the start/resume/model/get/cancel/close protocol."""
LEVEL = "model_checking"
NOTE = ("Handle.tla is the state machine of a search: models delivered, result ready, outcome. All operation sequences up to a small length over all modes, small "
        "programs, limits and stops are enumerated by TLC and replayed (Python in quick, three languages in thorough); longer sequences with callbacks, assumptions, "
        "cores, scripted lower bounds, limits changed between searches, and several searches per control are random behaviours in three languages. Every answer, the "
        "complete event sequence, the number of closes, and that handle and callback see the same models are compared. For asynchronous searches that are cut "
        "short the specification gives the set of possible outcomes.")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Handle", c.pick(500, 12000), 20, procs=c.pick(2, 8), constants={"Lang": lang, "Depth": 14, "Ex": False})
        c.replay(lang, b, engine="shim")
    for lang in c.pick(("py",), ("py", "cc", "lua")):
        e = c.enumerate("Handle", constants={"Lang": lang, "Depth": c.pick(4, 5), "Ex": True})
        c.replay(lang, e, engine="shim")
