"""Failures surface once, in kind, at the call that caused them."""
from vf import post

LEVEL = "model_checking"
NOTE = ("Api.tla with failing engine functions: at half of the operations the interposer makes the engine function fail with every code and nasty messages, and the "
        "specification fixes the exception's kind and message and that it is raised at that call and never again (three languages). Raise.tla: which callbacks "
        "(grounding function, observer, propagator, model handler, statement callback, script, transformer) every operation reaches; one of them is armed with an "
        "exception of some type, and exactly that exception has to come out of that operation, in every solve mode, and nothing out of the others (real engine).")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Raise", c.pick(150, 4000), 20, procs=c.pick(2, 8), constants={"Lang": lang, "Depth": 10})
        c.replay(lang, b)
        b = c.generate("Api", c.pick(80, 3000), 60, procs=c.pick(4, 8), constants={"Lang": lang, "Faults": 60, "Depth": 3}, seed=c.seed + 1)
        c.replay(lang, b, engine="shim", post=post.api)
