"""C25: interrupts and cancellations."""
LEVEL = "model_checking"
NOTE = ("Intr.tla says how a search ends for an interrupt, cancellation or stop at any point: TLC enumerates every point (model, statistics, finish, propagator callback, "
        "caller of a yielding or asynchronous search, another thread, grounding callback, before the search), every occurrence, every mode and model limit on small "
        "programs; random longer sequences mix them with a pigeonhole problem that only an interrupt ends, one or two solver threads and several searches per control. "
        "Replayed in Python, C++ and Lua on the real engine: result, number of models, order and number of callbacks, and that the following searches are complete.")
ASSUMPTIONS = ["real time only enters through the delay before an interrupt from another thread; the outcomes compared do not depend on it"]


def run(c):
    for lang in ("py", "cc", "lua"):
        e = c.enumerate("Intr", constants={"Lang": lang, "Depth": 5, "Ex": True}, invariants=["TypeOK", "Recovers"])
        if c.quick:
            e = [b for i, b in enumerate(e) if i % 3 == c.seed % 3]
        c.replay(lang, e)
        b = c.generate("Intr", c.pick(150, 2500), 40, procs=c.pick(2, 8), constants={"Lang": lang, "Depth": c.pick(10, 14), "Ex": False}, invariants=["TypeOK", "Recovers"])
        c.replay(lang, b)
