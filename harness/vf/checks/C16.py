"""The configuration tree reads back what was written, and only that."""
LEVEL = "model_checking"
NOTE = ("Conf.tla holds the option tree of one to three cores as a map from paths to values with normalised readback. Random histories of writes (valid and rejected), "
        "reads on every route (name, index, iteration, aliases of the first element), complete dumps, structure queries, unknown names, and searches whose number of models "
        "must obey the configuration are replayed in Python, C++ and Lua; a dump after the history shows that a write changed its option only.")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Conf", c.pick(300, 6000), 45, procs=c.pick(2, 8), constants={"Lang": lang, "Depth": 40})
        c.replay(lang, b)
