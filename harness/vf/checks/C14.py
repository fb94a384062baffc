"""Transforming a tree changes exactly what the transformer changed."""
LEVEL = "model_checking"
NOTE = ("Random trees of every node class and random handlers (keep, replace, copy, rename, descend with changed arguments) on random node types. "
        "The specification gives the resulting tree, which of its nodes are nodes of the original (observed by renumbering the original's locations "
        "afterwards), copies or new, the calls of the handlers in order with their arguments, and the nodes visited when descending stops at given types.")


def run(c):
    for lang in ("py", "cc"):
        b = c.generate("AstTrans", c.pick(400, 16000), 60, procs=8, constants={"Lang": lang}, seed=c.seed + 50 * (lang == "cc"))
        c.replay(lang, b)
