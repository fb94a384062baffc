"""Parsing, printing, constructing and re-adding syntax trees is lossless."""
import json

LEVEL = "model_checking"
NOTE = ("TLC generates random trees of every statement and node type together with the text the specification gives them; parsing (text, file, "
        "with a control) must yield exactly that tree, with statement locations, printing the text, constructing an equal node. Histories of "
        "C01 are replayed with every program added as syntax trees (parsed, rebuilt by constructors, copied, reprinted, unpooled). Comments are "
        "unknown to the installed engine 5.6.2, which also drops signs of comparisons while parsing: excluded.")
FORMS = ["ast", "ast_built", "ast_deep", "ast_text", "ast_update", "ast_unpool"]


def as_trees(behs):
    """The same histories, adding every program text as syntax trees."""
    k = 0
    for b in behs:
        r = []
        for s in b:
            if s["op"] == "add":
                s = dict(s, form=FORMS[k % len(FORMS)])
                k += 1
            r.append(s)
        yield r


def run(c):
    for lang in ("py", "cc"):
        b = c.generate("AstParse", c.pick(300, 12000), 60, procs=8, constants={"Lang": lang}, seed=c.seed + len(lang) * (lang == "cc"))
        c.replay(lang, b)
    m = list(as_trees(c.generate("MultiShot", c.pick(200, 4000), 300, procs=8,
                                 constants={"Depth": 14, "Modes": {"yield", "cb"}, "Opts": {"--seed=1"}})))
    for lang in ("py", "cc"):
        c.replay(lang, m)
