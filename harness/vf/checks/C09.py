"""Symbols form one totally ordered, hash-consistent, printable value domain."""
LEVEL = "model_checking"
NOTE = ("The order is checked by TLC to be a strict total order on all symbols up to a small depth; that sorted universe (all pairs) and random "
        "nested symbols are rebuilt, compared, hashed, printed and parsed back in Python, C++ and Lua. Texts beyond the listed names and "
        "strings, and deeper nesting, are sampled only.")


def run(c):
    e = c.enumerate("SymbolsEx", constants={"U": c.pick(1, 2)}, invariants=["Total", "Irref"])
    b = c.generate("SymbolsRnd", c.pick(150, 4000), 6)
    s = c.enumerate("Signatures")
    for lang in ("py", "cc", "lua"):
        c.replay(lang, e)
        c.replay(lang, b)
    c.replay("cc", s)
