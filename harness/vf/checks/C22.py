"""Messages reach the installed logger with their code, up to the limit."""
LEVEL = "model_checking"
NOTE = ("Log.tla: controls with and without loggers, limits 0 to 20 that are used up over the control's lifetime, warning options, parts whose lines produce every kind of message, "
        "texts that are rejected, parsing functions and terms with loggers of their own. Random histories in Python, C++ and Lua; every delivery is recorded with its receiver, "
        "code, line and text, and so is the standard error stream.")


def run(c):
    for lang in ("py", "cc", "lua"):
        b = c.generate("Log", c.pick(900, 20000), 25, procs=c.pick(3, 8), constants={"Lang": lang, "Depth": 14})
        c.replay(lang, b)
