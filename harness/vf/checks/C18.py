"""Applications get their options, files, hooks and exit status in order."""
from vf import post

LEVEL = "model_checking"
NOTE = ("App.tla is an automaton over the phases of an application run: register, syntax, assignment option by option, help/version, validation, main, exit. Applications are records "
        "(which members exist, as attributes, properties or set in the constructor, and how each behaves: accept, refuse, raise; printer called never, once, twice or raising; main solving once, "
        "twice, not at all, raising before or after), command lines are sequences of tokens over five options and flags (long, abbreviated and short spellings, separate and attached values, values "
        "that look like options, empty values, repetitions), files, model numbers, quiet, help, version and errors. TLC generates runs with the expected calls in order, models printed, program "
        "name, version, messages up to the limit, help text and exit status; every run is replayed in a child process in a scratch directory with the real command line parser, in Python and C++ "
        "(Lua has no applications). TLC also checks on the automaton that calls only come in phase order and that nothing but parsers, messages, models and results happens twice.")


def run(c):
    for lang in ("py", "cc"):
        b = c.generate("App", c.pick(150, 4000), 120, procs=c.pick(3, 8), constants={"Lang": lang, "Runs": 6}, invariants=["Ordered", "Once"])
        c.replay(lang, b, post=post.app)
