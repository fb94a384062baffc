"""C23: external theories behind the Python adapter."""
LEVEL = "model_checking"
NOTE = ("Ext.tla is the state of up to two theories of two libraries beside two controls. A CFFI library with the documented interface writes down every call; random "
        "operation sequences (create, configure, register, prepare, rewriting with raising callbacks, options inside an application run, searches that pass models and "
        "statistics on, symbol and value tables per thread of all three value types, scripted failures, destruction) are drawn by TLC and executed; the calls with their "
        "arguments, returned values, raised errors and destruction are compared.")
ASSUMPTIONS = ["the theory library is engine/ext/theory.inc, written to the interface documented in theory.py"]


def run(c):
    b = c.generate("Ext", c.pick(400, 8000), 120, procs=8, constants={"Lang": "py", "Depth": 35}, invariants=["Sane"])
    c.replay("py", b)
    b = c.generate("Ext", c.pick(150, 3000), 60, procs=4, seed=c.seed + 1, constants={"Lang": "py", "Depth": 10}, invariants=["Sane"])
    c.replay("py", b)
