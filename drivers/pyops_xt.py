"""External theories behind the Python adapter (C23)."""
import gc
import json
import os
import sys
import tempfile

from clingo import Control, Number
from clingo.ast import parse_string
from clingo.symbol import Symbol, parse_term
from clingo.application import Application, clingo_main
from clingo.theory import Theory


class Boo(Exception):
    pass


def _lib():
    import _vftheory
    return _vftheory.lib, _vftheory.ffi


def _take():
    lib, ffi = _lib()
    return ffi.string(lib.vf_take()).decode().splitlines()


def run(self, f):
    try:
        r = f()
    except Exception as e:  # pylint: disable=broad-except
        r = {"exc": type(e).__name__, "msg": str(e)}
        if hasattr(e, "got"):
            r["got"] = e.got
        e = None
    ign = self.xt_ignored
    if ign:
        r = {"ignored": list(ign), "ret": r}
        ign.clear()
    return {"ret": r, "log": _take()}


def op_xt_start(self, s):
    lib, ffi = _lib()
    lib.vf_reset()
    self.xt = {}
    self.xt_ignored = []
    sys.unraisablehook = lambda u: self.xt_ignored.append(str(u.exc_value))
    self.xc = {c: Control(["0", "-c", "id=%d" % c], message_limit=0) for c in (1, 2)}
    for c in self.xc.values():
        c.add("base", [], "{a; b}.")
        c.ground([("base", [])])
    return {"ret": "ok", "log": []}


def op_xt_new(self, s):
    def f():
        self.xt[s["i"]] = Theory(s["p"], *_lib())
        return "ok"
    return run(self, f)


def op_xt_del(self, s):
    def f():
        del self.xt[s["i"]]
        gc.collect()
        return "ok"
    return run(self, f)


def op_xt_end(self, s):
    def f():
        self.xt.clear()
        gc.collect()
        return "ok"
    r = run(self, f)
    r["log"] = {"bag": r["log"]}
    return r


def op_xt_fail(self, s):
    lib, ffi = _lib()
    lib.vf_failing(s["fn"].encode(), 3 if s["mem"] else 1)
    return {"ret": "ok", "log": []}


def op_xt_version(self, s):
    _lib()[0].vf_set_version(s["a"], s["b"], s["c"])
    return run(self, lambda: list(self.xt[s["i"]].version()))


def op_xt_configure(self, s):
    return run(self, lambda: self.xt[s["i"]].configure(s["k"], s["v"]) or "ok")


def op_xt_register(self, s):
    return run(self, lambda: self.xt[s["i"]].register(self.xc[s["c"]]) or "ok")


def op_xt_prepare(self, s):
    return run(self, lambda: self.xt[s["i"]].prepare(self.xc[s["c"]]) or "ok")


def op_xt_rewrite(self, s):
    stms = []
    parse_string(s["s"], stms.append)
    got = []

    def add(ast):
        got.append(ast)
        if len(got) == s["raise"]:
            raise Boo("add %d" % len(got))

    def f():
        try:
            self.xt[s["i"]].rewrite_ast(stms[1], add)
        except Boo as e:
            e.got = [str(x) for x in got]
            raise
        del stms[:]
        gc.collect()
        return [str(x) for x in got]
    return run(self, f)


def op_xt_app(self, s):
    thy = self.xt[s["i"]]
    lib = _lib()[0]
    r, w = os.pipe()

    def tell():
        for x in _take():
            os.write(w, (x + "\n").encode())

    class App(Application):
        program_name = "x"

        def register_options(self, options):
            if s["bad"] == 1:
                lib.vf_failing(b"options", 1)
            try:
                thy.register_options(options)
            finally:
                tell()

        def validate_options(self):
            if s["bad"] == 2:
                lib.vf_failing(b"validate", 1)
            try:
                thy.validate_options()
            finally:
                tell()
            return True

        def main(self, control, files):
            os.write(w, b"main\n")

    # a failing application ends its process
    pid = os.fork()
    if pid == 0:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.dup2(null, 1)
        rc = clingo_main(App(), ["--outf=3"] + ([] if s["arg"] == "" else ["--%s-x=%s" % (s["p"], s["arg"])]))
        tell()
        os._exit(1 if rc else 0)
    os.close(w)
    with os.fdopen(r) as f:
        log = f.read().splitlines()
    st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    ran = "main" in log
    return {"ret": "main" if ran and st == 0 else "failed" if not ran and st > 0 else [ran, st], "log": [x for x in log if x != "main"]}


def op_xt_solve(self, s):
    # controls remember their last handlers
    box = [self.xt[s["i"]]]
    ctl = self.xc[s["c"]]
    ctl.configuration.solve.models = 2 ** s["k"]
    ext = []

    def on_model(m):
        box[0].on_model(m)
        ext.append(" ".join(map(str, m.symbols(theory=True))))
    kw = {"on_model": on_model}
    if s["stat"]:
        kw["on_statistics"] = lambda a, b: box[0].on_statistics(a, b)

    def f():
        if s["how"] == "cb":
            ctl.solve(**kw)
        elif s["how"] == "yield":
            with ctl.solve(yield_=True, **kw) as h:
                for m in h:
                    pass
                h.get()
        else:
            with ctl.solve(async_=True, **kw) as h:
                h.get()
        st = []
        if s["stat"]:
            st = [int(ctl.statistics["user_step"][s["p"]]), int(ctl.statistics["user_accu"][s["p"]])]
        return {"models": ext, "stat": st}
    r = run(self, f)
    box.clear()
    if "exc" in r["ret"]:
        ctl.solve()  # ... and their last errors
    return r


def op_xt_sym(self, s):
    _lib()[0].vf_add_symbol(s["s"].encode())
    return {"ret": "ok", "log": []}


def op_xt_put(self, s):
    v = s["v"]
    t = {"n": -1, "i": 0, "d": 1, "s": 2}[v["t"]]
    _lib()[0].vf_put(s["t"], s["j"], t, int(v["v"]) if t == 0 else 0, float(v["v"]) if t == 1 else 0.0, v["v"].encode())
    return {"ret": "ok", "log": []}


def val(x):
    if type(x) is int:
        return {"t": "i", "v": str(x)}
    if type(x) is float:
        return {"t": "d", "v": repr(x)}
    if isinstance(x, Symbol):
        assert x == parse_term(str(x))
        return {"t": "s", "v": str(x)}
    return {"t": "?", "v": repr(x)}


def op_xt_read(self, s):
    thy = self.xt[s["i"]]
    n = s["n"]

    def f():
        look = [thy.lookup_symbol(parse_term(x)) for x in s["syms"]]
        has = [[thy.has_value(t, j + 1) for j in range(n)] for t in range(4)]
        return {"look": [0 if x is None else x if type(x) is int and x > 0 else -1 for x in look],
                "get": [str(thy.get_symbol(j + 1)) for j in range(n)],
                "has": has,
                "val": [[val(thy.get_value(t, j + 1)) if has[t][j] else {"t": "n", "v": ""} for j in range(n)] for t in range(4)],
                "all": [[{"s": str(a), "v": val(b)} for a, b in thy.assignment(t)] for t in range(4)]}
    return run(self, f)
