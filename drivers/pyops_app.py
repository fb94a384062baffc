"""Applications (C18): every run in a child process inside a scratch directory."""
import ctypes
import json
import os
import shutil
import sys
import tempfile

from clingo import Control, SymbolType
from clingo.application import Application, Flag, clingo_main


class Boo(Exception):
    pass


def make(s, ev):
    flags = {}

    def parser(o):
        def p(v):
            ev(["parse", o["long"], v])
            if v == "boom":
                raise Boo("parser")
            return v != "bad"
        return p

    def flagvals():
        return [[n, f.flag is True, bool(f)] for n, f in sorted(flags.items())]

    d = {}

    def __init__(self):
        if s["inst"]:
            if s["name"]:
                self.program_name = s["name"]
            if s["version"]:
                self.version = s["version"]
            if s["limit"] >= 0:
                self.message_limit = s["limit"]
    d["__init__"] = __init__
    if not s["inst"]:
        if s["name"]:
            d["program_name"] = s["name"]
        if s["version"]:
            d["version"] = property(lambda self: s["version"]) if s["prop"] else s["version"]
        if s["limit"] >= 0:
            d["message_limit"] = s["limit"]

    def register_options(self, options):
        ev(["register"])
        if s["register"] == "raise":
            raise Boo("register")
        for o in s["opts"]:
            if o["kind"] == "flag":
                f = flags[o["long"]] = Flag(o["init"]) if o["init"] else Flag()
                assert bool(f.flag) == bool(o["init"])
                f.flag = not f.flag
                assert bool(f.flag) != bool(o["init"])
                f.flag = bool(o["init"])
                options.add_flag(o["group"], o["names"], o["desc"], f)
            elif o["arg"]:
                options.add(o["group"], o["names"], o["desc"], parser(o), o["multi"], o["arg"])
            elif o["multi"]:
                options.add(o["group"], o["names"], o["desc"], parser(o), multi=True)
            else:
                options.add(o["group"], o["names"], o["desc"], parser(o))
    if s["register"] != "none":
        d["register_options"] = register_options

    def validate_options(self):
        ev(["validate", flagvals()])
        if s["validate"] == "raise":
            raise Boo("validate")
        return s["validate"] == "true"
    if s["validate"] != "none":
        d["validate_options"] = validate_options

    def logger(self, code, msg):
        ev(["log", code.name, msg])
    if s["log"]:
        d["logger"] = logger

    def print_model(self, model, printer):
        ev(["model", model.number, " ".join(sorted(str(x) for x in model.symbols(shown=True))) if s["main"] != "none" else ""])
        print("PM", model.number)
        sys.stdout.flush()
        if s["printer"] == "raise" and model.number == 2:
            raise Boo("printer")
        for _ in range({"call": 1, "skip": 0, "twice": 2, "raise": 1}[s["printer"]]):
            printer()
        if s["printer"] == "call":
            print("PE", model.number)
    if s["printer"] != "none":
        d["print_model"] = print_model

    def main(self, ctl, files):
        ev(["main", list(files), flagvals(), isinstance(ctl, Control)])
        if s["main"] == "raise":
            raise Boo("main")
        for f in files:
            ctl.load(f)
        ctl.add("base", [], s["text"])
        ctl.ground([("base", [])])
        if s["main"] == "nosolve":
            return
        for _ in range(2 if s["main"] == "twice" else 1):
            ev(["result", str(ctl.solve())])
        if s["main"] == "solve_raise":
            raise Boo("main")
    if s["main"] != "none":
        d["main"] = main
    return type("App", (Application,), d)()


def op_ap_run(self, s):
    d = tempfile.mkdtemp(prefix="vf-app-")
    try:
        for n, c in s["files"]:
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(c)
        side = tempfile.mkdtemp(prefix="vf-app-")
        out, err, evf = (os.path.join(side, x) for x in ("out", "err", "ev"))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.chdir(d)
                for fd, p in ((1, out), (2, err)):
                    os.dup2(os.open(p, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600), fd)
                os.dup2(os.open("/dev/null", os.O_RDONLY), 0)
                fev = open(evf, "a", encoding="utf-8")

                def ev(x):
                    fev.write(json.dumps(x) + "\n")
                    fev.flush()
                app = make(s, ev)
                if s["argv"]:
                    sys.argv = ["prog"] + s["cmd"]
                    code = clingo_main(app)
                else:
                    code = clingo_main(app, s["cmd"])
                sys.stdout.flush()
                sys.stderr.flush()
                ctypes.CDLL(None).fflush(None)
            except BaseException:
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
            os._exit(code & 255)
        st = os.waitpid(pid, 0)[1]
        rd = lambda p: open(p, encoding="utf-8", errors="replace").read() if os.path.exists(p) else ""
        r = {"code": os.waitstatus_to_exitcode(st), "ev": [json.loads(x) for x in rd(evf).splitlines()], "out": rd(out), "err": rd(err)}
        shutil.rmtree(side)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

