"""The configuration tree (C16)."""
from clingo import Control
from clingo.configuration import Configuration

OPS = {}


def guard(f):
    def g(self, s):
        try:
            return f(self, s)
        except (AttributeError, IndexError, RuntimeError) as e:
            return {"error": type(e).__name__}
    return g


def nav(c, path, style):
    for x in path:
        if x.isdigit():
            if style == "iter":
                c = list(c)[int(x)]
            else:
                c = c[int(x)]
        else:
            c = getattr(c, x)
    return c


def get(c, p, style):
    r = nav(c, p, style)
    return "unset" if r is None else r if isinstance(r, str) else "not a value"


def op_c_new(self, s):
    self.c = Control(["-t%d" % s["n"]] if s["n"] > 1 else [], logger=lambda a, b: None)
    self.c.add("base", [], "{a;b}.")
    self.c.ground([("base", [])])
    self.held = self.c.configuration
    self.flip = False


def conf(self):
    self.flip = not self.flip
    return self.held if self.flip else self.c.configuration


@guard
def op_c_set(self, s):
    v = s["val"]
    if v.isdigit() and v == str(int(v)):
        v = int(v)
    elif v in ("0.5", "0.25"):
        v = float(v)
    setattr(nav(conf(self), s["path"][:-1], s["style"]), s["path"][-1], v)
    return "ok"


@guard
def op_c_get(self, s):
    return get(conf(self), s["path"], s["style"])


def op_c_dump(self, s):
    return [get(conf(self), p, s["style"]) for p in s["paths"]]


def op_c_keys(self, s):
    return nav(conf(self), s["path"], "attr").keys


@guard
def op_c_desc(self, s):
    return nav(conf(self), s["path"][:-1], "attr").description(s["path"][-1])


def op_c_size(self, s):
    c = nav(conf(self), s["path"], "attr")
    n = len(c)
    assert len(list(c)) == n and all(isinstance(x, Configuration) for x in c)
    return {"size": n, "array": c.is_array}


@guard
def op_c_at(self, s):
    nav(conf(self), s["path"], "attr")[s["i"]]
    return "ok"


def op_c_solve(self, s):
    ms = []
    self.c.solve(on_model=lambda m: ms.append(m.number))
    return len(ms)
