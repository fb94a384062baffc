"""Messages (C22)."""
import os
import sys
import tempfile

from clingo import Control, parse_term
from clingo.ast import ProgramBuilder, parse_files, parse_string

ST = {"c": [], "seen": []}


def logger(tag):
    return lambda code, text: ST["seen"].append((tag, code.name, text))


class Capture:
    """Runs an operation and says whether it worked, who got messages and which."""

    def __init__(self):
        self.ok = True

    def __enter__(self):
        ST["seen"] = []
        sys.stderr.flush()
        self.old = os.dup(2)
        self.f = tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, t, v, tb):
        sys.stderr.flush()
        os.dup2(self.old, 2)
        os.close(self.old)
        self.f.seek(0)
        raw = self.f.read().decode()
        self.f.close()
        if t is not None and not issubclass(t, RuntimeError):
            return False
        who = {x[0] for x in ST["seen"]} | ({"stderr"} if raw else set())
        self.res = {"ok": t is None, "to": "nobody" if not who else ",".join(sorted(who)),
                    "msgs": [[x[1], x[2]] for x in ST["seen"]] + ([["?", raw]] if raw else [])}
        return True


def op_l_start(self, s):
    ST["c"], ST["seen"] = [], []
    with open("inc.lp", "w") as f:
        f.write("inc.\n")


def op_l_new(self, s):
    k = len(ST["c"]) + 1
    if s["log"]:
        c = Control(s["args"], logger("c%d" % k), s["lim"]) if k % 2 else Control(arguments=s["args"], message_limit=s["lim"], logger=logger("c%d" % k))
    else:
        c = Control(s["args"], None, s["lim"])
    ST["c"].append(c)


def stored(text, name="prg"):
    with open(name + ".lp", "w") as f:
        f.write(text)
    return name + ".lp"


def op_l_add(self, s):
    c, t = ST["c"][s["c"] - 1], "\n".join(s["lines"]) + "\n"
    with Capture() as x:
        if s["how"] == "add":
            c.add(s["part"], [], t)
        elif s["how"] == "load":
            c.load(stored("#program %s. %s" % (s["part"], t), s["part"]))
        else:
            # the builder belongs to the control, so its messages do, too
            with ProgramBuilder(c) as b:
                parse_string("#program %s. %s" % (s["part"], t), b.add)
    return x.res


def op_l_ground(self, s):
    with Capture() as x:
        ST["c"][s["c"] - 1].ground([(s["part"], [])])
    return x.res


def op_l_parse(self, s):
    t, lg = "\n".join(s["lines"]) + "\n", logger("parser") if s["log"] else None
    with Capture() as x:
        if s["how"] == "string":
            parse_string(t, lambda _: None, None, lg, s["lim"])
        else:
            parse_files([stored(t)], lambda _: None, message_limit=s["lim"], logger=lg)
    return x.res


def op_l_term(self, s):
    with Capture() as x:
        parse_term(s["text"], logger("term") if s["log"] else None, s["lim"])
    return {"ok": x.res["ok"], "to": x.res["to"]}
