"""User statistics (C17)."""
from clingo import Control
from clingo.statistics import StatisticsArray, StatisticsMap

OPS = {}
PROG = ["{a;b}.", "1{a;b}. #minimize{1,a:a;2,b:b}.", "1{a;b}. #minimize{1@2,a:a;2@2,b:b;5@1,a:a}."]


def value(w, k=[0]):
    """A Python value for a value of the specification."""
    k[0] += 1
    if w["t"] == "v":
        x = w["v"] / 4
        return int(x) if k[0] % 2 and x == int(x) else x
    if w["t"] == "f":
        return lambda old: w["init"] / 4 if old is None else old + w["add"] / 4
    if w["t"] == "a":
        r = [value(x) for x in w["e"]]
        return tuple(r) if k[0] % 2 else r
    return {p["n"]: value(p["x"]) for p in w["e"]}


def tree(x, style="index"):
    if isinstance(x, StatisticsMap):
        ks = list(x.keys())
        assert list(x) == ks and len(x) == len(ks) and all(k in x for k in ks)
        if style == "iter":
            e = [{"n": k, "x": tree(y, style)} for k, y in x.items()]
            assert [p["x"] for p in e] == [tree(y, style) for y in x.values()]
        else:
            e = [{"n": k, "x": tree(x[k], style)} for k in ks]
        return {"t": "m", "e": e}
    if isinstance(x, StatisticsArray):
        if style == "iter":
            return {"t": "a", "e": [tree(y, style) for y in x]}
        return {"t": "a", "e": [tree(x[i], style) for i in range(len(x))]}
    return plain(x)


def plain(x):
    if isinstance(x, dict):
        return {"t": "m", "e": [{"n": k, "x": plain(y)} for k, y in x.items()]}
    if isinstance(x, list):
        return {"t": "a", "e": [plain(y) for y in x]}
    assert isinstance(x, float), x
    return {"t": "v", "v": x * 4}


def nav(x, path):
    for p in path:
        x = x[p] if isinstance(x, StatisticsMap) else x[int(p)]
    return x


def one(roots, s):
    x = nav(roots[s["root"] - 1], s["path"])
    do = s["do"]
    if do == "set":
        k, v = (int(s["key"]) if s["arr"] else s["key"]), value(s["val"])
        if s["style"] == "update":
            x.update({k: v})
        else:
            x[k] = v
    elif do == "update":
        x.update(value(s["val"]))
    elif do == "extend":
        if s["style"] == "append":
            x.append(value(s["vals"][0]))
        elif s["style"] == "self":
            x.extend(x)
        elif s["style"] == "extend":
            x.extend(value(v) for v in s["vals"])
        else:
            y = x
            y += [value(v) for v in s["vals"]]
            assert y is x
    elif do == "copy":
        x[s["key"]] = nav(roots[s["root2"] - 1], s["path2"])
    elif do == "read":
        return tree(x, s["style"])
    elif do == "has":
        return s["key"] in x
    elif do == "bad":
        k = int(s["key"]) if s["arr"] and s["key"] != "x" and s["key"] != "none" else s["key"]
        w = s["what"]
        if w == "get":
            x[k]
        elif w == "add":
            x + [1]
        elif w == "del":
            del x[k]
        elif w == "insert":
            x.insert(k, 1)
        elif w == "str":
            if s["arr"]:
                x.append("x")
            else:
                x["new key"] = "x"
        elif w == "neg":
            x[len(x)] = 1
    return "ok"


def op_s_new(self, s):
    self.opt = s["opt"]
    self.c = Control(["0"] + (["--opt-mode=optN"] if self.opt else []), logger=lambda a, b: None)
    self.c.add("base", [], PROG[self.opt])
    self.c.ground([("base", [])])


def op_s_run(self, s):
    obs, calls = [], []

    def stat(step, accu):
        calls.append(1)
        for o in s["ops"]:
            try:
                obs.append(one((step, accu), o))
            except Exception:
                obs.append("error")
    if s["mode"] == "cb":
        self.c.solve(on_statistics=stat)
    elif s["mode"] == "yield":
        with self.c.solve(on_statistics=stat, yield_=True) as h:
            for _ in h:
                pass
    else:
        with self.c.solve(on_statistics=stat, async_=True) as h:
            h.get()
    return {"ops": obs, "calls": len(calls)}


def op_s_read(self, s):
    st = self.c.statistics
    sm = st["summary"]
    return {"step": plain(st.get("user_step", {})), "accu": plain(st.get("user_accu", {})), "call": sm["call"], "costs": sm["costs"],
            "optimal": sm["models"]["optimal"], "models": -1 if self.opt and sm["models"]["enumerated"] else sm["models"]["enumerated"]}
