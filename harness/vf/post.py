"""Observations that need more than one record put together (the specification speaks about names, not numbers)."""

# the 5.6 engine numbers a sequence by its negated kind when stated and from -1 when grounded
STATED = {-1: "set", -2: "list"}
GROUNDED = {-1: "tuple", -2: "set", -3: "list"}


def summarise(rid, log, names):
    terms, elems = {}, {}
    r = {"id": rid, "init": 0, "begin": 0, "end": 0, "ev": [], "any": [], "th": [], "out": [], "ok": True}

    def nm(l):
        n = names.get(abs(l), "?%d" % abs(l))
        return ("~" if l < 0 else "") + n

    def isg(*ls):
        return any("(" in nm(l) and not nm(l).lstrip("~").startswith("c(") for l in ls)

    def text(i, seqs):
        k = terms[i]
        if k[0] == "n":
            return str(k[1])
        if k[0] == "s":
            return k[1]
        a = ",".join(text(j, seqs) for j in k[2])
        # names of functions are told as string terms
        return (terms[k[1]][1] + "(" + a + ")") if k[1] >= 0 and k[3] else (seqs.get(k[1], "?") + "[" + a + "]")
    for i, e in enumerate(log):
        n, a = e[0], e[1:]
        if n == "init_program":
            r["init"] += 1
            r["ok"] = r["ok"] and a == [True] and i == 0
        elif n == "begin_step":
            r["begin"] += 1
            r["ok"] = r["ok"] and all(x[0] == "init_program" for x in log[:i])
        elif n == "end_step":
            r["end"] += 1
            r["ok"] = r["ok"] and i == len(log) - 1
        elif n == "rule":
            ls = a[1] + a[2]
            if ls and all(nm(x)[0] == "?" or nm(x)[:2] == "~?" for x in ls):
                pass  # auxiliary atoms of the grounder
            elif isg(*ls):
                r["any"].append([n, a[0], {"bag": [nm(x) for x in a[1]]}, {"bag": [nm(x) for x in a[2]]}])
            else:
                r["ev"].append([n, a[0], [nm(x) for x in a[1]], [nm(x) for x in a[2]]])
        elif n == "weight_rule":
            r["ev"].append([n, a[0], [nm(x) for x in a[1]], a[2], [[nm(x), w] for x, w in a[3]]])
        elif n == "minimize":
            w = [[nm(x), w] for x, w in a[1]]
            if isg(*[x for x, _ in a[1]]):
                r["any"].append([n, a[0], {"bag": w}])
            else:
                r["ev"].append([n, a[0], w])
        elif n == "project":
            if isg(*a[0]):
                r["any"].append([n, {"bag": [nm(x) for x in a[0]]}])
            else:
                r["ev"].append([n, [nm(x) for x in a[0]]])
        elif n == "output_atom":
            r["out"].append([n, a[0], nm(a[1])])
        elif n == "output_term":
            r["out"].append([n, a[0], [nm(x) for x in a[1]]])
        elif n == "external":
            (r["any"] if isg(a[0]) else r["ev"]).append([n, nm(a[0]), a[1]])
        elif n == "assume":
            r["ev"].append([n, [nm(x) for x in a[0]]])
        elif n == "heuristic":
            x = [n, nm(a[0]), a[1], a[2], a[3]]
            if isg(a[0]):
                r["any"].append(x + [{"bag": [nm(y) for y in a[4]]}])
            else:
                r["ev"].append(x + [[nm(y) for y in a[4]]])
        elif n == "acyc_edge":
            r["ev"].append([n, a[0], a[1], [nm(x) for x in a[2]]])
        elif n == "theory_term_number":
            terms[a[0]] = ("n", a[1])
        elif n == "theory_term_string":
            terms[a[0]] = ("s", a[1])
        elif n == "theory_term_compound":
            isname = a[1] > 0 or (a[1] == 0 and terms.get(0, ("", 0))[0] == "s")
            terms[a[0]] = ("c", a[1], a[2], isname)
            if isname and terms[a[1]][0] != "s" or any(x not in terms for x in a[2]):
                r["ok"] = False
        elif n == "theory_element":
            elems[a[0]] = (a[1], a[2])
            if any(x not in terms for x in a[1]):
                r["ok"] = False
        elif n in ("theory_atom", "theory_atom_with_guard"):
            name = terms[a[1]]
            tn = text(a[1], STATED)
            seqs = GROUNDED if tn.startswith("ta(") else STATED
            es = [[[text(t, seqs) for t in elems[x][0]], [nm(y) for y in elems[x][1]]] for x in a[2]]
            v = ["theory", nm(a[0]) if a[0] else "0", tn, {"bag": es} if tn.startswith("ta(") else es]
            if n.endswith("guard"):
                v += [terms[a[3]][1], text(a[4], seqs)]
            r["th"].append(v)
        else:
            r["ok"] = False
    for k in ("any", "th", "out"):
        r[k] = {"bag": r[k]}
    return r



def backend(op, obs):
    """What each observer was told in a step, literals by name and theory data as trees."""
    if op["op"] != "stepend" or not isinstance(obs, dict) or "logs" not in obs:
        return obs
    names = {}
    for l, n in obs["names"]:
        names.setdefault(l, n)
    try:
        return {"obs": [summarise(x["id"], x["log"], names) for x in obs["logs"]], "cut": obs["cut"]}
    except (KeyError, IndexError, TypeError) as e:
        return {"malformed": repr(e), "obs": obs["logs"]}


def api(st, o):
    """How often a function without effects is called does not matter."""
    if not isinstance(o, dict) or "items" not in o:
        return o
    res = []
    for it, r in zip(st["items"], o["items"]):
        calls = []
        for c in r["calls"] or []:
            if c["f"] in (it["pure"] or []) and c in calls:
                continue
            calls.append(c)
        res.append(dict(r, calls=calls))
    return dict(o, items=res)


def app(st, o):
    """What a run of an application showed, with the parts the engine is free in left out."""
    import re
    if not isinstance(o, dict) or "out" not in o:
        return o
    pr, brief = st["printer"] != "none", st["brief"]
    ev, shown = [], {}
    for e in o["ev"]:
        if e[0] == "log":
            ev.append(["log", e[1], re.split(r"\n\s*", e[2].strip())[-1] if e[1] == "AtomUndefined" else e[2].strip()])
        else:
            ev.append(e)
    models = [e for e in ev if e[0] == "model"]
    lines = o["out"].split("\n")
    head = lines[0] if " version " in lines[0] else ""
    answers, printed = [], []
    cur = None
    body = lines if not head else lines[1:]
    if body and body[-1] == "":
        body = body[:-1]
    stop = {"SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "OPTIMUM FOUND"}
    i, on = 0, brief
    while i < len(body):
        l = body[i]
        if l in stop or l.startswith("usage: ") or (head and l.startswith("Address model: ")):
            break
        if l.startswith("Answer: "):
            cur = {"n": int(l[8:]), "pm": 0, "pe": 0, "def": 0, "same": True}
            answers.append(cur)
            on = True
        elif l.startswith("Solving...") or l.startswith("Reading from"):
            on = brief
        elif on:
            if brief and (cur is None or not pr or l.startswith("PM ")):
                cur = {"n": 0, "pm": 0, "pe": 0, "def": 0, "same": True}
                answers.append(cur)
            if re.fullmatch(r"PM \d+", l):
                cur["pm"] += 1
                cur["same"] = cur["same"] and (brief or int(l[3:]) == cur["n"]) and cur["def"] == 0
            elif re.fullmatch(r"PE \d+", l):
                cur["pe"] += 1
                cur["same"] = cur["same"] and cur["def"] > 0
            else:
                cur["def"] += 1
                a = " ".join(sorted(l.split()))
                k = len(answers) - 1
                if pr:
                    cur["same"] = cur["same"] and k < len(models) and (models[k][2] in ("", a))
                printed.append(a)
        i += 1
    m = re.search(r"^\*\*\* ERROR: \((.*?)\)", o["err"], re.M)
    panic = "PANIC" in o["err"]
    r = {"code": o["code"], "ev": ev, "head": head, "answers": answers, "printed": printed, "err": m.group(1) if m and not panic else "",
         "boo": re.search(r"\bboo\b", o["err"].lower()) is not None, "errlogs": o["err"].count("atom does not occur"), "look": [x in o["out"] for x in st["look"]]}
    return r
