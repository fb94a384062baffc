"""Replaying behaviours of the specification into the real code."""
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build

DRV = os.path.join(build.VERIF, "drivers")
CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def argv_env(lang, engine, driver=None):
    if lang == "py":
        return ["/usr/bin/python3", os.path.join(DRV, (driver or "py_driver") + ".py")], build.py_env(engine)
    if lang == "cc":
        return [build.cc_driver(driver or "cc_driver", engine)], dict(os.environ)
    if lang == "lua":
        e = dict(os.environ)
        e["LUA_CPATH"] = build.lua_ext(engine) + "/?.so;" + build.lua_cap() + "/?.so"
        e["LUA_PATH"] = DRV + "/?.lua"
        if engine == "shim":
            e["VF_SHIM"] = build.shim_lib().replace("shim.so", "shimlua.so")
        return ["/usr/bin/lua5.4", os.path.join(DRV, (driver or "lua_driver") + ".lua")], e
    if lang == "g":
        return [build.g_driver()], dict(os.environ)
    if lang == "gringo":
        return [build.gringo_driver()], dict(os.environ)
    raise ValueError(lang)


def _chunk(argv, env, behs, timeout):
    """Run behaviours in one driver process; yields list of (obs list | crash record)."""
    out = []
    todo = list(range(len(behs)))
    d = tempfile.mkdtemp(prefix="vf-run-")
    try:
        while todo:
            fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
            with open(fi, "w") as f:
                for i in todo:
                    f.write(json.dumps({"id": i, "steps": behs[i]}) + "\n")
            if os.path.exists(fo):
                os.remove(fo)
            err = ""
            try:
                p = subprocess.run(argv + [fi, fo], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=timeout, errors="replace", cwd=d)
                rc, err = p.returncode, p.stdout[-3000:]
            except subprocess.TimeoutExpired as e:
                rc = "timeout"
                err = (e.stdout or b"")[-2000:]
                if isinstance(err, bytes):
                    err = err.decode(errors="replace")
            done = {}
            if os.path.exists(fo):
                for line in open(fo, errors="replace"):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        break
                    done[r["id"]] = r
            for i in todo:
                if i in done:
                    out.append((i, done[i]))
            rest = [i for i in todo if i not in done]
            if not rest:
                if rc != 0:
                    # died after the last behaviour (e.g. at shutdown)
                    out[-1] = (out[-1][0], dict(out[-1][1], died=str(rc), err=err))
                break
            if rc == 0:
                raise RuntimeError("driver produced no answer and exit 0: " + err)
            if not done and rc != "timeout" and rc >= 0 and rc < 128:
                # an ordinary error before anything ran: the driver itself is broken unless it is the code under test
                out.append((rest[0], {"id": rest[0], "obs": [], "died": str(rc), "err": err}))
            else:
                out.append((rest[0], {"id": rest[0], "obs": [], "died": str(rc), "err": err}))
            todo = rest[1:]
            if len([1 for _, o in out if "died" in o]) > 5:
                for i in todo:
                    out.append((i, None))
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out.sort()
    return [o for _, o in out]


def replay(lang, behs, engine="real", procs=8, timeout=300, driver=None):
    argv, env = argv_env(lang, engine, driver)
    n = max(1, min(procs, (len(behs) + 3) // 4))
    parts = [behs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda b: _chunk(argv, env, b, timeout), parts))
    res = [None] * len(behs)
    for i in range(n):
        for j, o in enumerate(rs[i]):
            res[i + j * n] = o
    return res


# -- comparison -------------------------------------------------------------

def canon(x):
    if isinstance(x, dict):
        if set(x) == {"bag"}:
            return {"bag": sorted((canon(y) for y in (x["bag"] or [])), key=lambda v: json.dumps(v, sort_keys=True))}
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [canon(y) for y in x]
    return x


MATCH = {"m_all", "m_each", "m_lexdown", "m_init", "m_last", "m_first", "m_restof", "m_filter", "m_monotone", "m_project"}


def _match(exp, obs):
    """Matchers over a sequence of observations."""
    if isinstance(obs, dict) and set(obs) == {"bag"}:
        obs = obs["bag"]
    if not isinstance(obs, list):
        return False
    if "m_all" in exp:
        return all(same(m, obs) for m in exp["m_all"])
    if "m_project" in exp:
        q = set(exp["m_project"])
        got = [{"bag": [a for a in m["atoms"]["bag"] if a in q]} for m in obs]
        if not _bag(exp["as"]["bag"] or [], got):
            return False
    if "m_lexdown" in exp:
        c = [m[exp["m_lexdown"]] for m in obs]
        return all(b < a for a, b in zip(c, c[1:]))
    if "m_monotone" in exp:
        c = [set(m[exp["m_monotone"]]["bag"]) for m in obs]
        return all((a < b if exp["dir"] == "up" else b < a) for a, b in zip(c, c[1:]))
    if "m_init" in exp:
        return all(same(exp["m_init"], m) for m in obs[:-1])
    if "m_last" in exp:
        return bool(obs) and same(exp["m_last"], obs[-1])
    if "m_first" in exp:
        return bool(obs) and same(exp["m_first"], obs[0])
    if "m_restof" in exp:
        return same(exp["m_restof"], obs[1:])
    if "m_filter" in exp:
        return same(exp["rest"], [m for m in obs if same(exp["m_filter"], m)])
    if "m_each" in exp:
        return all(same(exp["m_each"], m) for m in obs)
    return True


def same(exp, obs):
    """Does the observation agree with what the specification expects?"""
    if isinstance(exp, dict):
        if set(exp) == {"oneof"}:
            return any(same(e, obs) for e in exp["oneof"])
        if set(exp) == {"any"}:
            return True
        if set(exp) == {"sub"}:
            return isinstance(obs, str) and exp["sub"] in obs
        if set(exp) == {"deliver", "of"}:
            return _messages(exp["deliver"], exp["of"] or [], obs)
        if set(exp) == {"must", "may"}:
            return isinstance(obs, list) and set(exp["must"] or []) <= set(obs) <= set(exp["must"] or []) | set(exp["may"] or [])
        if set(exp) == {"num"}:
            return isinstance(obs, (int, float)) and not isinstance(obs, bool) and obs == (int(exp["num"]) if "." not in exp["num"] else float(exp["num"]))
        if any(k in MATCH for k in exp):
            return _match(exp, obs)
        if set(exp) == {"bag"}:
            if isinstance(obs, dict) and set(obs) == {"bag"}:
                obs = obs["bag"]
            return isinstance(obs, list) and _bag(exp["bag"] or [], obs)
        return isinstance(obs, dict) and all(k in obs and same(v, obs[k]) for k, v in exp.items())
    if isinstance(exp, list):
        if not exp and (obs == {} or obs == []):
            return True
        return isinstance(obs, list) and len(exp) == len(obs) and all(same(a, b) for a, b in zip(exp, obs))
    if isinstance(exp, bool) or isinstance(obs, bool):
        return exp is obs
    return exp == obs


def _messages(k, of, obs):
    """Exactly k of the messages in `of`; what went to the error stream ("?") comes in one piece and without codes."""
    if not isinstance(obs, list):
        return False
    got = []
    for code, raw in obs:
        if code == "?":
            at = [m.start() for m in re.finditer(r"(?m)^[^\s:]+:\d+:[-\d:]+ (?!note)", raw)]
            got += [("?", raw[a:b]) for a, b in zip(at, at[1:] + [len(raw)])]
            if not at or at[0] != 0:
                return False
        else:
            got.append((code, raw))
    rest = list(of)
    for code, raw in got:
        for i, m in enumerate(rest):
            if code in ("?", m["code"]) and m["text"] in raw + "\n" and re.match(r"[^\s:]+:%d:" % m["line"], raw):
                del rest[i]
                break
        else:
            return False
    return len(got) == k


def _bag(exp, obs):
    if len(exp) != len(obs):
        return False
    k = lambda v: json.dumps(canon(v), sort_keys=True)
    a, b = sorted(exp, key=k), sorted(obs, key=k)
    if all(same(x, y) for x, y in zip(a, b)):
        return True
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if same(x, y):
                del rest[i]
                break
        else:
            return False
    return True


def why(exp, obs, path="", depth=0):
    """The smallest disagreement inside an observation, for people."""
    if same(exp, obs) or depth > 12:
        return None
    if isinstance(exp, dict) and set(exp) == {"must", "may"} and isinstance(obs, list):
        return "%s: missing %s, unexpected %s" % (path, sorted(set(exp["must"] or []) - set(obs))[:5], sorted(set(obs) - set(exp["must"] or []) - set(exp["may"] or []))[:5])
    if isinstance(exp, dict) and isinstance(obs, dict) and set(exp) != {"bag"} and not (set(exp) & MATCH) and set(exp) != {"oneof"}:
        for k, v in exp.items():
            if k not in obs:
                return "%s/%s: missing" % (path, k)
            w = why(v, obs[k], path + "/" + str(k), depth + 1)
            if w:
                return w
    if isinstance(exp, dict) and set(exp) == {"bag"} and isinstance(obs, (dict, list)):
        o = obs.get("bag", []) if isinstance(obs, dict) else obs
        e, rest = [], list(o)
        for x in exp["bag"] or []:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                e.append(x)
        if e and rest and isinstance(e[0], dict):
            score = lambda r: sum(1 for k, v in e[0].items() if isinstance(r, dict) and k in r and same(v, r[k]))
            return why(e[0], max(rest, key=score), path + "[]", depth + 1)
        return "%s: missing %s, unexpected %s" % (path, json.dumps(e)[:400], json.dumps(rest)[:400])
    if isinstance(exp, list) and isinstance(obs, list) and len(exp) == len(obs):
        for i, (a, b) in enumerate(zip(exp, obs)):
            w = why(a, b, "%s[%d]" % (path, i), depth + 1)
            if w:
                return w
    return "%s: expected %s, observed %s" % (path, json.dumps(exp)[:400], json.dumps(obs)[:400])


def compare(beh, res, post=None):
    """None if the behaviour was followed, else a description of the first difference."""
    if res is None:
        return None
    obs = res["obs"]
    if post:
        obs = [post(beh[i], o) for i, o in enumerate(obs)]
    for i, st in enumerate(beh):
        if i >= len(obs):
            return {"step": i, "op": st, "observed": "the process died here: " + str(res.get("died")), "output": res.get("err", "")[-1500:]}
        if "exp" not in st and isinstance(obs[i], dict) and "exc" in obs[i]:
            return {"step": i, "why": "unexpected error " + str(obs[i].get("msg")), "op": st, "expected": None, "observed": obs[i]}
        if "exp" in st and not same(st["exp"], obs[i]):
            return {"step": i, "why": why(st["exp"], obs[i]), "op": {k: v for k, v in st.items() if k != "exp"}, "expected": st["exp"], "observed": obs[i]}
    if "died" in res:
        return {"step": len(beh), "op": "end", "observed": "the process died at its end: " + str(res["died"]), "output": res.get("err", "")[-1500:]}
    return None
